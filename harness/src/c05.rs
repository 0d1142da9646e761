//! Encrypted response modes are accepted only when the parties share the means.
use crate::fx::*;
use crate::vsym::*;
use openid4vp::core::authorization_request::{AuthorizationRequest, RequestIndirection};

const CH: &str = IDCHARS;
fn run(mode: &str, client_md: Option<&str>, wallet_extra: &str) -> bool { run_with(mode, client_md, wallet_extra, "") }
fn run_with(mode: &str, client_md: Option<&str>, wallet_extra: &str, rest: &str) -> bool {
    let cm = client_md.map_or(String::new(), |m| format!(r#","client_metadata":{m}"#));
    let uri = if mode.starts_with("dc_api") { "" } else { r#","response_uri":"https://v/r""# };
    let w = W::new(metadata(wallet_extra), Http::none(), true);
    // no mode is the default one, direct_post
    let mode = if mode.is_empty() { String::new() } else { format!(r#""response_mode":"{mode}","#) };
    let o = obj(&format!(r#"{{"nonce":"n",{mode}"response_type":"vp_token"{uri}{cm}{rest}}}"#));
    let r = block_on(AuthorizationRequest { client_id: Some("c".into()), request_indirection: RequestIndirection::Direct(o) }.validate(&w));
    outcome(&r);
    let n = w.calls.0.borrow().len();
    check(n == r.is_ok() as usize, "a verifier ran for a request that fails the encryption negotiation, or none ran");
    r.is_ok()
}
fn jwk(u: &Option<String>, a: &Option<String>) -> String {
    let mut m = vec![r#""kty":"EC""#.to_string()];
    if let Some(u) = u { m.push(format!(r#""use":"{u}""#)); }
    if let Some(a) = a { m.push(format!(r#""alg":"{a}""#)); }
    format!("{{{}}}", m.join(","))
}
fn quoted(l: &[String]) -> String { format!("[{}]", l.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(",")) }
fn list(max: usize, lens: &[usize], ch: &str) -> Vec<String> { (0..choose(max + 1)).map(|_| string(pick(lens), ch)).collect() }
fn judge(ok: bool, want: bool) {
    cover(if want { "served" } else { "refused" });
    check(ok == want, if want { "an encrypted response that both parties can do was refused" } else { "an encrypted response was accepted that the parties cannot do" });
}
fn mode() -> &'static str { pick(&["direct_post.jwt", "dc_api.jwt"]) }

crate::entries! {
    // what was decided before does not matter
    c05_again {
        let m = mode();
        let side = |k: usize| match k { 0 => (r#"{"jwks":{"keys":[{"kty":"EC","use":"enc","alg":"a"}]},"encrypted_response_enc_values_supported":["e"]}"#, r#""authorization_encryption_alg_values_supported":["a"],"authorization_encryption_enc_values_supported":["e"]"#, true), 1 => (r#"{"jwks":{"keys":[{"kty":"EC","use":"enc","alg":"b"}]},"encrypted_response_enc_values_supported":["e"]}"#, r#""authorization_encryption_alg_values_supported":["a"],"authorization_encryption_enc_values_supported":["e"]"#, false), 2 => (r#"{"jwks":{"keys":[{"kty":"EC","use":"enc","alg":"a"}]},"encrypted_response_enc_values_supported":["e"]}"#, r#""authorization_encryption_alg_values_supported":["a"],"authorization_encryption_enc_values_supported":["f"]"#, false), _ => (r#"{"jwks":{"keys":[]}}"#, r#""authorization_encryption_alg_values_supported":["a"],"authorization_encryption_enc_values_supported":["e"]"#, false) };
        let (a, b) = (choose(4), choose(4));
        for k in [a, b, a] { let (c, w, want) = side(k); judge(run(m, Some(c), w), want); }
    }
    // which keys count: up to 2 (3) keys, use and alg present or not, texts symbolic
    c05_keys {
        let n = choose(bound(3, 4));
        let mut keys = vec![];
        let mut usable = false;
        for _ in 0..n {
            let u = match choose(3) { 0 => None, 1 => Some(string(3, CH)), _ => Some(string(4, CH)) };
            let a = if flag() { Some(string(2, CH)) } else { None };
            if u.as_ref().map_or(false, |u| u == "enc") && a.is_some() { usable = true; }
            keys.push(jwk(&u, &a));
        }
        judge(run(mode(), Some(&format!(r#"{{"jwks":{{"keys":[{}]}}}}"#, keys.join(","))), ""), usable);
    }
    // key agreement algorithms: verifier's encryption keys against the wallet's list
    c05_algs {
        let lens: &[usize] = if thorough() { &[1, 2, 3] } else { &[1, 2] };
        let enc: Vec<String> = (0..1 + choose(bound(2, 3))).map(|_| string(pick(lens), CH)).collect();
        let decoy = if flag() { Some(string(2, CH)) } else { None };
        let mut keys: Vec<String> = vec![];
        if let Some(d) = &decoy { keys.push(jwk(&Some("sig".into()), &Some(d.clone()))); }
        keys.extend(enc.iter().map(|a| jwk(&Some("enc".into()), &Some(a.clone()))));
        let wal = list(bound(2, 3), lens, CH);
        let ok = run(mode(), Some(&format!(r#"{{"jwks":{{"keys":[{}]}}}}"#, keys.join(","))), &format!(r#""authorization_encryption_alg_values_supported":{}"#, quoted(&wal)));
        judge(ok, enc.iter().any(|a| wal.iter().any(|b| a.as_bytes() == b.as_bytes())));
    }
    // content encryption: verifier's list against the wallet's
    c05_encs {
        let lens: &[usize] = if thorough() { &[1, 2, 3] } else { &[1, 2] };
        let ver = list(bound(2, 3), lens, CH);
        let wal = list(bound(2, 3), lens, CH);
        let ok = run(mode(), Some(&format!(r#"{{"jwks":{{"keys":[{}]}},"encrypted_response_enc_values_supported":{}}}"#, jwk(&Some("enc".into()), &Some("E".into())), quoted(&ver))),
            &format!(r#""authorization_encryption_enc_values_supported":{}"#, quoted(&wal)));
        judge(ok, ver.iter().any(|a| wal.iter().any(|b| a.as_bytes() == b.as_bytes())));
    }
    // any text in one place
    c05_any {
        let a = any();
        let n = |s: &str| s.to_string();
        // use, alg, the wallet's alg, enc, the wallet's enc
        let l = match choose(6) { 0 => [a, n("ECDH-ES"), n("ECDH-ES"), n("A256GCM"), n("A256GCM")], 1 => [n("enc"), a, n("ECDH-ES"), n("A256GCM"), n("A256GCM")], 2 => [n("enc"), n("ECDH-ES"), a, n("A256GCM"), n("A256GCM")], 3 => [n("enc"), n("ECDH-ES"), n("ECDH-ES"), a, n("A256GCM")], 4 => [n("enc"), n("ECDH-ES"), n("ECDH-ES"), n("A256GCM"), a], _ => [n("enc"), n("ECDH-ES"), n("ECDH-ES"), n("A128GCM"), a] };
        let ok = run(mode(), Some(&format!(r#"{{"jwks":{{"keys":[{}]}},"encrypted_response_enc_values_supported":["{}"]}}"#, jwk(&Some(l[0].clone()), &Some(l[1].clone())), l[3])),
            &format!(r#""authorization_encryption_alg_values_supported":["{}"],"authorization_encryption_enc_values_supported":["{}"]"#, l[2], l[4]));
        judge(ok, eq(&l[0], "enc") & eq(&l[1], &l[2]) & eq(&l[3], &l[4]));
    }
    // content encryption when the verifier names none: A128GCM
    c05_default_enc {
        let wal = list(bound(2, 3), &[6, 7, 8], "A128GCM59HSB-");
        let more = pick(&["", r#","authorization_encrypted_response_enc":"A256GCM","encrypted_response_enc":"A256GCM","enc":["A256GCM"],"encrypted_response_enc_values":["AB"]"#]);
        let ok = run(mode(), Some(&format!(r#"{{"jwks":{{"keys":[{}]}}{more}}}"#, jwk(&Some("enc".into()), &Some("E".into())))), &format!(r#""authorization_encryption_enc_values_supported":{}"#, quoted(&wal)));
        judge(ok, wal.iter().any(|b| b == "A128GCM"));
    }
    // long lists and near misses: the only thing the parties share stands anywhere, or is off by a character of any class
    c05_near {
        let f = |l: &[&str], i: usize, x: &str| { let mut v: Vec<String> = l.iter().map(|s| s.to_string()).collect(); v.insert(i, x.into()); v };
        let (algs, encs) = (["ECDH-ES+A128KW", "RSA-OAEP", "RSA-OAEP-256", "dir", "ECDH-ES+A192KW"], ["A128CBC-HS256", "A192GCM", "A256CBC-HS512", "XC20P", "A192CBC-HS384"]);
        let which = choose(3);
        let k = pick(&[0, 5]);
        let (a, wa) = if which == 0 { ("ECDH-ES", near("ECDH-ES")) } else { ("ECDH-ES", "ECDH-ES".into()) };
        let (e, we) = if which == 1 { ("A256GCM", near("A256GCM")) } else { ("A256GCM", "A256GCM".into()) };
        let (u, uses) = if which == 2 { let u = near("enc"); (eq(&u, "enc"), u) } else { (true, "enc".into()) };
        // the keys before and after are for signatures, or of algorithms the wallet does not know
        let mut keys: Vec<String> = (0..5).map(|i| if i % 2 == 0 { jwk(&Some("sig".into()), &Some(a.into())) } else { jwk(&Some("enc".into()), &Some(format!("alg{i}"))) }).collect();
        keys.insert(k, jwk(&Some(uses), &Some(a.into())));
        let ver = f(&["e1", "e2", "e3", "e4", "e5"], 5 - k, e);
        let ok = run(["direct_post.jwt", "dc_api.jwt"][k / 5], Some(&format!(r#"{{"jwks":{{"keys":[{}]}},"encrypted_response_enc_values_supported":{}}}"#, keys.join(","), quoted(&ver))),
            &format!(r#""authorization_encryption_alg_values_supported":{},"authorization_encryption_enc_values_supported":{}"#, quoted(&f(&algs, k, &wa)), quoted(&f(&encs, 5 - k, &we))));
        judge(ok, u & eq(a, &wa) & eq(e, &we));
    }
    // many keys, algorithms and content encryptions, of which one on each side may be shared
    c05_many {
        let n = bound(20, 80);
        let at = pick(&[0, n / 2, n - 1]);
        let (a, e) = (string(2, "aAb-"), string(2, "aAb-"));
        let which = choose(3);
        let ka = |i: usize| if i == at { "aA".to_string() } else { format!("alg{i}") };
        let use_ = pick(&["enc", "sig"]);
        let keys: Vec<String> = (0..n).map(|i| jwk(&Some(if i == at { "enc".into() } else { use_.to_string() }), &Some(ka(i)))).collect();
        let ver: Vec<String> = (0..n).map(|i| if i == at { "aA".into() } else { format!("e{i}") }).collect();
        let other = |x: &str, own: &str| -> Vec<String> { (0..n).map(|i| if i + 1 == n - at { x.to_string() } else { format!("{own}{i}") }).collect() };
        let (wa, we) = (other(if which == 1 { "aA" } else { &a }, "wa"), other(if which == 0 { "aA" } else { &e }, "we"));
        let ok = run(mode(), Some(&format!(r#"{{"jwks":{{"keys":[{}]}},"encrypted_response_enc_values_supported":{}}}"#, keys.join(","), quoted(&ver))), &format!(r#""authorization_encryption_alg_values_supported":{},"authorization_encryption_enc_values_supported":{}"#, quoted(&wa), quoted(&we)));
        judge(ok, (which == 1 || eq(&a, "aA")) & (which == 0 || eq(&e, "aA")));
    }
    // an empty list of content encryptions is not no list
    c05_empty_enc {
        let wal = pick(&[r#"["A128GCM"]"#, r#"["A128GCM","A256GCM"]"#, "[]"]);
        let ok = run(mode(), Some(&format!(r#"{{"jwks":{{"keys":[{}]}},"encrypted_response_enc_values_supported":[]}}"#, jwk(&Some("enc".into()), &Some("E".into())))), &format!(r#""authorization_encryption_enc_values_supported":{wal}"#));
        judge(ok, false);
    }
    // wallets that do not restrict; lists on one side only
    c05_unrestricted {
        let a = string(2, CH);
        let e = string(2, CH);
        let encs = if flag() { format!(r#","encrypted_response_enc_values_supported":["{e}"]"#) } else { String::new() };
        let ok = run(mode(), Some(&format!(r#"{{"jwks":{{"keys":[{}]}}{encs}}}"#, jwk(&Some("enc".into()), &Some(a.clone())))), if flag() { "" } else { r#""issuer":"x""# });
        judge(ok, true);
    }
    // both negotiations have to succeed
    c05_both {
        let a = string(1, CH); let e = string(1, CH); let wa = string(1, CH); let we = string(1, CH);
        let ok = run(mode(), Some(&format!(r#"{{"encrypted_response_enc_values_supported":["{e}"],"jwks":{{"keys":[{}]}}}}"#, jwk(&Some("enc".into()), &Some(a.clone())))),
            &format!(r#""authorization_encryption_alg_values_supported":["{wa}"],"authorization_encryption_enc_values_supported":["{we}"]"#));
        judge(ok, a == wa && e == we);
    }
    // whatever else the keys, the verifier, the wallet and the request say
    c05_beside {
        let k = pick(&["", r#","kid":"1","crv":"ECDH-ES","x":"AA","y":"AA""#, r#","key_ops":["deriveKey"]"#, r#","x5c":["AA"],"kty":"OKP","crv":"X25519""#, r#","epk":{"use":"enc","alg":"ECDH-ES"},"enc":"A128GCM""#]);
        let (u, a) = (pick(&["", r#","use":"enc""#, r#","use":"sig""#]), pick(&["", r#","alg":"ECDH-ES""#, r#","alg":"RSA-OAEP""#]));
        let cm = format!(r#"{{"jwks":{{"keys":[{{"kty":"EC"{u}{a}{k}}}]}}{}}}"#, pick(&["", r#","vp_formats_supported":{"mso_mdoc":{}}"#, r#","jwks_uri":"https://v/jwks","authorization_encrypted_response_alg":"ECDH-ES","authorization_encrypted_response_enc":"A256GCM""#]));
        let rest = pick(&["", r#","state":"s","scope":"openid""#, r#","iss":"c","aud":"https://self-issued.me/v2","exp":2"#, r#","expected_origins":["https://v"],"wallet_nonce":"w""#]);
        let w = pick(&[r#""authorization_encryption_alg_values_supported":["ECDH-ES"]"#, r#""authorization_encryption_alg_values_supported":["ECDH-ES"],"authorization_encryption_enc_values_supported":["A128GCM"],"jwks":{"keys":[]}"#]);
        judge(run_with(mode(), Some(&cm), w, rest), u.ends_with("enc\"") && a.ends_with("ES\""));
    }
    // missing or unreadable means: refused for encrypted modes, irrelevant for the others
    c05_missing {
        let good = jwk(&Some("enc".into()), &Some("E".into()));
        let cm = match choose(9) {
            0 => None,
            1 => Some("{}".to_string()),
            2 => Some(r#"{"jwks":{}}"#.into()),
            3 => Some(r#"{"jwks":{"keys":[]}}"#.into()),
            4 => Some(format!(r#"{{"jwks":{{"keys":{good}}}}}"#)),
            5 => Some(format!(r#"{{"jwks":[{good}]}}"#)),
            6 => Some(format!(r#"{{"jwks":{{"keys":[{good},"x"]}}}}"#)),
            7 => Some(r#"{"jwks":{"keys":[{"use":"enc","alg":7}]}}"#.into()),
            _ => Some(r#"{"jwks":{"keys":[{"use":["enc"],"alg":"E"}]}}"#.into()),
        };
        let m = pick(&["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt", ""]);
        // what stands elsewhere does not stand in
        let rest = if flag() { format!(r#","jwks":{{"keys":[{good}]}},"keys":[{good}],"jwks_uri":"https://v/k","clientMetadata":{{"jwks":{{"keys":[{good}]}}}},"encrypted_response_enc_values_supported":["A128GCM"]"#) } else { String::new() };
        let ok = run_with(m, cm.as_deref(), "", &rest);
        judge(ok, !m.ends_with(".jwt"));
    }
    // wallet or verifier lists that cannot be read
    c05_unreadable {
        let good = jwk(&Some("enc".into()), &Some("E".into()));
        let bad = pick(&["\"E\"", "null", "[7]", "{\"E\":1}"]);
        let ok = match choose(3) {
            0 => run(mode(), Some(&format!(r#"{{"jwks":{{"keys":[{good}]}}}}"#)), &format!(r#""authorization_encryption_alg_values_supported":{bad}"#)),
            1 => run(mode(), Some(&format!(r#"{{"jwks":{{"keys":[{good}]}}}}"#)), &format!(r#""authorization_encryption_enc_values_supported":{bad}"#)),
            _ => run(mode(), Some(&format!(r#"{{"jwks":{{"keys":[{good}]}},"encrypted_response_enc_values_supported":{bad}}}"#)), ""),
        };
        judge(ok, false);
    }
}
