//! Encrypted responses: what is encrypted, to which key, under which header.
use crate::fx::*;
use crate::jose::{Made, MADE, NEXT};
use crate::jwe::{build_encrypted_response, find_encryption_jwk, JweBuilder};
use crate::vsym::*;
use openid4vp::core::authorization_request::parameters::State;
use openid4vp::core::authorization_request::AuthorizationRequestObject;
use openid4vp::core::response::parameters::{VpToken, VpTokenItem};
use openid4vp::core::response::AuthorizationResponse;
use serde_json::{Map, Value};

fn request(md: &str) -> AuthorizationRequestObject {
    obj(&format!(r#"{{"client_id":"c","nonce":"n","response_type":"vp_token","response_mode":"direct_post.jwt","response_uri":"https://v.example/r","dcql_query":{{"credentials":[{{"id":"q","format":"mso_mdoc","meta":{{}}}}]}}{md}}}"#)).try_into().unwrap()
}
/// The key of the verifier, whether a response may be encrypted to it, its identifier and its coordinate.
struct Key { text: String, usable: bool, kid: Option<String>, x: String }
fn key(simple: bool) -> Key {
    let x = string(2, "abc");
    let (crv, u, a, usable) = pick(&[
        (r#","crv":"P-256""#, r#","use":"enc""#, r#","alg":"ECDH-ES""#, true), (r#","crv":"P-256""#, "", r#","alg":"ECDH-ES""#, true),
        (r#","crv":"P-384""#, r#","use":"enc""#, r#","alg":"ECDH-ES""#, false), ("", "", r#","alg":"ECDH-ES""#, false),
        (r#","crv":"P-256""#, r#","use":"sig""#, r#","alg":"ECDH-ES""#, false), (r#","crv":"P-256""#, r#","use":"enc""#, "", false), (r#","crv":"P-256""#, "", r#","alg":"ECDH-ES+A128KW""#, false),
    ]);
    let kid = if simple || flag() { None } else { Some(string(2, "k1_")) };
    let k = kid.as_ref().map_or(String::new(), |k| format!(r#","kid":"{k}""#));
    Key { text: format!(r#"{{"kty":"EC"{crv},"x":"{x}","y":"y"{u}{a}{k}}}"#), usable, kid, x }
}
fn made() -> Vec<Made> { MADE.0.borrow().clone() }
fn reset(t: Option<String>) { MADE.0.borrow_mut().clear(); *NEXT.0.borrow_mut() = t; }
fn is(m: &Map<String, Value>, k: &str, v: Option<&str>) -> bool { match (m.get(k), v) { (Some(Value::String(a)), Some(b)) => eq(a, b), (None, None) => true, _ => false } }
fn map(t: &str) -> Map<String, Value> { match json(t) { Value::Object(m) => m, _ => unreachable!() } }
/// Whether a key has exactly the members its text has.
fn same_key(m: &Map<String, Value>, k: &Key) -> bool { let t = map(&k.text); m.len() == t.len() && t.iter().all(|(n, v)| m.get(n).map_or(false, |x| eq(x.as_str().unwrap(), v.as_str().unwrap()))) }
crate::entries! {
    c24_response {
        let n = choose(bound(3, 4));
        let ks: Vec<Key> = (0..n).map(|i| key(i + 1 < n)).collect();
        let first = ks.iter().find(|k| k.usable);
        let enc = match choose(4) { 0 => None, 1 => Some(vec![]), 2 => Some(vec![string(3, "AG1")]), _ => Some(vec![string(3, "AG1"), "A128GCM".to_string()]) };
        let e = enc.as_ref().map_or(String::new(), |l| format!(r#","encrypted_response_enc_values_supported":[{}]"#, l.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(",")));
        let r = request(&format!(r#","client_metadata":{{"vp_formats_supported":{{}}{e},"jwks":{{"keys":[{}]}}}}"#, ks.iter().map(|k| k.text.clone()).collect::<Vec<_>>().join(",")));
        let cred = string(2, "abc");
        let t = VpToken::with_credential("q", vec![VpTokenItem::String(cred.clone())]);
        let state = if flag() { Some(string(2, "st\"\\")) } else { None };
        let out = string(2, "abc");
        let works = n == 0 || flag();
        reset(if works { Some(out.clone()) } else { None });
        let res = build_encrypted_response(&r, &t, state.as_ref().map(|s| State(s.clone())).as_ref());
        let m = made();
        match (res, first) {
            (Ok(AuthorizationResponse::Jwt(j)), Some(k)) => {
                cover("encrypted");
                check(works && eq(&j.response, &out), "the response is not what the encryption yielded");
                check(m.len() == 1, "the response is not encrypted exactly once");
                let m = &m[0];
                check(same_key(&m.key, k), "the response is encrypted to another key than the verifier's first usable one");
                let want = enc.as_ref().and_then(|l| l.first()).map_or("A128GCM", |s| s.as_str());
                check(is(&m.header, "alg", Some("ECDH-ES")) & is(&m.header, "enc", Some(want)) & is(&m.header, "kid", k.kid.as_deref()), "the header names another algorithm, encryption or key than the verifier asked for");
                check(m.payload.len() == 1 + state.is_some() as usize, "something else than the presentation and state is encrypted, or less");
                check(is(&m.payload, "state", state.as_deref()), "another state is encrypted");
                check(match m.payload.get("vp_token") { Some(Value::Object(t)) => t.len() == 1 && match t.get("q") { Some(Value::Array(l)) => l.len() == 1 && l[0].as_str().map_or(false, |c| eq(c, &cred)), _ => false }, _ => false }, "another presentation is encrypted");
            }
            (Ok(_), _) => check(false, "a response is made without a usable key, or is not encrypted"),
            (Err(_), Some(_)) => { cover("encryption fails"); check(!works, "a response that can be encrypted is not"); }
            (Err(_), None) => { cover("no usable key"); check(m.is_empty(), "something is encrypted without a usable key"); }
        }
    }
    c24_find {
        let n = choose(bound(3, 4));
        let ks: Vec<Key> = (0..n).map(|_| key(false)).collect();
        let ms: Vec<_> = ks.iter().map(|k| map(&k.text)).collect();
        match (find_encryption_jwk(ms.iter()), ks.iter().find(|k| k.usable)) {
            (Ok(f), Some(k)) => { cover("found"); check(f.alg == "ECDH-ES" && same_key(&f.jwk.map, k), "another key is chosen than the first usable one"); check(match (&f.kid, &k.kid) { (Some(a), Some(b)) => eq(a, b), (None, None) => true, _ => false }, "the key is named otherwise than the verifier names it"); }
            (Err(_), None) => cover("none"),
            (Ok(_), None) => check(false, "a key is chosen that may not be used"),
            (Err(_), Some(_)) => check(false, "a usable key is not found"),
        }
    }
    // texts that almost name the algorithm, curve or use
    c24_near {
        let (a, c, u) = match choose(5) { 4 => { let t = any(); match choose(3) { 0 => (t, "P-256".into(), "enc".into()), 1 => ("ECDH-ES".into(), t, "enc".into()), _ => ("ECDH-ES".into(), "P-256".into(), t) } }, 3 => match choose(3) { 0 => (String::new(), "P-256".into(), "enc".into()), 1 => ("ECDH-ES".into(), String::new(), "enc".into()), _ => ("ECDH-ES".into(), "P-256".into(), String::new()) }, 0 => (if flag() { string(7, "ECDHS-ecdhs") } else { near("ECDH-ES") }, "P-256".to_string(), "enc".to_string()), 1 => ("ECDH-ES".into(), if flag() { string(5, "P-256p48") } else { near("P-256") }, "enc".into()), _ => ("ECDH-ES".into(), "P-256".into(), if flag() { string(3, "encsigE") } else { near("enc") }) };
        let m = map(&format!(r#"{{"kty":"EC","crv":"{c}","x":"x","y":"y","use":"{u}","alg":"{a}"}}"#));
        let good = eq(&a, "ECDH-ES") & eq(&c, "P-256") & eq(&u, "enc");
        match find_encryption_jwk([&m].into_iter()) { Ok(_) => { cover("found"); check(good, "a key is chosen that may not be used") } Err(_) => { cover("none"); check(!good, "a usable key is not found") } }
    }
    // no client metadata, or unreadable
    c24_unreadable {
        let md = pick(&["", r#","client_metadata":{"vp_formats_supported":{}}"#, r#","client_metadata":{"vp_formats_supported":{},"jwks":{"keys":"K"}}"#, r#","client_metadata":{"vp_formats_supported":{},"jwks":[]}"#, r#","client_metadata":7"#,
            r#","client_metadata":{"vp_formats_supported":{},"encrypted_response_enc_values_supported":"K","jwks":{"keys":[{"kty":"EC","crv":"P-256","x":"K","y":"b","use":"enc","alg":"ECDH-ES"}]}}"#,
            r#","jwks":{"keys":[{"kty":"EC","crv":"P-256","x":"K","y":"b","use":"enc","alg":"ECDH-ES"}]}"#]).replace('K', &string(1, "ab"));
        reset(Some("x".into()));
        cover("unreadable");
        check(build_encrypted_response(&request(&md), &VpToken::with_credential("q", vec![VpTokenItem::String("c".into())]), None).is_err() && made().is_empty(), "something is encrypted to a key from nowhere");
    }
    c24_builder {
        let k = key(false);
        let v = string(2, "abc");
        let payload = match choose(5) { 0 => None, 1 => Some(json(&format!(r#"{{"a":"{v}","b":[1]}}"#))), 4 => Some(json(r#"{"iat":1,"exp":null,"x":{"y":null},"":""}"#)), 2 => Some(json("{}")), _ => Some(json(&format!("[\"{v}\"]"))) };
        let alg = match choose(3) { 0 => None, 1 => Some("ECDH-ES".to_string()), _ => Some(string(7, "ECDH-S")) };
        let (enc, kid) = (if flag() { Some(string(2, "AG")) } else { None }, if flag() { Some(string(2, "xy")) } else { None });
        let how = choose(3);
        let mut b = JweBuilder::new();
        if let Some(p) = &payload { b = b.payload(p.clone()); }
        if let Some(a) = &alg { b = b.alg(a.as_str()); }
        if let Some(x) = &enc { b = b.enc(x.as_str()); }
        if let Some(x) = &kid { b = b.kid(x.as_str()); }
        match how { 0 => (), 1 => b = b.recipient_key_json(&json(&k.text)).unwrap(), _ => b = b.recipient_key(crate::jose::jwk::Jwk { map: map(&k.text) }) }
        reset(Some("out".into()));
        let r = b.build();
        let m = made();
        let good = how > 0 && matches!(payload, Some(Value::Object(_)));
        let named = alg.as_ref().map_or(false, |a| eq(a, "ECDH-ES"));
        match r {
            Ok(t) => {
                cover("built");
                check(good & named && t == "out" && m.len() == 1, "something is encrypted that was not completely given");
                let m = &m[0];
                check(same_key(&m.key, &k), "another key is used than the one given");
                check(is(&m.header, "alg", Some("ECDH-ES")) & is(&m.header, "enc", Some(enc.as_deref().unwrap_or("A128GCM"))) & is(&m.header, "kid", kid.as_deref().or(k.kid.as_deref())) && is(&m.header, "typ", Some("JWT")), "another header is used than the one given");
                check(payload.as_ref().map_or(false, |p| match p { Value::Object(p) => p.len() == m.payload.len() && (p.is_empty() || (p.contains_key("iat") && p == &m.payload) || (is(&m.payload, "a", Some(&v)) && m.payload.get("b") == Some(&json("[1]")))), _ => false }), "another payload is encrypted than the one given");
            }
            Err(_) => { cover("not built"); check(!(good & named), "a complete response is not encrypted"); check(m.is_empty(), "something is encrypted that was not completely given"); }
        }
    }
    // whatever is given last counts
    c24_again {
        let (v, e, d) = (string(2, "abc"), string(2, "AG"), string(2, "xy"));
        let (k1, k2) = (r#"{"kty":"EC","crv":"P-256","x":"x1","y":"y1","kid":"one"}"#, r#"{"kty":"EC","crv":"P-256","x":"x2","y":"y2"}"#);
        let which = choose(6);
        let twice = |i| which == i || which == 5;
        let mut b = JweBuilder::new();
        if twice(0) { b = b.payload(json(pick(&[r#"{"a":"first","z":1}"#, r#"{}"#, "[]", "null"]))); }
        if twice(1) { b = b.alg(pick(&["ECDH-ES", "RSA-OAEP", ""])); }
        if twice(2) { b = b.enc(pick(&["A256GCM", ""])); }
        if twice(3) { b = b.kid(pick(&["zz", ""])); }
        if twice(4) { b = if flag() { b.recipient_key_json(&json(k1)).unwrap() } else { b.recipient_key(crate::jose::jwk::Jwk { map: map(k1) }) }; }
        b = b.payload(json(&format!(r#"{{"a":"{v}"}}"#))).alg("ECDH-ES").enc(e.as_str()).kid(d.as_str());
        b = if flag() { b.recipient_key_json(&json(k2)).unwrap() } else { b.recipient_key(crate::jose::jwk::Jwk { map: map(k2) }) };
        reset(Some("out".into()));
        let r = b.build();
        outcome(&r);
        let m = made();
        cover("given again");
        check(matches!(r, Ok(t) if t == "out") && m.len() == 1, "a complete response is not encrypted");
        check(m[0].payload.len() == 1 && is(&m[0].payload, "a", Some(&v)), "another payload is encrypted than the one given");
        check(is(&m[0].header, "alg", Some("ECDH-ES")) & is(&m[0].header, "enc", Some(&e)) & is(&m[0].header, "kid", Some(&d)), "another header is used than the one given");
        check(Value::Object(m[0].key.clone()) == json(k2), "another key is used than the one given");
    }
    // everything the wallet presents, and everything the verifier says of its key
    c24_full {
        let (kid, state) = (pick(&["", " k ", "0123456789abcdef0123456789abcdef0123456789abcdef"]), match choose(5) { 0 => None, 1 => Some(String::new()), 2 => Some(filler(bound(300, 3000))), 3 => Some(string(1, IDCHARS)), _ => Some(beyond()) });
        let c = if flag() { string(1, IDCHARS) } else { beyond() };
        let enc = match choose(4) { 0 => near_tail("A128GCM"), 1 => "A256GCM".to_string(), _ => string(1, IDCHARS) };
        let key = format!(r#"{{"kty":"EC","crv":"P-256","x":"X","y":"Y","use":"enc","alg":"ECDH-ES","kid":"{kid}","x5c":["AA",""],"key_ops":["deriveKey"],"n":[null,7]}}"#);
        let r = request(&format!(r#","client_metadata":{{"vp_formats_supported":{{}},"encrypted_response_enc_values_supported":["{enc}","A128GCM","A256GCM"],"jwks":{{"keys":[{{"kty":"EC","crv":"P-256","x":"0","y":"Y","use":"sig","alg":"ES256"}},{key},{{"kty":"EC","crv":"P-256","x":"2","y":"Y","use":"enc","alg":"ECDH-ES"}}]}}}}"#));
        let token = format!(r#"{{"":[],"a":["{c}","{c}",{{"x":null,"y":"{c}"}}],"b":[{{}}],"q":["z"]}}"#);
        let t: VpToken = serde_json::from_str(&token).unwrap();
        reset(Some("out".into()));
        let res = build_encrypted_response(&r, &t, state.as_ref().map(|s| State(s.clone())).as_ref());
        let m = made();
        cover("full");
        check(res.is_ok() && m.len() == 1, "a response that can be encrypted is not");
        let m = &m[0];
        check(m.key == map(&key), "the response is encrypted to another key than the verifier's first usable one");
        check(is(&m.header, "alg", Some("ECDH-ES")) & is(&m.header, "enc", Some(&enc)) & is(&m.header, "kid", Some(kid)), "the header names another algorithm, encryption or key than the verifier asked for");
        let want = match &state { None => format!(r#"{{"vp_token":{token}}}"#), Some(s) => format!(r#"{{"state":"{s}","vp_token":{token}}}"#) };
        check(eq(Value::Object(m.payload.clone()).to_string(), json(&want).to_string()), "something else than the presentation and state is encrypted, or less");
    }
    // many keys, one of which is usable
    c24_many {
        let n = bound(9, 40);
        let at = choose(n + 1);
        let other = pick(&[r#""use":"sig","alg":"ES256""#, r#""use":"sig","alg":"ECDH-ES""#, r#""use":"enc","alg":"ECDH-ES+A128KW""#, r#""use":"enc""#]);
        let ks: Vec<String> = (0..n).map(|i| format!(r#"{{"kty":"EC","crv":"P-256","x":"x{i}","y":"y",{}}}"#, if i == at { r#""use":"enc","alg":"ECDH-ES""# } else { other })).collect();
        let maps: Vec<_> = ks.iter().map(|k| map(k)).collect();
        cover("many");
        check(match find_encryption_jwk(maps.iter()) { Ok(k) => at < n && k.jwk.map == maps[at], Err(_) => at == n }, "another key is chosen than the one usable");
        let r = request(&format!(r#","client_metadata":{{"vp_formats_supported":{{}},"jwks":{{"keys":[{}]}}}}"#, ks.join(",")));
        reset(Some("out".into()));
        let res = build_encrypted_response(&r, &VpToken::with_credential("q", vec![VpTokenItem::String("c".into())]), None);
        let m = made();
        check(if at < n { res.is_ok() && m.len() == 1 && m[0].key == maps[at] } else { res.is_err() && m.is_empty() }, "the response is encrypted to another key than the one usable");
    }
}
