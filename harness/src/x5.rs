//! What the two certificate-based verifications have in common.
use crate::fixtures::*;
use crate::fx::*;
use crate::vsym::*;
use anyhow::{bail, Result};
use openid4vp::core::authorization_request::verification::verifier::Verifier;
use openid4vp::core::authorization_request::AuthorizationRequestObject;
use openid4vp::core::metadata::WalletMetadata;
use x509_cert::der::Encode;
use x509_cert::Certificate;

#[derive(Default, Clone)]
pub struct Seen { pub spki: Vec<Vec<u8>>, pub alg: Vec<String>, pub msgs: Vec<(Vec<u8>, Vec<u8>)>, pub key_ok: bool, pub sig_ok: bool }
pub static SEEN: Cellx<Option<Seen>> = Cellx(std::cell::RefCell::new(None));
/// Records the key, the algorithm, the message and the signature; answers as told.
pub struct Rec;
impl Verifier for Rec {
    fn from_spki(spki: x509_cert::spki::SubjectPublicKeyInfoRef<'_>, algorithm: String) -> Result<Self> {
        let mut s = SEEN.0.borrow_mut();
        let s = s.as_mut().unwrap();
        s.spki.push(spki.to_der()?);
        s.alg.push(algorithm);
        if s.key_ok { Ok(Rec) } else { bail!("no such key") }
    }
    fn verify(&self, payload: &[u8], signature: &[u8]) -> Result<()> {
        let mut s = SEEN.0.borrow_mut();
        let s = s.as_mut().unwrap();
        s.msgs.push((payload.to_vec(), signature.to_vec()));
        if s.sig_ok { Ok(()) } else { bail!("bad signature") }
    }
}
pub type Validate = fn(&WalletMetadata, &AuthorizationRequestObject, String, Option<&[Certificate]>) -> Result<()>;
pub const ALGS: &str = r#""request_object_signing_alg_values_supported":["EdDSA","ES256"]"#;
pub fn aro(client: Option<&str>) -> AuthorizationRequestObject {
    let c = client.map_or(String::new(), |c| format!(r#","client_id":"{c}""#));
    obj(&format!(r#"{{"nonce":"n","response_mode":"direct_post","response_type":"vp_token","response_uri":"https://v/r"{c}}}"#)).try_into().unwrap()
}
pub fn run(v: Validate, md: &str, client: Option<&str>, jwt: &str, key_ok: bool, sig_ok: bool) -> (bool, Seen) {
    *SEEN.0.borrow_mut() = Some(Seen { key_ok, sig_ok, ..Default::default() });
    let roots: Vec<Certificate> = vec![];
    let r = v(&metadata(md), &aro(client), jwt.to_string(), if sig_ok { None } else { Some(&roots) });
    outcome(&r);
    let s = SEEN.0.borrow_mut().take().unwrap();
    (r.is_ok(), s)
}
pub fn header(alg: &str, certs: &[&[u8]]) -> String {
    let l: Vec<String> = certs.iter().map(|c| format!("\"{}\"", b64std(c))).collect();
    format!(r#"{{"alg":"{alg}","typ":"oauth-authz-req+jwt","x5c":[{}]}}"#, l.join(","))
}
pub fn judge(ok: bool, want: bool, m: &str) {
    cover(if want { "accepted" } else { "rejected" });
    check(ok == want, if want { "a request that meets every condition was rejected" } else { m });
}
/// The key, the algorithm, the message and the signature the token was checked with are the token's own.
pub fn verifier(v: Validate, id: &str, leaf: &[u8], spki: &str, other: &[u8]) {
    let (key_ok, sig_ok) = (flag(), flag());
    let sig = bytes(pick(&[0, 1, 2, 4]), &[]);
    let body = format!(r#"{{"a":"{}"}}"#, string(2, "abc"));
    let alg = pick(&["ES256", "EdDSA"]);
    let chain: Vec<&[u8]> = match choose(3) { 0 => vec![leaf], 1 => vec![leaf, other], _ => vec![leaf, other, leaf] };
    // the signed part is what is between the dots, whatever it encodes
    let t = if chain.len() == 1 { format!("{}.{}.{}", b64url(header(alg, &chain)), string(3, "aZ=-_+/ ~"), b64url(&sig)) } else { jwt(&header(alg, &chain), &body, &b64url(&sig)) };
    let (ok, s) = run(v, ALGS, Some(id), &t, key_ok, sig_ok);
    judge(ok, key_ok && sig_ok, "a request was accepted although its signature does not verify");
    check(s.spki.len() == 1 && s.spki[0] == unhex(spki), "the signature was not checked with the leaf certificate's key");
    check(s.alg.len() == 1 && s.alg[0] == alg, "the signature was not checked with the token's algorithm");
    if key_ok {
        let signed = &t[..t.rfind('.').unwrap()];
        check(s.msgs.len() == 1 && eq(&s.msgs[0].0, signed) && eq(&s.msgs[0].1, &sig), "something else than the token's signed part and signature was checked");
    } else { check(s.msgs.is_empty(), "a signature was checked without a key"); }
}
/// Only the leaf counts.
pub fn chain(v: Validate, id: &str, leaf: &[u8], other: &[u8]) {
    let (c, want): (Vec<&[u8]>, bool) = match choose(6) { 0 => (vec![leaf], true), 1 => (vec![leaf, other], true), 2 => (vec![other, leaf], false), 3 => (vec![other, other, leaf], false), 4 => (vec![leaf, other, other, leaf, other], true), _ => (vec![other], false) };
    let (ok, s) = run(v, ALGS, Some(id), &jwt(&header("ES256", &c), "{}", "c2ln"), true, true);
    judge(ok, want, "a request was accepted on the strength of a certificate that is not the leaf");
    check(want || s.msgs.is_empty(), "a signature was checked for a certificate that is not the client's");
}
/// The wallet's signing algorithms.
pub fn algs(v: Validate, id: &str, leaf: &[u8]) {
    let k = choose(bound(3, 4));
    let mut l = vec![];
    for _ in 0..k { l.push(string(pick(&[4, 5, 6]), IDCHARS)); }
    let a = string(5, IDCHARS);
    if k == 0 && flag() { for x in ["ES384", "PS256", "RS256", "ES512", "ES256K"] { l.push(x.into()); } l.push(near("ES256")); for x in ["*", "", "any", "all", "ES*", "none"] { l.push(x.into()); } }
    let q: Vec<String> = l.iter().map(|s| format!("\"{s}\"")).collect();
    let (ok, s) = run(v, &format!(r#""request_object_signing_alg_values_supported":[{}]"#, q.join(",")), Some(id), &jwt(&header(&a, &[leaf]), "{}", "c2ln"), true, true);
    let want = l.iter().any(|x| x.as_bytes() == a.as_bytes());
    judge(ok, want, "a request signed with an algorithm the wallet does not list was accepted");
    check(s.msgs.len() == want as usize, "the signature was checked for an algorithm the wallet does not list");
    if want { check(s.alg.len() == 1 && eq(&s.alg[0], &a), "the signature was checked with another algorithm"); }
}
/// Any text in one place.
pub fn anything(v: Validate, id: &str, leaf: &[u8]) {
    let a = any();
    let pre = &id[..id.find(':').unwrap() + 1];
    match choose(4) {
        0 => { let p = if flag() { "" } else { pre }; let c = format!("{p}{a}"); let want = eq(&c, id) | eq(&c, &id[pre.len()..]) | (pre == "x509_san_dns:" && eq(&a, "bbbbbbbb")) | eq(&c, "x509_san_dns:bbbbbbbb") & (pre == "x509_san_dns:"); let (ok, s) = run(v, ALGS, Some(&c), &jwt(&header("ES256", &[leaf]), "{}", "c2ln"), true, true); judge(ok, want, "a request was accepted for a client the certificate does not name"); check(want || s.msgs.is_empty(), "a signature was checked for a client the certificate does not name"); }
        1 => { let (ok, s) = run(v, ALGS, Some(id), &jwt(&header(&a, &[leaf]), "{}", "c2ln"), true, true); let want = eq(&a, "ES256") | eq(&a, "EdDSA"); judge(ok, want, "a request signed with an algorithm the wallet does not list was accepted"); check(want || s.msgs.is_empty(), "the signature was checked for an algorithm the wallet does not list"); }
        2 => { let (ok, _) = run(v, &format!(r#""request_object_signing_alg_values_supported":["{a}"]"#), Some(id), &jwt(&header("ES256", &[leaf]), "{}", "c2ln"), true, true); judge(ok, eq(&a, "ES256"), "a request signed with an algorithm the wallet does not list was accepted"); }
        // whatever the algorithm is called, the signature has to verify
        _ => { let (ok, s) = run(v, &format!(r#""request_object_signing_alg_values_supported":["{a}"]"#), Some(id), &jwt(&header(&a, &[leaf]), "{}", "c2ln"), true, false); judge(ok, false, "a request was accepted although its signature does not verify"); check(s.msgs.len() == 1 && s.alg.len() == 1 && eq(&s.alg[0], &a), "the signature was not checked with the token's algorithm"); }
    }
}
/// What was decided before does not matter.
pub fn again(v: Validate, id: &str, leaf: &[u8], other: &[u8]) {
    let (a, b) = (choose(6), choose(6));
    for k in [a, b, a] {
        let c = if k == 3 { format!("{id}x") } else { id.to_string() };
        let (ok, s) = run(v, if k == 4 { r#""request_object_signing_alg_values_supported":["RS256"]"# } else { ALGS }, Some(&c), &jwt(&header("ES256", &[if k == 5 { other } else { leaf }]), if k == 0 { "{}" } else { r#"{"a":1}"# }, "c2ln"), k != 1, k != 2);
        judge(ok, k == 0, "a request was accepted because another one was");
        check(k != 0 || s.msgs.len() == 1, "the signature of a request was not checked because that of another one was");
    }
}
/// Headers, metadata, clients and signatures that cannot be read.
pub fn malformed(v: Validate, id: &str, leaf: &[u8]) {
    let c = b64std(leaf);
    let good = header("ES256", &[leaf]);
    let (h, md, client, sig) = match choose(26) {
        0 => (r#"{"alg":"ES256"}"#.to_string(), ALGS, Some(id), "c2ln"),
        1 => (r#"{"alg":"ES256","x5c":[]}"#.into(), ALGS, Some(id), "c2ln"),
        2 => (format!(r#"{{"alg":"ES256","x5c":"{c}"}}"#), ALGS, Some(id), "c2ln"),
        3 => (format!(r#"{{"alg":"ES256","x5c":[["{c}"]]}}"#), ALGS, Some(id), "c2ln"),
        4 => (format!(r#"{{"alg":"ES256","x5c":[null,"{c}"]}}"#), ALGS, Some(id), "c2ln"),
        5 => (format!(r#"{{"alg":"ES256","x5c":["*{c}"]}}"#), ALGS, Some(id), "c2ln"),
        6 => (format!(r#"{{"alg":"ES256","x5c":["{}"]}}"#, b64std(&leaf[..leaf.len() - 1])), ALGS, Some(id), "c2ln"),
        7 => (r#"{"alg":"ES256","x5c":[""]}"#.into(), ALGS, Some(id), "c2ln"),
        8 => (format!(r#"{{"x5c":["{c}"]}}"#), ALGS, Some(id), "c2ln"),
        9 => (format!(r#"{{"alg":["ES256"],"x5c":["{c}"]}}"#), ALGS, Some(id), "c2ln"),
        10 => (good, "", Some(id), "c2ln"),
        11 => (good, r#""request_object_signing_alg_values_supported":"ES256""#, Some(id), "c2ln"),
        12 => (good, r#""request_object_signing_alg_values_supported":null"#, Some(id), "c2ln"),
        13 => (good, ALGS, None, "c2ln"),
        14 => (good, ALGS, Some(id), "c2l*"),
        15 => (good, ALGS, Some(id), "c2ln.c2ln"),
        16 => (format!(r#"["alg","ES256","x5c","{c}"]"#), ALGS, Some(id), "c2ln"),
        17 => (good, ALGS, Some(id), "c"),
        18 => (good, ALGS, Some(id), "c2k="),
        19 => (good, ALGS, Some(id), "c2 n"),
        20 => (good, ALGS, Some(id), "+/8"),
        21 => (format!(r#"{{"alg":"ES256","x5c":["{}\n{}"]}}"#, &c[..64], &c[64..]), ALGS, Some(id), "c2ln"),
        // not the encoding of certificates in a header
        22 => (format!(r#"{{"alg":"ES256","x5c":["{}"]}}"#, { let u = c.replace('+', "-").replace('/', "_"); check(u != c, "the fixture says nothing"); u }), ALGS, Some(id), "c2ln"),
        23 => (format!(r#"{{"alg":"ES256","x5c":["-----BEGIN CERTIFICATE-----{c}-----END CERTIFICATE-----"]}}"#), ALGS, Some(id), "c2ln"),
        24 => (format!(r#"{{"alg":"ES256","x5c":[" {c} "]}}"#), ALGS, Some(id), "c2ln"),
        _ => (format!(r#"{{"alg":"ES256","X5C":["{c}"],"x5t":["{c}"]}}"#), ALGS, Some(id), "c2ln"),
    };
    let (ok, s) = run(v, md, client, &jwt(&h, "{}", sig), true, true);
    cover("malformed");
    check(!ok && s.msgs.is_empty(), "a request whose certificate, algorithm, client or signature cannot be read was accepted");
}
/// The real P-256 verifier on a real token.
pub fn p256(v: Validate, id: &str, token: &str) {
    let parts: Vec<&str> = token.split('.').collect();
    let sig = unb64(parts[2]);
    let (t, want) = match choose(9) {
        0 => (token.to_string(), true),
        6 if id.starts_with("x509_san") => (SAN_TOKEN_BOTH.to_string(), true),
        7 if id.starts_with("x509_san") => (SAN_TOKEN_OTHER.to_string(), false),
        8 if id.starts_with("x509_san") => (SAN_TOKEN_JWK.to_string(), false),
        1 => { let mut s = sig.clone(); let i = if thorough() { choose(64) } else { pick(&[0, 31, 32, 63]) }; s[i] ^= 1; (format!("{}.{}.{}", parts[0], parts[1], b64url(&s)), false) }
        2 => (format!("{}.{}.{}", parts[0], b64url("{}"), parts[2]), false),
        3 => (format!("{}.{}.{}", b64url(header("ES256", &[CERT_C, CERT_B])), parts[1], parts[2]), false),
        4 => (format!("{}.{}.{}", parts[0], parts[1], b64url(&sig[..choose(2) * 63])), false),
        _ => (format!("{}.{}.{}", parts[0], parts[1], b64url([0u8; 64])), false),
    };
    let (ok, _) = run(v, ALGS, Some(id), &t, true, true);
    judge(ok, want, "a request whose signature does not verify under the certificate's key was accepted");
}
/// The P-256 verifier serves ES256 only.
pub fn p256_alg(v: Validate, id: &str) {
    let a = string(pick(&[4, 5, 6]), IDCHARS);
    let es = eq(&a, "ES256");
    let (ok, _) = run(v, &format!(r#""request_object_signing_alg_values_supported":["{a}"]"#), Some(id), &jwt(&header(&a, &[CERT_C]), "{}", "AAAA"), true, true);
    cover(if es { "ES256" } else { "another algorithm" });
    check(!ok, "a request with a bogus signature was accepted");
    let spki = unhex(K1_SPKI);
    use openid4vp::core::authorization_request::verification::verifier::P256Verifier;
    use x509_cert::der::Decode;
    let r = P256Verifier::from_spki(x509_cert::spki::SubjectPublicKeyInfoRef::from_der(&spki).unwrap(), a.clone());
    check(r.is_ok() == es, "the P-256 verifier serves another algorithm than ES256, or refuses it");
}
