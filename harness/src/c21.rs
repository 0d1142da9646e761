//! The thumbprint bound into a handover is that of the key the response is encrypted to.
use crate::fx::*;
use crate::jwe::find_encryption_jwk;
use crate::vsym::*;
use openid4vp::core::authorization_request::AuthorizationRequestObject;
use openid4vp::core::iso_18013_7::{compute_jwk_thumbprint, get_encryption_jwk_thumbprint};
use serde_json::Value;

/// A key of the verifier: kind, use and algorithm vary, the coordinates tell keys apart.
pub fn key(i: usize) -> String {
    let x = string(2, "abc");
    let (kty, crv) = pick(if thorough() { &[("EC", "P-256"), ("EC", "P-384"), ("OKP", "X25519"), ("RSA", "")] } else { &[("EC", "P-256"), ("EC", "P-384"), ("OKP", "X25519")] });
    let u = pick(&["", r#","use":"enc""#, r#","use":"sig""#]);
    let a = pick(&["", r#","alg":"ECDH-ES""#, r#","alg":"ES256""#]);
    if kty == "RSA" { format!(r#"{{"kty":"RSA","n":"{x}{i}","e":"AQAB"{u}{a}}}"#) } else { format!(r#"{{"kty":"{kty}","crv":"{crv}","x":"{x}{i}","y":"y"{u}{a}}}"#) }
}
pub fn request(md: &str) -> AuthorizationRequestObject {
    obj(&format!(r#"{{"client_id":"c","nonce":"n","response_type":"vp_token","response_mode":"direct_post.jwt","response_uri":"https://v.example/r","dcql_query":{{"credentials":[{{"id":"q","format":"mso_mdoc","meta":{{}}}}]}}{md}}}"#)).try_into().unwrap()
}
crate::entries! {
    // whenever a response can be encrypted, the thumbprint is that of the key it is encrypted to
    c21_agree {
        let n = choose(bound(3, 4));
        let ks: Vec<String> = (0..n).map(key).collect();
        let r = request(&format!(r#","client_metadata":{{"vp_formats_supported":{{}},"jwks":{{"keys":[{}]}}}}"#, ks.join(",")));
        let maps: Vec<_> = ks.iter().map(|k| match json(k) { Value::Object(m) => m, _ => unreachable!() }).collect();
        let found = find_encryption_jwk(maps.iter());
        let t = get_encryption_jwk_thumbprint(&r);
        match found {
            Ok(k) => { cover("encrypted"); let want = compute_jwk_thumbprint(&serde_json::to_value(&k.jwk).unwrap()); check(match (t, want) { (Some(t), Ok(w)) => eq(t, w), _ => false }, "the handover binds another key than the response is encrypted to"); }
            Err(_) => {
                cover("no usable key");
                // then it is none, or that of a key the verifier offers and does not reserve for signatures
                check(match t { None => true, Some(t) => maps.iter().fold(false, |a, m| a | (m.get("use").map_or(true, |u| u == "enc") & compute_jwk_thumbprint(&Value::Object(m.clone())).map_or(false, |w| eq(w, t)))) }, "the handover binds a key that is not offered for encryption");
            }
        }
    }
    // without readable keys there is no thumbprint
    c21_none {
        let md = pick(&["", r#","client_metadata":{"vp_formats_supported":{}}"#, r#","client_metadata":{"vp_formats_supported":{},"jwks":{"keys":[]}}"#, r#","client_metadata":{"vp_formats_supported":{},"jwks":{"keys":"K"}}"#, r#","client_metadata":{"vp_formats_supported":{},"jwks":[]}"#, r#","client_metadata":7"#,
            r#","client_metadata":{"vp_formats_supported":{},"jwks":{"keys":[{"kty":"EC","crv":"P-256","x":"K","y":"b","use":"sig","alg":"ECDH-ES"}]}}"#, r#","jwks":{"keys":[{"kty":"EC","crv":"P-256","x":"K","y":"b","use":"enc","alg":"ECDH-ES"}]}"#]).replace('K', &string(1, "ab"));
        cover("none");
        check(get_encryption_jwk_thumbprint(&request(&md)).is_none(), "a key from nowhere is bound");
    }
    // a key that almost is the one to encrypt to, before or after the one that is
    c21_near {
        let (a, c, u) = match choose(6) { 5 => { let t = any(); match choose(3) { 0 => (t, "P-256".into(), "enc".into()), 1 => ("ECDH-ES".into(), t, "enc".into()), _ => ("ECDH-ES".into(), "P-256".into(), t) } }, 4 => match choose(3) { 0 => (String::new(), "P-256".into(), "enc".into()), 1 => ("ECDH-ES".into(), String::new(), "enc".into()), _ => ("ECDH-ES".into(), "P-256".into(), String::new()) }, 0 => (near("ECDH-ES"), "P-256".to_string(), "enc".to_string()), 1 => (pick(&["ECDH-ES+A128KW", "ECDH-ES+A256KW", "ecdh-es", "RSA-OAEP-256"]).into(), "P-256".into(), "enc".into()), 2 => ("ECDH-ES".into(), near("P-256"), "enc".into()), _ => ("ECDH-ES".into(), "P-256".into(), near("enc")) };
        let one = format!(r#"{{"kty":"EC","crv":"{c}","x":"x1","y":"y1","use":"{u}","alg":"{a}"}}"#);
        let two = r#"{"kty":"EC","crv":"P-256","x":"x2","y":"y2","use":"enc","alg":"ECDH-ES"}"#.to_string();
        let ks = if flag() { [two, one] } else { [one, two] };
        let r = request(&format!(r#","client_metadata":{{"vp_formats_supported":{{}},"jwks":{{"keys":[{}]}}}}"#, ks.join(",")));
        let maps: Vec<_> = ks.iter().map(|k| match json(k) { Value::Object(m) => m, _ => unreachable!() }).collect();
        match find_encryption_jwk(maps.iter()) {
            Ok(k) => { cover("encrypted"); let want = compute_jwk_thumbprint(&serde_json::to_value(&k.jwk).unwrap()); check(match (get_encryption_jwk_thumbprint(&r), want) { (Some(t), Ok(w)) => eq(t, w), _ => false }, "the handover binds another key than the response is encrypted to"); }
            Err(_) => check(false, "a usable key is not found"),
        }
    }
    // many keys, one of which is usable
    c21_many {
        let n = bound(9, 40);
        let at = choose(n);
        let other = pick(&[r#""use":"sig","alg":"ES256""#, r#""use":"sig","alg":"ECDH-ES""#, r#""use":"enc","alg":"ECDH-ES+A128KW""#, r#""use":"enc""#]);
        let kid = pick(&["", r#","kid":"1""#, r#","kid":"1","x5c":["AA"],"key_ops":["deriveKey"]"#]);
        let ks: Vec<String> = (0..n).map(|i| format!(r#"{{"kty":"EC","crv":"P-256","x":"x{i}","y":"y",{}{kid}}}"#, if i == at { if at % 2 == 0 { r#""use":"enc","alg":"ECDH-ES""# } else { r#""alg":"ECDH-ES""# } } else { other })).collect();
        let t = get_encryption_jwk_thumbprint(&request(&format!(r#","client_metadata":{{"vp_formats_supported":{{}},"jwks":{{"keys":[{}]}}}}"#, ks.join(","))));
        cover("many");
        let maps: Vec<_> = ks.iter().map(|k| match json(k) { Value::Object(m) => m, _ => unreachable!() }).collect();
        let found = find_encryption_jwk(maps.iter());
        check(found.map_or(false, |k| k.jwk.map.get("x") == maps[at].get("x")), "the response is encrypted to another key than the one usable");
        check(t.map_or(false, |t| eq(t, compute_jwk_thumbprint(&json(&ks[at])).unwrap())), "the handover binds another key than the response is encrypted to");
    }
}
