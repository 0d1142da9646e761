//! JWK thumbprints (RFC 7638).
use crate::fx::*;
use crate::vsym::*;
use openid4vp::core::iso_18013_7::compute_jwk_thumbprint;
use sha2::{Digest, Sha256};

/// Own JSON string encoder.
pub fn quote(s: &str) -> String {
    let mut o = vec![b'"'];
    for c in s.bytes() {
        match c {
            b'"' => o.extend(b"\\\""), b'\\' => o.extend(b"\\\\"), b'\n' => o.extend(b"\\n"), b'\t' => o.extend(b"\\t"), 0..=31 => o.extend(format!("\\u{:04x}", c).bytes()),
            c => o.push(c),
        }
    }
    o.push(b'"');
    unsafe { String::from_utf8_unchecked(o) }
}
fn sha(s: String) -> Vec<u8> { Sha256::digest(s).to_vec() }
const B64: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
/// Assembles a key from members in some order; the values need no escaping.
fn key(l: &[(&str, &str)], rev: bool, extra: &str) -> serde_json::Value {
    let mut v: Vec<String> = l.iter().map(|(k, x)| format!("\"{k}\":\"{x}\"")).collect();
    if rev { v.reverse(); }
    if !extra.is_empty() { v.insert(choose(2), extra.to_string()); }
    json(&format!("{{{}}}", v.join(",")))
}
/// Members in which a key is sometimes found.
const INNER: &[&str] = &["jwk", "public", "public_key", "publicKey", "publicKeyJwk", "key", "cnf", "epk", "jwks", "x5t#S256", "value", "data", "params"];
fn extra() -> &'static str { pick(&["", r#""kid":"k""#, r#""use":"enc","alg":"ECDH-ES""#, r#""d":"secret","n":"x","e":"AQAB""#, r#""key_ops":["deriveKey"],"z":{"x":1}"#]) }
crate::entries! {
    // elliptic curve keys
    c20_ec {
        let crv = pick(&["P-256", "P-384", "secp256k1"]);
        let (x, y) = (string(pick(if thorough() { &[0, 1, 43, 64, 88] } else { &[1, 43] }), B64), string(pick(if thorough() { &[0, 43, 88] } else { &[1, 43] }), B64));
        let k = key(&[("kty", "EC"), ("crv", crv), ("x", &x), ("y", &y)], flag(), extra());
        let r = compute_jwk_thumbprint(&k);
        cover("thumbprint");
        check(r.map_or(false, |t| eq(t, sha(format!(r#"{{"crv":"{crv}","kty":"EC","x":"{x}","y":"{y}"}}"#)))), "the thumbprint of a key is not that of RFC 7638");
    }
    // what was decided before does not matter
    c20_again {
        let (a, b) = (string(2, B64), string(2, B64));
        let what = choose(3);
        for v in [&a, &b, &a] {
            let k = json(&format!(r#"{{"kty":"EC","kid":"k","use":"enc","alg":"ECDH-ES","crv":"{}","x":"{}","y":"{}"}}"#, if what == 0 { v } else { "P-256" }, if what == 1 { v } else { "x" }, if what == 2 { v } else { "y" }));
            cover("thumbprint");
            let want = format!(r#"{{"crv":"{}","kty":"EC","x":"{}","y":"{}"}}"#, if what == 0 { v } else { "P-256" }, if what == 1 { v } else { "x" }, if what == 2 { v } else { "y" });
            check(compute_jwk_thumbprint(&k).map_or(false, |t| eq(t, sha(want))), "the thumbprint of a key is not that of RFC 7638");
        }
    }
    c20_rsa {
        let (n, e) = (string(pick(if thorough() { &[1, 86, 342] } else { &[1, 86] }), B64), string(pick(&[0, 4]), B64));
        let x = pick(&["", r#""kid":"k""#, r#""x":"a","y":"b","crv":"P-256""#, r#""use":"sig","d":"secret""#]);
        let k = key(&[("kty", "RSA"), ("n", &n), ("e", &e)], flag(), x);
        let r = compute_jwk_thumbprint(&k);
        cover("thumbprint");
        check(r.map_or(false, |t| eq(t, sha(format!(r#"{{"e":"{e}","kty":"RSA","n":"{n}"}}"#)))), "the thumbprint of a key is not that of RFC 7638");
    }
    // members with characters that have to be escaped: distinct keys have distinct thumbprints
    c20_escapes {
        let v = string(bound(2, 3), "a\"\\,:{}\n\x01");
        let which = choose(3);
        let m = |i: usize| if i == which { v.clone() } else { "b".to_string() };
        let mut o = serde_json::Map::new();
        let rsa = flag() && which < 2;
        for (i, n) in (if rsa { vec!["e", "n"] } else { vec!["crv", "x", "y"] }).into_iter().enumerate() { o.insert(n.into(), serde_json::Value::String(m(i))); }
        o.insert("kty".into(), if rsa { "RSA".into() } else { "EC".into() });
        let r = compute_jwk_thumbprint(&serde_json::Value::Object(o));
        cover("escaped");
        let want = if rsa { format!(r#"{{"e":{},"kty":"RSA","n":{}}}"#, quote(&m(0)), quote(&m(1))) } else { format!(r#"{{"crv":{},"kty":"EC","x":{},"y":{}}}"#, quote(&m(0)), quote(&m(1)), quote(&m(2))) };
        check(r.map_or(false, |t| eq(t, sha(want))), "the thumbprint of a key is not that of RFC 7638");
    }
    // what is no key of a known type has no thumbprint
    c20_kind {
        let t = match choose(3) { 0 => string(pick(&[2, 3]), IDCHARS), 1 => near_tail(pick(&["EC", "RSA"])), _ => pick(&["", "OKP", "oct", "ec", "rsa", "EC ", "RSA-OAEP", "EC2"]).to_string() };
        let r = compute_jwk_thumbprint(&key(&[("kty", &t), ("crv", "P-256"), ("x", "a"), ("y", "b"), ("n", "c"), ("e", "d")], false, ""));
        match r {
            Ok(h) => { cover("known"); check((eq(&t, "EC") & eq(h, sha(r#"{"crv":"P-256","kty":"EC","x":"a","y":"b"}"#.into()))) | (eq(&t, "RSA") & eq(h, sha(r#"{"e":"d","kty":"RSA","n":"c"}"#.into()))), "a key of one type got the thumbprint of another") }
            Err(_) => { cover("unknown"); check(!eq(&t, "EC") & !eq(&t, "RSA"), "a key has no thumbprint") }
        }
    }
    c20_missing {
        let s = string(2, "abc");
        let rsa = flag();
        let names: &[&str] = if rsa { &["kty", "e", "n"] } else { &["kty", "crv", "x", "y"] };
        let gone = choose(names.len());
        let mut v: Vec<String> = vec![];
        for (i, n) in names.iter().enumerate() {
            let x = if *n == "kty" { if rsa { "RSA" } else { "EC" } } else { s.as_str() };
            if i != gone { v.push(format!("\"{n}\":\"{x}\"")); } else { match choose(5) { 0 => (), 1 => v.push(format!("\"{n}\":null")), 2 => v.push(format!("\"{n}\":7")), 3 => v.push(format!("\"{n}\":[\"{s}\"]")), _ => v.push(format!("\"{n} \":\"{s}\"")) } }
        }
        cover("incomplete");
        check(compute_jwk_thumbprint(&json(&format!("{{{}}}", v.join(",")))).is_err(), "an incomplete key has a thumbprint");
        check(compute_jwk_thumbprint(&json(&format!("[\"{s}\"]"))).is_err() && compute_jwk_thumbprint(&json("null")).is_err(), "what is no key has a thumbprint");
    }
    // members of any text: nothing in them is interpreted
    c20_as_given {
        let v = match choose(4) { 0 => any(), 1 => beyond(), 2 => pick(&["", " ", "AA==", "null", "\u{7f}", "a/b+c", "P-256", "did:x#y", "A\u{2028}", "prime256v1", "secp256r1", "P256", "p-256", "P-256K", "1.2.840.10045.3.1.7", "urn:oid:1.2.840.10045.3.1.7", "Ed25519", "AQAB", "AAEAAQ"]).to_string(), _ => format!("{}{}", filler(pick(&[100, 700])), string(1, IDCHARS)) };
        let rsa = flag();
        let names: &[&str] = if rsa { &["e", "n"] } else { &["crv", "x", "y"] };
        let which = choose(names.len());
        let mut o = serde_json::Map::new();
        for (i, n) in names.iter().enumerate() { o.insert(n.to_string(), serde_json::Value::String(if i == which { v.clone() } else { "b".into() })); }
        o.insert("kty".into(), if rsa { "RSA".into() } else { "EC".into() });
        // other members do not count, whatever they are
        match choose(3) { 0 => { o.insert(if which == 0 && v.len() < 9 { pick(INNER) } else { "jwk" }.into(), json(r#"{"kty":"EC","crv":"c","x":"x","y":"y"}"#)); } 1 => { o.insert("kid".into(), v.clone().into()); o.insert("thumbprint".into(), "abc".into()); } _ => () }
        let m = |i: usize| if i == which { v.clone() } else { "b".to_string() };
        let r = compute_jwk_thumbprint(&serde_json::Value::Object(o));
        cover("as given");
        let want = if rsa { format!(r#"{{"e":{},"kty":"RSA","n":{}}}"#, quote(&m(0)), quote(&m(1))) } else { format!(r#"{{"crv":{},"kty":"EC","x":{},"y":{}}}"#, quote(&m(0)), quote(&m(1)), quote(&m(2))) };
        check(r.map_or(false, |t| eq(t, sha(want))), "the thumbprint of a key is not that of RFC 7638");
    }
    // a key inside something else is not that key
    c20_nested {
        let k = format!(r#"{{"kty":"EC","crv":"P-256","x":"{}","y":"b"}}"#, string(2, B64));
        let t = match choose(4) { 0 => format!(r#"{{"{}":{k}}}"#, pick(INNER)), 1 => format!("[{k}]"), 2 => format!(r#"{{"keys":[{k}]}}"#), _ => format!(r#"{{"kty":"oct","key":{k}}}"#) };
        cover("nested");
        check(compute_jwk_thumbprint(&json(&t)).is_err(), "what is no key has a thumbprint");
    }
}
