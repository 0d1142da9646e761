//! Requests of clients named by the hash of their certificate.
use crate::fixtures::*;
use crate::fx::*;
use crate::vsym::*;
use crate::x5::*;
use openid4vp::core::authorization_request::verification::verifier::P256Verifier;
use openid4vp::core::authorization_request::verification::x509_hash::validate;

const V: Validate = validate::<Rec>;
fn id() -> String { format!("x509_hash:{CERT_C_HASH}") }
crate::entries! {
    // any hash text
    c09_client {
        let n = if thorough() { choose(48) } else { pick(&[0, 1, 22, 42, 43, 44, 45]) };
        let h = string(n, IDCHARS);
        let pre = pick(&["x509_hash:", "", "x509_hash:x509_hash:", "x509_san_dns:"]);
        let (ok, s) = run(V, ALGS, Some(&format!("{pre}{h}")), &jwt(&header("ES256", &[CERT_C]), "{}", "c2ln"), true, true);
        let want = (pre.is_empty() || pre == "x509_hash:") && eq(&h, CERT_C_HASH);
        judge(ok, want, "a request was accepted for a client that is not the hash of the certificate");
        check(want || s.msgs.is_empty(), "a signature was checked for a client that is not the hash of the certificate");
    }
    // the hash with a character of any class more or other, truncated, repeated, or of something else
    c09_near {
        let h = CERT_C_HASH;
        let t = match choose(6) { 5 => { let d = unb64(h); let hex: String = d.iter().map(|b| format!("{b:02x}")).collect(); match choose(6) { 0 => hex, 1 => hex.to_uppercase(), 2 => b64std(&d), 3 => b64url(&hex), 4 => hex[..32].to_string(), _ => format!("0x{hex}") } } 4 => format!("{}{h}", pick(&["sha-256:", "sha256:", "sha-256=", "sha256-", "SHA-256:", "urn:ietf:params:oauth:jwk-thumbprint:sha-256:", "ni:///sha-256;", "https://", "/", "\\n", " "])), 0 => near(h), 1 => h[..choose(43)].to_string(), 2 => format!("{h}{}", pick(&["=", "==", h, ":", "#"])), _ => format!("{}{}", filler(300), string(1, IDCHARS)) };
        let pre = pick(&["x509_hash:", ""]);
        let (ok, s) = run(V, ALGS, Some(&format!("{pre}{t}")), &jwt(&header("ES256", &[CERT_C, CERT_B]), "{}", "c2ln"), true, true);
        let want = eq(&t, h);
        judge(ok, want, "a request was accepted for a client that is not the hash of the certificate");
        check(want || s.msgs.is_empty(), "a signature was checked for a client that is not the hash of the certificate");
    }
    // another certificate for the same key, or the certificate with one byte of its signature changed
    c09_certificate {
        let mut c = CERT_C.to_vec();
        let n = c.len();
        let k = choose(3);
        if k == 1 { c[n - 1] ^= 1; } else if k == 2 { c = CERT_A.to_vec(); }
        let (ok, _) = run(V, ALGS, Some(&id()), &jwt(&header("ES256", &[&c]), "{}", "c2ln"), true, true);
        judge(ok, k == 0, "a request was accepted with another certificate than the one the client identifier names");
    }
    c09_any { anything(V, &id(), CERT_C) }
    // what was decided before does not matter
    c09_again { again(V, &id(), CERT_C, CERT_A) }
    c09_verifier { verifier(V, &id(), CERT_C, K1_SPKI, CERT_B) }
    c09_chain { chain(V, &id(), CERT_C, CERT_B) }
    c09_algs { algs(V, &id(), CERT_C) }
    c09_malformed { malformed(V, &id(), CERT_C) }
    c09_p256 { p256(validate::<P256Verifier>, &id(), HASH_TOKEN) }
    c09_p256_alg { p256_alg(validate::<P256Verifier>, &id()) }
}
