//! Requests of clients named by a DNS name in their certificate.
use crate::fixtures::*;
use crate::vsym::*;
use crate::fx::*;
use crate::x5::*;
use openid4vp::core::authorization_request::verification::verifier::P256Verifier;
use openid4vp::core::authorization_request::verification::x509_san::validate;

const V: Validate = validate::<Rec>;
const ID: &str = "x509_san_dns:aaaaaaaa";
fn with(cert: &[u8], old: &str, new: &str) -> Vec<u8> {
    let i = cert.windows(old.len()).position(|w| w == old.as_bytes()).unwrap();
    let mut c = cert.to_vec();
    c[i..i + new.len()].copy_from_slice(new.as_bytes());
    c
}
crate::entries! {
    // the client identifier against two DNS names of fixed text
    c08_client {
        let n = pick(if thorough() { &[0, 1, 7, 8, 9, 10] } else { &[0, 7, 8, 9] });
        let id = match choose(3) { 0 | 1 => string(n, IDCHARS), _ => pick(&["https://uuuuuuuu", "uuuuuuuu", "e@mmmmmmmm", "mmmmmmmm", "aaaaaaaa,bbbbbbbb", "*"]).to_string() };
        let pre = pick(&["x509_san_dns:", "", "x509_san_dns:x509_san_dns:", "x509_hash:"]);
        let (ok, s) = run(V, ALGS, Some(&format!("{pre}{id}")), &jwt(&header("ES256", &[CERT_A]), "{}", "c2ln"), true, true);
        let want = (pre.is_empty() || pre == "x509_san_dns:") && (eq(&id, "aaaaaaaa") | eq(&id, "bbbbbbbb"));
        judge(ok, want, "a request was accepted for a client that is not a DNS name of the certificate");
        check(want || s.msgs.is_empty(), "a signature was checked for a client that is not a DNS name of the certificate");
    }
    // a certificate with many names of many kinds, and others with a name elsewhere
    c08_many {
        let dns = ["aaaaaaaa", "*.w.ex", "bbbbbbbb", "dddddddd", "eeeeeeee"];
        let lname = format!("{}.ex", "l".repeat(60));
        let (cert, id, want) = match choose(5) {
            0 => { let id = string(8, IDCHARS); let w = dns.iter().fold(false, |r, d| r | eq(&id, d)); (CERT_MANY, id, w) }
            1 => { let id = string(6, IDCHARS); let w = eq(&id, "*.w.ex"); (CERT_MANY, id, w) }
            2 => { let id = match choose(2) { 0 => near(pick(&["aaaaaaaa", "eeeeeeee", "*.w.ex"])), _ => near_tail(&lname) }; let w = dns.iter().fold(eq(&id, &lname), |r, d| r | eq(&id, d)); (CERT_MANY, id, w) }
            3 => (CERT_MANY, pick(&["10.0.0.1", "1.2.3.4", "ffffffff", "gggggggg", "kkkkkkkk", "cccccccc", "hhhhhhhh", "jjjjjjjj", "a.w.ex", "x.*.w.ex", "w.ex", ".w.ex", "CN=cccccccc", "aaaaaaaa.", "aaaaaaaa:443"]).into(), false),
            _ => { let id = string(8, IDCHARS); if flag() { (CERT_CN, id, false) } else { let w = eq(&id, "bbbbbbbb"); (CERT_CRIT, id, w) } }
        };
        let (ok, s) = run(V, ALGS, Some(&format!("x509_san_dns:{id}")), &jwt(&header("ES256", &[cert]), "{}", "c2ln"), true, true);
        judge(ok, want, "a request was accepted for a client that is not a DNS name of the certificate");
        check(want || s.msgs.is_empty(), "a signature was checked for a client that is not a DNS name of the certificate");
    }
    // a name of no characters
    c08_empty {
        let n = pick(&[0, 1, 6, 7]);
        let id = string(n, IDCHARS);
        // one name of 8 characters becomes one of none and one of 6
        let cert = with(CERT_A, "\x08aaaaaaaa", "\x00\u{2}\x06aaaaaa");
        let cert: Vec<u8> = { let mut c = cert; let i = c.windows(9).position(|w| w == b"\0\x02\x06aaaaaa").unwrap(); c[i + 1] = 0x82; c };
        let (ok, _) = run(V, ALGS, Some(&format!("x509_san_dns:{id}")), &jwt(&header("ES256", &[&cert]), "{}", "c2ln"), true, true);
        judge(ok, n == 0 || eq(&id, "aaaaaa"), "a request was accepted for a client that is not a DNS name of the certificate");
    }
    // symbolic DNS names in the certificate
    c08_names {
        let a = string(bound(2, 4), "ab*.A-_0");
        let b = string(bound(2, 4), "ab*.A-_0");
        let pad = "x".repeat(8 - a.len());
        let cert = with(&with(CERT_A, "aaaaaaaa", &format!("{a}{pad}")), "bbbbbbbb", &format!("{pad}{b}"));
        let id = match choose(3) { 0 => format!("aa{}", &"xxxxxxaa"[..6]), 1 => "xxxxxxab".to_string(), _ => "a.xxxxxx".to_string() };
        let (ok, _) = run(V, ALGS, Some(&format!("x509_san_dns:{id}")), &jwt(&header("ES256", &[&cert]), "{}", "c2ln"), true, true);
        let want = eq(&id, format!("{a}{pad}")) | eq(&id, format!("{pad}{b}"));
        judge(ok, want, "a request was accepted for a client that is not a DNS name of the certificate");
    }
    // names that hold the client's name and more, on either side
    c08_within {
        let (name, id) = match choose(7) {
            6 => ("vvvv\0vvv", pick(&["vvvv", "vvv", "vvvvvvv", ""]).to_string()),
            0 => ("www.vvvv", string(4, "vw.")),
            1 => ("vvvvvvv.", string(7, "vw.")),
            2 => (".vvvvvvv", string(7, "vw.")),
            3 => ("*.vv.vvv", pick(&["vv.vvv", "*vv.vvv", ".vv.vvv", "v.vv.vvv", "vvv.vv.vvv", "*.vv.vvv", "*", "vvv"]).to_string()),
            4 => ("vv.v:443", pick(&["vv.v", "vv.v:443", "vv.v:", "v:443", "443", "https://vv.v:443", "vv.v:443/"]).to_string()),
            _ => ("VV.vvvvv", pick(&["vv.vvvvv", "VV.VVVVV", "VV.vvvvv", "VV.vvvvv.", "www.VV.vvvvv", "VV%2Evvvvv", " VV.vvvvv", "VV.vvvvv "]).to_string()),
        };
        let cert = with(CERT_A, "aaaaaaaa", name);
        let (ok, s) = run(V, ALGS, Some(&format!("x509_san_dns:{id}")), &jwt(&header("ES256", &[&cert]), "{}", "c2ln"), true, true);
        let want = eq(&id, name) | eq(&id, "bbbbbbbb");
        judge(ok, want, "a request was accepted for a client that is not a DNS name of the certificate");
        check(want || s.msgs.is_empty(), "a signature was checked for a client that is not a DNS name of the certificate");
    }
    // no DNS names at all
    c08_no_names {
        let c = pick(&[CERT_URI, CERT_NONE, CERT_CN]);
        let id = string(pick(&[0, 1, 8]), IDCHARS);
        let (ok, _) = run(V, ALGS, Some(&format!("x509_san_dns:{id}")), &jwt(&header("ES256", &[c]), "{}", "c2ln"), true, true);
        judge(ok, false, "a request was accepted with a certificate that has no DNS name");
    }
    c08_any { anything(V, ID, CERT_A) }
    // what was decided before does not matter
    c08_again { again(V, ID, CERT_A, CERT_NONE) }
    c08_verifier { verifier(V, ID, CERT_A, K1_SPKI, CERT_B) }
    c08_chain { chain(V, ID, CERT_A, CERT_B) }
    c08_algs { algs(V, ID, CERT_A) }
    c08_malformed { malformed(V, ID, CERT_A) }
    c08_p256 { p256(validate::<P256Verifier>, "x509_san_dns:v.example", SAN_TOKEN) }
    c08_p256_alg { p256_alg(validate::<P256Verifier>, "x509_san_dns:v.example") }
}
