//! mdoc handovers and session transcripts: exactly the bytes the specification prescribes.
use crate::fx::filler;
use crate::vsym::*;
use openid4vp::core::iso_18013_7::{DcApiHandover, Handover, SessionTranscript};
use sha2::{Digest, Sha256};

/// Own CBOR encoder.
fn head(major: u8, n: usize) -> Vec<u8> {
    let m = major << 5;
    match n { 0..=23 => vec![m | n as u8], 24..=255 => vec![m | 24, n as u8], _ => vec![m | 25, (n >> 8) as u8, n as u8] }
}
fn cbor(major: u8, b: &[u8]) -> Vec<u8> { let mut v = head(major, b.len()); v.extend_from_slice(b); v }
fn text(s: &str) -> Vec<u8> { cbor(3, s.as_bytes()) }
fn array(l: &[Vec<u8>]) -> Vec<u8> { let mut v = head(4, l.len()); for x in l { v.extend_from_slice(x); } v }
fn null() -> Vec<u8> { vec![0xf6] }
fn sha(b: &[u8]) -> Vec<u8> { Sha256::digest(b).to_vec() }
fn write<T: serde::Serialize>(t: &T) -> Vec<u8> { let mut v = vec![]; ciborium::into_writer(t, &mut v).unwrap(); v }

const CH: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~:/?#[]@!$&'()*+,;=%\"\\ \x00";
/// Any text: ASCII, or with a two-byte character.
fn any(n: usize) -> String { string(n, CH) }
fn size() -> usize { if thorough() { pick(&[0, 1, 22, 23, 24, 25, 254, 255, 256, 257]) } else { pick(&[0, 23, 24, 256]) } }
fn print() -> Option<Vec<u8>> { match choose(3) { 0 => None, 1 => Some(bytes(32, &[])), _ => Some(bytes(pick(&[0, 20]), &[])) } }
fn print_cbor(p: &Option<Vec<u8>>) -> Vec<u8> { p.as_ref().map_or(null(), |p| cbor(2, p)) }
macro_rules! same { ($h:expr, $name:literal, $info:expr) => {{
    let (h, hash) = ($h, sha(&$info));
    check(eq(h.handover_info_hash(), &hash), "the handover hash is not the hash of what the specification prescribes");
    let want = array(&[text($name), cbor(2, &hash)]);
    check(h.to_cbor_bytes().map_or(false, |b| eq(b, &want)), "a handover has another encoding than the specification's");
    check(eq(write(&h), &want), "a handover is serialized in another way than it is encoded");
    let t = SessionTranscript::new(h.clone());
    let tw = array(&[null(), null(), want.clone()]);
    check(t.to_cbor_bytes().map_or(false, |b| eq(b, &tw)), "a session transcript has another encoding than the specification's");
    check(eq(write(&t), &tw), "a session transcript is serialized in another way than it is encoded");
    check(eq(t.handover().handover_info_hash(), &hash), "a transcript has another handover than the one it was made with");
    (want, tw, hash)
}} }
crate::entries! {
    c19_handover {
        let (c, n, p, u) = (any(size()), any(pick(&[0, 8])), print(), any(pick(&[0, 24])));
        let Ok(h) = Handover::new(&c, &n, p.as_deref(), &u) else { check(false, "no handover is made"); return };
        cover(if p.is_some() { "encrypted" } else { "plain" });
        same!(h, "OpenID4VPHandover", array(&[text(&c), text(&n), print_cbor(&p), text(&u)]));
    }
    // lengths on either side of the encoding's steps, and characters outside ASCII, in each place
    c19_sizes {
        let l = any(size());
        let mut s = l.clone();
        let wide = flag();
        if wide { s.push(char::from_u32(0xa0 + sym(64) as u32).unwrap()); }
        let (c, n, u) = match choose(3) { 0 => (s.as_str(), "n", "u"), 1 => ("c", s.as_str(), "u"), _ => ("c", "n", s.as_str()) };
        let Ok(h) = Handover::new(c, n, None, u) else { check(false, "no handover is made"); return };
        cover("sizes");
        same!(h, "OpenID4VPHandover", array(&[text(c), text(n), null(), text(u)]));
        if n != "n" || c != "c" {
            let Ok(h) = DcApiHandover::new(c, n, None) else { check(false, "no handover is made"); return };
            same!(h, "OpenID4VPDCAPIHandover", array(&[text(c), text(n), null()]));
        }
    }
    c19_dc_api {
        let (o, n, p) = (any(size()), any(pick(&[0, 8, 24])), print());
        let Ok(h) = DcApiHandover::new(&o, &n, p.as_deref()) else { check(false, "no handover is made"); return };
        cover(if p.is_some() { "encrypted" } else { "plain" });
        same!(h, "OpenID4VPDCAPIHandover", array(&[text(&o), text(&n), print_cbor(&p)]));
    }
    // the values that look like something else are taken as they are
    c19_as_given {
        let t = match choose(4) { 3 => string(choose(bound(25, 41)), CH), 0 => { let (t, c) = (pick(&["x509_san_dns:v.example", "https://v.example/r"]), string(1, CH)); if flag() { format!("{c}{t}") } else { format!("{t}{c}") } }, 1 => pick(&["", " ", "null", "origin:https://v.example", "web-origin:https://v.example", "decentralized_identifier:did:web:v", "https://V.example/R/?#", "https://v.example:443/", "  n  ", "AA==", "%20"]).to_string(), _ => format!("{}{}", filler(pick(&[500, bound(1000, 3000)])), string(1, CH)) };
        let p = match choose(3) { 0 => None, 1 => Some(vec![]), _ => Some(bytes(pick(&[1, 33]), &[])) };
        let (c, n, u) = match choose(3) { 0 => (t.as_str(), "n", "u"), 1 => ("c", t.as_str(), "u"), _ => ("c", "n", t.as_str()) };
        let Ok(h) = Handover::new(c, n, p.as_deref(), u) else { check(false, "no handover is made"); return };
        cover("as given");
        same!(h, "OpenID4VPHandover", array(&[text(c), text(n), print_cbor(&p), text(u)]));
        let Ok(h) = DcApiHandover::new(c, n, p.as_deref()) else { check(false, "no handover is made"); return };
        same!(h, "OpenID4VPDCAPIHandover", array(&[text(c), text(n), print_cbor(&p)]));
    }
    // what is neither handover nor transcript is not read
    c19_malformed {
        let h = bytes(pick(&[0, 3]), &[]);
        let (ty, nl) = (pick(&["OpenID4VPHandover", "OpenID4VPDCAPIHandover"]), null());
        let b = match choose(7) { 0 => array(&[text(ty)]), 1 => array(&[text(ty), text("abc")]), 2 => array(&[text(ty), nl.clone()]), 3 => array(&[cbor(2, &h), text(ty)]), 4 => text(ty), 5 => array(&[nl.clone(), cbor(2, &h)]), _ => array(&[]) };
        cover("malformed");
        check(ciborium::from_reader::<Handover, _>(&b[..]).is_err() && ciborium::from_reader::<DcApiHandover, _>(&b[..]).is_err(), "what is no handover is read as one");
        let t = array(&[nl.clone(), nl.clone(), b]);
        check(ciborium::from_reader::<SessionTranscript, _>(&t[..]).is_err() && ciborium::from_reader::<SessionTranscript<DcApiHandover>, _>(&t[..]).is_err(), "what is no transcript is read as one");
        let g = array(&[text("OpenID4VPHandover"), cbor(2, &h)]);
        let full = ciborium::from_reader::<SessionTranscript, _>(&array(&[nl.clone(), nl.clone(), g.clone()])[..]);
        check(full.is_ok(), "a transcript is not read");
        let other = pick(&[vec![0xf5], vec![0x00], cbor(2, &[1, 2]), text(""), array(&[]), vec![0xa0], vec![0xd8, 0x18, 0x41, 0x00]]);
        let t = match choose(5) { 3 => array(&[other, nl.clone(), g]), 4 => array(&[nl.clone(), other, g]), 0 => array(&[nl.clone(), g]), 1 => array(&[nl.clone(), nl.clone()]), _ => g };
        check(ciborium::from_reader::<SessionTranscript, _>(&t[..]).is_err(), "what is no transcript is read as one");
    }
    // two sessions share a handover only if they agree in everything
    c19_distinct {
        let n = bound(2, 4);
        let a: Vec<String> = (0..3).map(|_| string(choose(n), "abc")).collect();
        let b: Vec<String> = (0..3).map(|_| string(choose(n), "abc")).collect();
        let (p, q) = (if flag() { Some(bytes(32, &[])) } else { None }, if flag() { Some(bytes(32, &[])) } else { None });
        let mut same = match (&p, &q) { (Some(p), Some(q)) => eq(p, q), (None, None) => true, _ => false };
        for i in 0..3 { same = same & eq(&a[i], &b[i]); }
        let (x, y) = (Handover::new(&a[0], &a[1], p.as_deref(), &a[2]).unwrap(), Handover::new(&b[0], &b[1], q.as_deref(), &b[2]).unwrap());
        cover("two sessions");
        let e = eq(x.handover_info_hash(), y.handover_info_hash());
        check(e == same, "two different sessions share a handover, or the same session has two");
    }
    // a handover or transcript that was written is read back; one of another kind is not read
    c19_read {
        let hash = bytes(pick(&[32, 0, 33, 64]), &[]);
        let ty = if flag() { let mut t = pick(&["OpenID4VPHandover", "OpenID4VPDCAPIHandover"]).to_string(); let i = choose(t.len()); t.replace_range(i..i + 1, &string(1, "OpenID4VPHDCAPIover5")); t } else { string(bound(2, 5), "OpenID4VPHDCAPI") };
        let b = array(&[text(&ty), cbor(2, &hash)]);
        let (h, d) = (ciborium::from_reader::<Handover, _>(&b[..]), ciborium::from_reader::<DcApiHandover, _>(&b[..]));
        if hash.len() != 32 { check(!h.is_ok() | eq(&ty, "OpenID4VPHandover") && !d.is_ok() | eq(&ty, "OpenID4VPDCAPIHandover"), "something else is read as a handover"); }
        if hash.len() == 32 { check(h.is_ok() == eq(&ty, "OpenID4VPHandover"), "a handover is not read, or something else is read as one"); check(d.is_ok() == eq(&ty, "OpenID4VPDCAPIHandover"), "a handover of the Digital Credentials API is not read, or something else is read as one"); }
        if let Ok(h) = &h { cover("read"); check(eq(h.handover_info_hash(), &hash), "another handover is read than was written"); }
        if let Ok(d) = &d { cover("read"); check(eq(d.handover_info_hash(), &hash), "another handover is read than was written"); }
        if h.is_err() && d.is_err() { cover("not read"); }
        let t = array(&[null(), null(), b]);
        let (th, td) = (ciborium::from_reader::<SessionTranscript, _>(&t[..]), ciborium::from_reader::<SessionTranscript<DcApiHandover>, _>(&t[..]));
        check(th.is_ok() == h.is_ok() && td.is_ok() == d.is_ok(), "a transcript is not read exactly if its handover is");
        if let Ok(x) = th { check(eq(x.handover().handover_info_hash(), &hash), "another transcript is read than was written"); }
        if let Ok(x) = td { check(eq(x.handover().handover_info_hash(), &hash), "another transcript is read than was written"); }
    }
    // equality of handovers and transcripts is equality of what they bind
    c19_equal {
        let (a, b) = (bytes(bound(2, 8), &[]), bytes(bound(2, 8), &[]));
        let mk = |h: &[u8]| ciborium::from_reader::<Handover, _>(&array(&[text("OpenID4VPHandover"), cbor(2, h)])[..]).unwrap();
        let (x, y) = (mk(&a), mk(&b));
        let e = eq(&a, &b);
        cover(if x == y { "equal" } else { "different" });
        check((x == y) == e && (SessionTranscript::new(x.clone()) == SessionTranscript::new(y.clone())) == e, "different handovers are equal, or a handover differs from itself");
    }
}
