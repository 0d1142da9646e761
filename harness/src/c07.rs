//! Requests of DID clients: the default verification.
use crate::fixtures::*;
use crate::fx::*;
use crate::vsym::*;
use openid4vp::core::authorization_request::verification::did::verify_with_resolver;
use openid4vp::core::authorization_request::AuthorizationRequestObject;
use ssi_jwk::{JWKResolver, JWK};
use std::borrow::Cow;

/// Resolves every verification method to the given key, and records what it was asked.
struct Res { key: Option<JWK>, asked: Cellx<Vec<Option<String>>> }
impl JWKResolver for &Res {
    async fn fetch_public_jwk(&'_ self, id: Option<&str>) -> Result<Cow<'_, JWK>, ssi_claims::ProofValidationError> {
        self.asked.0.borrow_mut().push(id.map(|s| s.to_string()));
        match &self.key { Some(k) => Ok(Cow::Borrowed(k)), None => Err(ssi_claims::ProofValidationError::UnknownKey) }
    }
}
fn key(s: &str) -> JWK { serde_json::from_str(s).unwrap() }
fn aro(client: Option<&str>) -> AuthorizationRequestObject {
    let c = client.map_or(String::new(), |c| format!(r#","client_id":"{c}""#));
    obj(&format!(r#"{{"nonce":"n","response_mode":"direct_post","response_type":"vp_token","response_uri":"https://v/r"{c}}}"#)).try_into().unwrap()
}
const ALGS: &str = r#""request_object_signing_alg_values_supported":["ES384","ES256"]"#;
fn run(md: &str, o: &AuthorizationRequestObject, jwt: &str, trusted: Option<&[String]>, k: Option<JWK>) -> (bool, Vec<Option<String>>) {
    let r = Res { key: k, asked: Default::default() };
    let v = block_on(verify_with_resolver(&metadata(md), o, jwt.to_string(), trusted, &r));
    outcome(&v);
    let a = r.asked.0.borrow().clone();
    (v.is_ok(), a)
}
fn judge(ok: bool, want: bool, m: &str) {
    cover(if want { "accepted" } else { "rejected" });
    check(ok == want, if want { "a properly signed request of a DID client was rejected" } else { m });
}
const CH: &str = IDCHARS;
const DID: &str = "did:ex:abc";
const P: &str = "decentralized_identifier:";
crate::entries! {
    // the client identifier against the key identifier of a properly signed token
    c07_client {
        let n = pick(if thorough() { &[0, 3, 9, 10, 11, 12, 13] } else { &[0, 9, 10, 11, 13] });
        let id = string(n, CH);
        let pre = pick(&["", P, "decentralized_identifier:decentralized_identifier:", "x:", "did:ex:abc#"]);
        let (ok, _) = run(ALGS, &aro(Some(&format!("{pre}{id}"))), DID_TOKEN, None, Some(key(K1_JWK)));
        judge(ok, (pre == P || pre.is_empty()) && eq(&id, DID), "a request was accepted for a client whose DID is not that of the signing key");
    }
    // client, key identifier, trusted DIDs and algorithms of any length and character, off in one place or nowhere; long lists
    c07_near {
        let w = choose(5);
        let n = |k: usize, t: &str| if w == k { near(t) } else { t.to_string() };
        let (client, kid, trust, alg) = (n(0, DID), n(1, DID), n(2, DID), n(3, "ES256"));
        let long = w == 4;
        let (tok, did) = if long { (DID_TOKEN_LONG, DID_LONG) } else { (DID_TOKEN, DID) };
        let long_client = if long { near_tail(DID_LONG) } else { String::new() };
        let client = if long { &long_client } else { &client };
        let trust = if long { DID_LONG } else { &trust };
        let mut l: Vec<String> = ["did:ex:ab", "did:ex:abcd", "did:ex", "", "*", "did:ex:ABC", "did:ex:abc#k1"].iter().map(|s| s.to_string()).collect();
        l.insert(if client.len() % 2 == 0 { 0 } else { 7 }, trust.into());
        let md = format!(r#""request_object_signing_alg_values_supported":["ES384","RS256","PS256","ES512","EdDSA","ES256K","{alg}"]"#);
        if w == 1 {
            let t = jwt(&format!(r#"{{"alg":"ES256","kid":"{kid}#{}","typ":"oauth-authz-req+jwt"}}"#, string(1, CH)), "{}", "c2ln");
            let (ok, asked) = run(&md, &aro(Some(&format!("{P}{did}"))), &t, Some(&l), None);
            let full = format!("{kid}#");
            let same = full.len() > 10 && eq(&full.as_bytes()[..11], "did:ex:abc#");
            cover(if same { "accepted" } else { "rejected" });
            check(!ok && asked.len() == same as usize, "a key of another DID than the client's was asked for, or none");
            return;
        }
        let (ok, asked) = run(&md, &aro(Some(&format!("{P}{client}"))), tok, Some(&l), Some(key(K1_JWK)));
        let want = eq(client, did) & eq(trust, did) & eq(&alg, "ES256");
        judge(ok, want, "a request was accepted for another or an untrusted DID, or with an algorithm the wallet does not list");
        check(want || asked.is_empty(), "a key was resolved for another or an untrusted DID");
        if want { check(asked.len() == 1 && asked[0].as_ref().map_or(false, |a| eq(a, format!("{did}#k1"))), "another key than the one named by the token was asked for"); }
    }
    // any text in one place
    c07_any {
        let a = any();
        let w = choose(5);
        let n = |k: usize, t: &str| if w == k { a.clone() } else { t.to_string() };
        let (client, trust, list, alg) = (n(0, "decentralized_identifier:did:ex:abc"), n(1, DID), n(2, "ES256"), n(3, "ES256"));
        let kid = format!("{}{}", n(4, "did:ex:abc#k1"), if w == 4 { "#k1" } else { "" });
        let made = w > 2;
        let t = if made { jwt(&format!(r#"{{"alg":"{alg}","kid":"{kid}","typ":"oauth-authz-req+jwt"}}"#), "{}", "c2ln") } else { DID_TOKEN.to_string() };
        let (ok, asked) = run(&format!(r#""request_object_signing_alg_values_supported":["{list}","EdDSA","{}"]"#, if made { alg.as_str() } else { "ES384" }), &aro(Some(&client)), &t, Some(&[trust.clone()]), if w == 3 && alg.len() != 4 { None } else { Some(key(K1_JWK)) });
        // what is made here is not signed
        let want = if made { w == 3 && eq(&alg, "none") } else { (eq(&client, "decentralized_identifier:did:ex:abc") | eq(&client, DID)) & eq(&trust, DID) & eq(&list, "ES256") };
        judge(ok, want, "a request was accepted for another or an untrusted DID, or with an algorithm the wallet does not list");
        if w == 4 { let d = kid.split('#').next().unwrap(); check(asked.len() == eq(d, DID) as usize, "a key of another DID than the client's was asked for, or none"); }
    }
    // what was decided before does not matter
    c07_again {
        let parts: Vec<&str> = DID_TOKEN.split('.').collect();
        let forged = format!("{}.{}.{}", parts[0], DID_TOKEN_2.split('.').nth(1).unwrap(), parts[2]);
        let (a, b) = (choose(7), choose(7));
        for k in [a, b, a] {
            let t = match k { 2 => &forged, 6 => DID_TOKEN_2, _ => DID_TOKEN };
            let trusted = [if k == 3 { "did:ex:other".to_string() } else { DID.to_string() }];
            let (ok, asked) = run(if k == 5 { r#""request_object_signing_alg_values_supported":["EdDSA"]"# } else { ALGS }, &aro(Some(if k == 4 { "decentralized_identifier:did:ex:abd" } else { "decentralized_identifier:did:ex:abc" })), t, Some(&trusted), Some(key(if k == 1 { K2_JWK } else { K1_JWK })));
            judge(ok, k == 0 || k == 6, "a request was accepted because another one was");
            check(asked.len() < 2, "a key was asked for more than once");
        }
    }
    // the trusted DIDs
    c07_trusted {
        let k = choose(bound(3, 4));
        let mut l = vec![];
        for _ in 0..k { l.push(string(pick(&[9, 10, 11]), CH)); }
        let (ok, asked) = run(ALGS, &aro(Some("decentralized_identifier:did:ex:abc")), DID_TOKEN, Some(&l), Some(key(K1_JWK)));
        let want = l.iter().any(|x| x.as_bytes() == DID.as_bytes());
        judge(ok, want, "a request was accepted for a client that is not among the trusted ones");
        check(want || asked.is_empty(), "a key of an untrusted client was resolved");
    }
    // the wallet's signing algorithms
    c07_algs {
        let k = choose(bound(3, 4));
        let mut l = vec![];
        for _ in 0..k { l.push(string(pick(&[4, 5, 6]), CH)); }
        let q: Vec<String> = l.iter().map(|s| format!("\"{s}\"")).collect();
        let (ok, _) = run(&format!(r#""request_object_signing_alg_values_supported":[{}]"#, q.join(",")), &aro(Some("decentralized_identifier:did:ex:abc")), DID_TOKEN, None, Some(key(K1_JWK)));
        judge(ok, l.iter().any(|x| x.as_bytes() == b"ES256"), "a request signed with an algorithm the wallet does not list was accepted");
    }
    // the key identifier: which key is asked for, and whether any
    c07_kid {
        let n = pick(if thorough() { &[0, 1, 10, 11, 12, 13, 14] } else { &[0, 10, 11, 12, 13] });
        let kid = string(n, CH);
        let pre = pick(&["", P]);
        let t = jwt(&format!(r#"{{"alg":"ES256","kid":"{kid}","typ":"oauth-authz-req+jwt"}}"#), "{}", "c2ln");
        let (ok, asked) = run(ALGS, &aro(Some(&format!("{pre}{DID}"))), &t, None, None);
        check(!ok, "a request whose key cannot be resolved was accepted");
        let same = n > 10 && eq(&kid[..11], "did:ex:abc#");
        if same {
            cover("resolved");
            check(asked.len() == 1 && asked[0].as_ref().map_or(false, |a| eq(a, &kid)), "another key than the one named by the token was asked for");
        } else {
            cover("not resolved");
            check(asked.is_empty(), "a key of another DID than the client's was asked for");
        }
    }
    // signatures: any one byte of it changed, another payload, another key, other lengths
    c07_signature {
        let parts: Vec<&str> = DID_TOKEN.split('.').collect();
        let sig = unb64(parts[2]);
        let (t, k, want) = match choose(11) {
            7 => (DID_TOKEN_JWK.to_string(), K1_JWK, false),
            8 => (DID_TOKEN_2.to_string(), K1_JWK, true),
            9 => (format!("{}.{}.{}AA", parts[0], parts[1], parts[2]), K1_JWK, false),
            0 => (DID_TOKEN.to_string(), K1_JWK, true),
            1 => (DID_TOKEN.to_string(), K2_JWK, false),
            2 => { let mut s = sig.clone(); let i = if thorough() { choose(64) } else { pick(&[0, 31, 32, 63]) }; s[i] ^= 1; (format!("{}.{}.{}", parts[0], parts[1], b64url(&s)), K1_JWK, false) }
            3 => { let o: Vec<&str> = DID_TOKEN_2.split('.').collect(); (format!("{}.{}.{}", parts[0], o[1], parts[2]), K1_JWK, false) }
            4 => (format!("{}.{}.{}", parts[0], parts[1], b64url(&sig[..choose(2) * 63])), K1_JWK, false),
            5 => (format!("{}.{}.", parts[0], parts[1]), K1_JWK, false),
            6 => (format!("{}.{}.{}", b64url(r#"{"alg":"ES256","kid":"did:ex:abc#k2","typ":"oauth-authz-req+jwt"}"#), parts[1], parts[2]), K1_JWK, false),
            _ => (format!("{}.{}.{}", parts[0], parts[1], b64url(vec![0u8; 64])), K1_JWK, false),
        };
        let (ok, _) = run(ALGS, &aro(Some("decentralized_identifier:did:ex:abc")), &t, None, Some(key(k)));
        judge(ok, want, "a request whose signature does not verify under the client's key was accepted");
    }
    // unsigned tokens: only for a wallet that lists "none"
    c07_unsigned {
        let alg = string(pick(&[4, 5]), CH);
        let l = string(pick(if alg.len() == 4 { &[3, 4, 5] } else { &[5] }), CH);
        let t = jwt(&format!(r#"{{"alg":"{alg}","kid":"did:ex:abc#k1"}}"#), "{}", "");
        let (ok, _) = run(&format!(r#""request_object_signing_alg_values_supported":["ES256","{l}"]"#), &aro(Some("decentralized_identifier:did:ex:abc")), &t, None, None);
        let want = eq(&alg, "none") & eq(&l, "none");
        cover(if want { "unsigned accepted" } else { "unsigned rejected" });
        check(ok == want, "an unsigned request was accepted that the wallet does not list, or rejected though it does");
    }
    // headers and metadata that cannot be read
    c07_malformed {
        let h = match choose(9) {
            0 => r#"{"kid":"did:ex:abc#k1"}"#, 1 => r#"{"alg":["ES256"],"kid":"did:ex:abc#k1"}"#, 2 => r#"{"alg":"ES256"}"#, 3 => r#"{"alg":"ES256","kid":["did:ex:abc#k1"]}"#,
            4 => r#"{"alg":null,"kid":"did:ex:abc#k1"}"#, 5 => r#"{"alg":"ES256","kid":null}"#, 6 => r#"["alg","ES256"]"#, 7 => r#"{"alg":"ES256","kid":"did:ex:abc"}"#, _ => r#"{"alg":"ES256","kid":"did:ex:abc#k1"}"#,
        };
        let good = h.ends_with(r#"k1"}"#) && h.starts_with(r#"{"alg":"ES256","#);
        let md = if good { pick(&["", r#""request_object_signing_alg_values_supported":"ES256""#, r#""request_object_signing_alg_values_supported":[["ES256"]]"#, r#""request_object_signing_alg_values_supported":null"#]) } else { ALGS };
        let client = if flag() { Some("decentralized_identifier:did:ex:abc") } else { None };
        let (ok, asked) = run(md, &aro(client), &jwt(h, "{}", "c2ln"), None, Some(key(K1_JWK)));
        cover("malformed");
        check(!ok && asked.is_empty(), "a request with an unreadable header, or for a wallet without readable algorithms, was accepted");
        if good {
            let (ok, _) = run(ALGS, &aro(None), DID_TOKEN, None, Some(key(K1_JWK)));
            check(!ok, "a request without client identifier was accepted for a DID");
        }
    }
}
