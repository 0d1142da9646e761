//! Dispatch: which verification method decides a request, and what it is shown.
use crate::fx::*;
use crate::vsym::*;
use openid4vp::core::authorization_request::{AuthorizationRequest, RequestIndirection};

pub fn method_for(p: &str) -> &'static str {
    match p {
        "decentralized_identifier" => "decentralized_identifier",
        "openid_federation" => "openid_federation",
        "redirect_uri" => "redirect_uri",
        "verifier_attestation" => "verifier_attestation",
        "x509_san_dns" => "x509_san_dns",
        "x509_hash" => "x509_hash",
        _ => "other",
    }
}
const ALL: &str = r#""decentralized_identifier","openid_federation","redirect_uri","verifier_attestation","x509_san_dns","x509_hash","origin","pre-registered""#;
const LENS: &[usize] = &[0, 1, 6, 9, 10, 12, 13, 14, 17, 18, 20, 21, 24, 25, 26];

const REST: &str = r#""nonce":"n","response_mode":"direct_post","response_type":"vp_token","response_uri":"https://v/r""#;
fn dispatch(n: usize, kind: usize) { decide(string(n, IDCHARS), kind, REST, if n % 2 == 0 { HDR } else { r#"{"typ":"oauth-authz-req+jwt","alg":"none"}"# }, "c2ln", flag()) }
fn decide(id: String, kind: usize, rest: &str, hdr: &str, sig: &str, accept: bool) {
    let colon = id.bytes().position(|b| b == b':');
    let prefix = colon.map(|i| id[..i].to_string());
    // the wallet advertises the known prefixes, and whatever prefix this client has
    let own = prefix.clone().unwrap_or_default();
    let md = metadata(&format!(r#""client_id_prefixes_supported":[{ALL},"{own}"]"#));
    let payload = format!(r#"{{"client_id":"{id}",{rest}}}"#);
    let token = jwt(hdr, &payload, sig);
    let (ind, http, sent) = match kind {
        0 => (RequestIndirection::ByValue { request: token.clone() }, Http::none(), Some(token)),
        1 => (RequestIndirection::ByReference { request_uri: "https://v/ro".parse().unwrap() }, Http::answering(200, token.clone().into_bytes()), Some(token)),
        _ => (RequestIndirection::Direct(obj(&format!("{{{rest}}}"))), Http::none(), None),
    };
    let w = W::new(md, http, accept);
    let ar = AuthorizationRequest { client_id: if kind == 2 || flag() { Some(id.clone()) } else { None }, request_indirection: ind };
    let r = block_on(ar.validate(&w));
    outcome(&r);
    let calls = w.calls.0.borrow();
    let (want, wantp) = match &prefix {
        None => (Some("preregistered"), String::new()),
        Some(p) if p == "origin" => (None, String::new()),
        Some(p) => { let m = method_for(p); (Some(m), if m == "other" { p.clone() } else { String::new() }) }
    };
    match want {
        None => {
            cover("origin");
            check(r.is_err(), "a request with the reserved prefix 'origin' was accepted");
            check(calls.is_empty(), "a request with the reserved prefix 'origin' reached a verifier");
        }
        Some(m) => {
            cover(m);
            check(calls.len() == 1, "not exactly one verification method decided the request");
            if calls.len() != 1 { return; }
            let c = &calls[0];
            check(c.method == m, "a verification method of another client identifier prefix decided the request");
            check(eq(&c.prefix, &wantp), "the extension verifier was told another prefix");
            check(r.is_ok() == accept, "the outcome is not the verifier's");
            check(match (&c.jwt, &sent) { (Some(a), Some(b)) => eq(a, b), (None, None) => true, _ => false }, "the verifier was not given the token that was received");
            check(eq(c.object.to_string(), json(&payload).to_string()), "the verifier was shown another request than the one received");
            if let Ok(o) = &r {
                cover("accepted");
                let o: serde_json::Value = openid4vp::core::object::UntypedObject::from(o.clone()).into();
                check(eq(o.to_string(), json(&payload).to_string()), "the accepted request is not the one received");
            } else { cover("rejected"); }
        }
    }
}
/// A wallet that implements no verification method.
struct Bare(openid4vp::core::metadata::WalletMetadata, Http);
impl openid4vp::core::authorization_request::verification::RequestVerifier for Bare {}
impl openid4vp::wallet::Wallet for Bare {
    type HttpClient = Http;
    fn metadata(&self) -> &openid4vp::core::metadata::WalletMetadata { &self.0 }
    fn http_client(&self) -> &Http { &self.1 }
}
const KNOWN: &[&str] = &["decentralized_identifier", "openid_federation", "redirect_uri", "verifier_attestation", "x509_san_dns", "x509_hash", "origin", "pre-registered"];
const KEY: &str = r#"{"kty":"EC","crv":"P-256","use":"enc","alg":"ECDH-ES","kid":"k","x":"AA","y":"AA"}"#;
/// Requests that differ in everything but the client.
fn request(k: usize) -> String {
    match k {
        0 => REST.into(),
        1 => r#""nonce":"","response_mode":"dc_api","response_type":"vp_token","expected_origins":["https://v"],"state":"s""#.into(),
        2 => format!(r#""nonce":"n","response_mode":"dc_api.jwt","response_type":"vp_token","client_metadata":{{"jwks":{{"keys":[{KEY}]}}}}"#),
        3 => format!(r#""nonce":"n","response_mode":"direct_post.jwt","response_type":"vp_token id_token","response_uri":"http://v/r","client_metadata":{{"jwks":{{"keys":[{KEY}]}}}}"#),
        // the default response mode
        4 => format!(r#""nonce":"n","response_type":"vp_token","response_uri":"https://v/r","x":null,{EVERY}"#),
        _ => r#""nonce":"n","response_type":"vp_token","response_uri":"https://v/r","response_mode":"direct_post","dcql_query":{"credentials":[]},"client_id_scheme":"x509_hash","request_uri":"https://v/2","iss":"i","aud":"https://self-issued.me/v2""#.into(),
    }
}
crate::entries! {
    // a known prefix with a character of any class more or other, at any place; long identifiers
    c01_wide {
        let tail = || pick(&["", "x", "x509_hash:y", "//h/p?q#f"]);
        let id = match choose(4) {
            0 => format!("{}:{}", near(pick(KNOWN)), if thorough() { tail() } else { "x" }),
            1 => format!("{}:{}{}", pick(KNOWN), filler(pick(&[60, 250, 1030])), string(2, IDCHARS)),
            2 => format!("{}{}:x", filler(pick(&[20, 70, 260])), string(2, IDCHARS)),
            _ => format!("{}{}", filler(pick(&[20, 70, 260])), string(2, IDCHARS)),
        };
        decide(id, if thorough() { choose(3) } else { 0 }, REST, HDR, "c2ln", true)
    }
    // whatever else the request says, and however its token is signed
    c01_context {
        let id = format!("{}{}", pick(KNOWN), string(2, ":a"));
        let k = choose(6);
        let (hdr, sig) = *[(HDR, "c2ln"), (r#"{"alg":"none","typ":"oauth-authz-req+jwt"}"#, ""), (r#"{"alg":"ES256","kid":"did:a:b#c","typ":"oauth-authz-req+jwt","x5c":[]}"#, "")].get(k % 3).unwrap();
        decide(id, choose(3), &request(k), hdr, sig, flag())
    }
    // what was decided before does not matter
    c01_again {
        let id = |k: usize| format!("{}:a", ["x509_hash", "redirect_uri", "zz"][k]);
        let (a, b) = (choose(3), choose(3));
        let (x, y) = (flag(), flag());
        let k = choose(3);
        decide(id(a), k, REST, HDR, "c2ln", x);
        decide(id(b), k, &request(if a == b { 0 } else { 1 }), HDR, "c2ln", y);
        cover("again");
        if a != b { decide(id(a), k, REST, HDR, "c2ln", !x); }
    }
    // no client identifier at all
    c01_absent {
        let (k, kind, accept) = (choose(6), choose(3), flag());
        let rest = format!("{{{}}}", request(k));
        let hdr = pick(&[HDR, r#"{"alg":"none","typ":"oauth-authz-req+jwt"}"#, r#"{"alg":"ES256","kid":"x509_hash:a","typ":"oauth-authz-req+jwt","client_id":"x509_hash:a"}"#]);
        let token = jwt(hdr, &rest, "c2ln");
        let (ind, http, sent) = match kind {
            0 => (RequestIndirection::ByValue { request: token.clone() }, Http::none(), Some(token)),
            1 => (RequestIndirection::ByReference { request_uri: "https://v/ro".parse().unwrap() }, Http::answering(200, token.clone().into_bytes()), Some(token)),
            _ => (RequestIndirection::Direct(obj(&rest)), Http::none(), None),
        };
        let w = W::new(metadata(&format!(r#""client_id_prefixes_supported":[{}]"#, if flag() { ALL } else { "" })), http, accept);
        let r = block_on(AuthorizationRequest { client_id: None, request_indirection: ind }.validate(&w));
        outcome(&r);
        cover("absent");
        let calls = w.calls.0.borrow();
        check(calls.len() == 1, "not exactly one verification method decided the request");
        if calls.len() != 1 { return; }
        check(calls[0].method == "preregistered", "a verification method of another client identifier prefix decided the request");
        check(r.is_ok() == accept, "the outcome is not the verifier's");
        check(calls[0].jwt == sent, "the verifier was not given the token that was received");
        check(calls[0].object == json(&rest), "the verifier was shown another request than the one received");
    }
    // a method the wallet does not implement accepts nothing
    c01_unimplemented {
        let n = if thorough() { choose(27) } else { pick(&[2, 6, 10, 13, 14, 18, 21, 25]) };
        let id = string(n, IDCHARS);
        let own = id.bytes().position(|b| b == b':').map_or(String::new(), |i| id[..i].to_string());
        let rest = r#""nonce":"n","response_mode":"direct_post","response_type":"vp_token","response_uri":"https://v/r""#;
        let ind = if flag() { RequestIndirection::Direct(obj(&format!("{{{rest}}}"))) } else { RequestIndirection::ByValue { request: jwt(HDR, &format!(r#"{{"client_id":"{id}",{rest}}}"#), "c2ln") } };
        let w = Bare(metadata(&format!(r#""client_id_prefixes_supported":[{ALL},"{own}"]"#)), Http::none());
        let r = block_on(AuthorizationRequest { client_id: Some(id), request_indirection: ind }.validate(&w));
        outcome(&r);
        cover("unimplemented");
        check(r.is_err(), "a request was accepted without the wallet implementing the verification method for it");
    }
    c01_dispatch_value { dispatch(if thorough() { choose(31) } else { pick(LENS) }, 0) }
    c01_dispatch_reference { dispatch(if thorough() { choose(27) } else { pick(&[0, 6, 7, 10, 14, 25]) }, 1) }
    c01_dispatch_direct { dispatch(if thorough() { choose(27) } else { pick(&[0, 6, 7, 10, 14, 25]) }, 2) }
}
