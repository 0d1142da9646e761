//! Nothing a peer sends makes the library panic or run without end: it is accepted or rejected.
use crate::fixtures::*;
use crate::fx::*;
use crate::vsym::*;
use crate::x5::{self, header};
use openid4vp::core::authorization_request::parameters::{ClientId, ClientMetadata, ResponseMode, ResponseType};
use openid4vp::core::authorization_request::verification::did::verify_with_resolver;
use openid4vp::core::authorization_request::verification::verifier::P256Verifier;
use openid4vp::core::authorization_request::verification::{x509_hash, x509_san};
use openid4vp::core::authorization_request::{AuthorizationRequest, AuthorizationRequestObject, RequestIndirection};
use openid4vp::core::credential_format::{ClaimFormatDesignation, ClaimFormat, ClaimFormatMap, ClaimFormatPayload};
use openid4vp::core::dcql_query::DcqlQuery;
use openid4vp::core::iso_18013_7::{compute_jwk_thumbprint, get_encryption_jwk_thumbprint, Handover, SessionTranscript};
use openid4vp::core::metadata::WalletMetadata;
use openid4vp::core::object::UntypedObject;
use openid4vp::core::response::parameters::{VpToken, VpTokenItem};
use openid4vp::core::response::{AuthorizationResponse, UnencodedAuthorizationResponse};
use openid4vp::verifier::session::Status;
use openid4vp::wallet::Wallet;
use ssi_jwk::{JWKResolver, JWK};
use std::borrow::Cow;

/// Text nobody expects: of no or great length, of one kind of separator, with characters of every width at every offset.
fn odd() -> String {
    match choose(7) {
        0 => string(1, IDCHARS),
        1 => pick(&["", ":", "::", ":x", "x:", "#", "#k", "did:", ".", "..", "....", "%", "%zz", "%F0", "-", "_", "=", " ", "\u{0}", "\n"]).to_string(),
        2 => format!("{}{}", pick(&["", "x"]), "\u{e9}".repeat(1100)),
        3 => format!("{}{}", pick(&["x", "xx"]), "\u{1f511}".repeat(20)),
        4 => format!("x509_san_dns:{}", pick(&["", "\u{e9}", ".", "*", "*.", ":"])),
        5 => pick(&["https://", "https://v", "http:", "data:,", "https://[::1", "https://v:99999/", "//v", "urn:x"]).to_string(),
        _ => filler(2000),
    }
}
fn quote(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' | '\\' => { o.push('\\'); o.push(c) } '\0' => o.push_str("\\u0000"), '\n' => o.push_str("\\n"), _ => o.push(c) } } o.push('"'); o }
/// A JSON value nobody expects.
fn odd_json() -> String {
    match choose(3) {
        0 => quote(&odd()),
        1 => pick(&["null", "true", "0", "-1", "1.5", "1e300", "18446744073709551615", "-9223372036854775808", "[]", "{}", "[null]", "[\"\"]", "[[]]", "[{}]", "{\"\":null}", "{\"keys\":[]}", "{\"keys\":[{}]}", "{\"mso_mdoc\":{}}", "{\"mso_mdoc\":null}"]).to_string(),
        _ => match choose(3) { 0 => format!("[{}]", quote(&odd())), 1 => format!("{{{}:{{}}}}", quote(pick(&["", "\u{e9}", "\u{1f511}\u{1f511}", "ldp_vp"]))), _ => format!("{}{}", "[".repeat(100), "]".repeat(100)) },
    }
}
fn parse(s: &str) -> Option<UntypedObject> { serde_json::from_str(s).ok() }
/// Everything that can be asked of a request.
fn ask(o: &AuthorizationRequestObject) {
    let _ = (o.client_id().map(|c| c.resolve_prefix()), o.client_id_scheme(), o.is_id_token_requested(), o.response_type(), o.vp_formats().is_ok());
    let _ = (o.response_mode().is_jarm().is_ok(), o.return_uri().as_str().len(), o.nonce().to_string(), o.state().map(|s| s.is_ok()));
    if let Some(Ok(q)) = o.dcql_query() { look(&q); }
    if let Ok(m) = o.client_metadata() { meta(&m); }
    let t = get_encryption_jwk_thumbprint(o);
    let h = Handover::new(o.client_id().map_or("", |c| &c.0), &o.nonce().to_string(), t.as_ref().map(|x| &x[..]), o.return_uri().as_str());
    if let Ok(h) = h { let _ = SessionTranscript::new(h).to_cbor_bytes().is_ok(); }
    let _ = crate::jwe::build_encrypted_response(o, &VpToken::with_credential("q", vec![VpTokenItem::String("p".into())]), None).is_ok();
}
fn meta(m: &ClientMetadata) { let _ = (m.jwks().map(|j| j.is_ok()), m.vp_formats().is_ok(), m.encrypted_response_enc_values_supported().is_ok()); }
fn look(q: &DcqlQuery) {
    for c in q.credentials() {
        let _ = (c.id(), c.format(), c.meta().len(), c.multiple(), c.require_cryptographic_holder_binding(), c.claim_sets().map(|l| l.len()));
        for a in c.trusted_authorities().map_or(&[][..], |l| &l[..]) { let _ = (a.authority_type(), a.values().len()); }
        for k in c.claims().map_or(&[][..], |l| &l[..]) { let _ = (k.id(), k.path().len(), k.namespace(), k.element_identifier(), k.claim_name(), k.intent_to_retain()); }
    }
    for s in q.credential_sets().map_or(&[][..], |l| &l[..]) { let _ = (s.is_required(), s.options().len()); }
    let _ = serde_json::to_string(q).is_ok();
}
struct Res(JWK);
impl JWKResolver for &Res {
    async fn fetch_public_jwk(&'_ self, _: Option<&str>) -> Result<Cow<'_, JWK>, ssi_claims::ProofValidationError> { Ok(Cow::Borrowed(&self.0)) }
}
const ALGS: &str = r#""request_object_signing_alg_values_supported":["ES256","EdDSA"]"#;
const ENCS: &str = r#""request_object_signing_alg_values_supported":["ES256"],"authorization_encryption_alg_values_supported":["ECDH-ES"],"authorization_encryption_enc_values_supported":["A128GCM"]"#;
/// All three verifications of a token, for a client and a token as they come.
fn verify(o: &AuthorizationRequestObject, token: &str, trusted: &[String]) {
    let md = metadata(ALGS);
    let r = Res(serde_json::from_str(K1_JWK).unwrap());
    let _ = block_on(verify_with_resolver(&md, o, token.into(), Some(trusted), &r)).is_ok();
    let _ = block_on(verify_with_resolver(&md, o, token.into(), None, &r)).is_ok();
    *x5::SEEN.0.borrow_mut() = Some(x5::Seen { key_ok: true, sig_ok: true, ..Default::default() });
    let _ = x509_san::validate::<x5::Rec>(&md, o, token.into(), None).is_ok();
    let _ = x509_hash::validate::<x5::Rec>(&md, o, token.into(), None).is_ok();
    let _ = x509_san::validate::<P256Verifier>(&md, o, token.into(), None).is_ok();
}
fn validate(request: AuthorizationRequest, body: Vec<u8>) { let w = W::new(metadata(ENCS), Http::answering(200, body), true); if let Ok(o) = block_on(request.validate(&w)) { ask(&o); } }
fn by_value(t: String) -> AuthorizationRequest { AuthorizationRequest { client_id: if flag() { Some("c".into()) } else { None }, request_indirection: RequestIndirection::ByValue { request: t } } }
const MEMBERS: &[(&str, &str)] = &[("client_id", "\"c\""), ("nonce", "\"n\""), ("response_mode", "\"direct_post\""), ("response_type", "\"vp_token\""), ("response_uri", "\"https://v/r\""), ("redirect_uri", ""), ("state", "\"s\""), ("dcql_query", r#"{"credentials":[{"id":"q","format":"f","meta":{}}]}"#), ("client_metadata", r#"{"vp_formats_supported":{}}"#), ("client_id_scheme", ""), ("expected_origins", ""), ("transaction_data", ""), ("verifier_info", ""), ("request_uri_method", ""), ("aud", "")];
fn object(k: &str, v: &str, drop: &str) -> String {
    let l: Vec<String> = MEMBERS.iter().filter(|m| m.0 != drop).filter_map(|m| { let v = if m.0 == k { v } else { m.1 }; if v.is_empty() { None } else { Some(format!("\"{}\":{v}", m.0)) } }).collect();
    format!("{{{}}}", l.join(","))
}
crate::entries! {
    // every parameter of a request object
    c28_object {
        let k = choose(MEMBERS.len());
        // a redirect URI only counts without a response URI
        let t = object(MEMBERS[k].0, &odd_json(), if MEMBERS[k].0 == "redirect_uri" { "response_uri" } else if MEMBERS[k].0 == "client_id_scheme" && flag() { "client_id" } else { "" });
        cover("object");
        if let Some(o) = parse(&t) {
            validate(AuthorizationRequest { client_id: None, request_indirection: RequestIndirection::Direct(o.clone()) }, vec![]);
            if let Ok(o) = AuthorizationRequestObject::try_from(o) { ask(&o); }
        }
        validate(by_value(jwt(HDR, &t, "c2ln")), vec![]);
    }
    // everything about the verifier in a request with an encrypted response
    c28_metadata {
        let v = odd_json();
        let key = |k: &str| { let l: Vec<String> = [("kty", "\"EC\""), ("crv", "\"P-256\""), ("x", "\"eA\""), ("y", "\"eQ\""), ("alg", "\"ECDH-ES\""), ("use", "\"enc\""), ("kid", "\"k\"")].iter().map(|m| format!("\"{}\":{}", m.0, if m.0 == k { &v } else { m.1 })).collect(); format!("{{{}}}", l.join(",")) };
        let (jwks, enc, fmt) = match choose(12) {
            0 => (v.clone(), "[\"A128GCM\"]".into(), "{}".into()), 1 => (format!("{{\"keys\":{v}}}"), "[\"A128GCM\"]".into(), "{}".into()), 2 => (format!("{{\"keys\":[{v}]}}"), "[\"A128GCM\"]".into(), "{}".into()),
            3 => (format!("{{\"keys\":[{}]}}", key("")), v.clone(), "{}".into()), 4 => (format!("{{\"keys\":[{}]}}", key("")), format!("[{v}]"), "{}".into()),
            5 => (format!("{{\"keys\":[{}]}}", key("")), "[\"A128GCM\"]".into(), v.clone()), 6 => (format!("{{\"keys\":[{}]}}", key("")), "[\"A128GCM\"]".to_string(), format!("{{\"mso_mdoc\":{v}}}")),
            i => (format!("{{\"keys\":[{},{}]}}", key(["kty", "crv", "x", "alg", "kid"][i - 7]), key("use")), "[\"A128GCM\"]".into(), "{}".into()),
        };
        cover("metadata");
        let t = object("client_metadata", &format!(r#"{{"jwks":{jwks},"encrypted_response_enc_values_supported":{enc},"vp_formats_supported":{fmt}}}"#), "").replace("\"direct_post\"", "\"direct_post.jwt\"");
        validate(by_value(jwt(HDR, &t, "c2ln")), vec![]);
    }
    // tokens whose parts are not what they should be, by value and fetched
    c28_token {
        let p = object("", "", "");
        let t = match choose(5) {
            0 => odd(),
            1 => { let o = odd(); let l = [b64url(HDR), b64url(&p), "c2ln".to_string()]; let i = choose(3); format!("{}.{}.{}", if i == 0 { &o } else { &l[0] }, if i == 1 { &o } else { &l[1] }, if i == 2 { &o } else { &l[2] }) }
            2 => format!("{}{}", jwt(HDR, &p, "c2ln"), pick(&[".", "..", ".x", "\u{e9}", "\n"])),
            3 => { let x = odd(); if flag() { jwt(&x, &p, "c2ln") } else { jwt(HDR, &x, "c2ln") } }
            _ => { let x = odd_json(); if flag() { jwt(&x, &p, "c2ln") } else { jwt(HDR, &x, "c2ln") } }
        };
        cover("token");
        validate(by_value(t.clone()), vec![]);
        let r = AuthorizationRequest { client_id: None, request_indirection: RequestIndirection::ByReference { request_uri: "https://v/r".parse().unwrap() } };
        validate(r, t.clone().into_bytes());
        let o = parse(&p).unwrap().try_into().unwrap();
        verify(&o, &t, &[]);
    }
    // bodies of any bytes
    c28_bytes {
        let mut b = pick(&[vec![], b"a".to_vec(), b"a.b.".to_vec()]);
        b.extend(bytes(2, &[]));
        cover("bytes");
        let r = AuthorizationRequest { client_id: None, request_indirection: RequestIndirection::ByReference { request_uri: "https://v/r".parse().unwrap() } };
        validate(r, b);
    }
    // every member of a token's header, and the client it is checked for
    c28_header {
        let k = choose(7);
        let client = if k == 6 { odd_json() } else { match choose(3) { 0 => quote("decentralized_identifier:did:ex:abc"), 1 => quote("x509_san_dns:v.example"), _ => quote(&format!("x509_hash:{CERT_C_HASH}")) } };
        let v = if k == 6 { String::new() } else { odd_json() };
        let c = format!("[\"{}\"]", b64std(CERT_C));
        let (alg, typ, kid, x5c) = ("\"ES256\"", "\"oauth-authz-req+jwt\"", "\"did:ex:abc#k1\"", &c[..]);
        let h = match k { 0 => format!(r#"{{"alg":{v},"typ":{typ},"kid":{kid},"x5c":{x5c}}}"#), 1 => format!(r#"{{"alg":{alg},"typ":{v},"kid":{kid},"x5c":{x5c}}}"#), 2 => format!(r#"{{"alg":{alg},"typ":{typ},"kid":{v},"x5c":{x5c}}}"#), 3 => format!(r#"{{"alg":{alg},"typ":{typ},"kid":{kid},"x5c":{v}}}"#), 4 => format!(r#"{{"alg":{alg},"typ":{typ},"kid":{kid},"x5c":[{v}]}}"#), 5 => format!(r#"{{"alg":{alg},"typ":{typ},"kid":{kid},"x5c":{x5c},"crit":{v},"jwk":{v},"b64":{v}}}"#), _ => format!(r#"{{"alg":{alg},"typ":{typ},"kid":{kid},"x5c":{x5c}}}"#) };
        let t = jwt(&h, "{}", if k == 6 { pick(&["c2ln", "", "AAAA"]) } else { "c2ln" });
        cover("header");
        let Some(Ok(o)) = parse(&object("client_id", &client, "")).map(AuthorizationRequestObject::try_from) else { return };
        verify(&o, &t, &["did:ex:abc".into(), String::new(), "\u{e9}".into()]);
        validate(by_value(t), vec![]);
    }
    // texts of which one part is odd
    c28_parts {
        let k = choose(11);
        let t = odd();
        let client = match k { 2 => format!("decentralized_identifier:{t}"), 3 => format!("x509_san_dns:{t}"), 4 => format!("x509_hash:{t}"), 5 => format!("redirect_uri:{t}"), 6 => format!("{t}:x"), 7 => format!("did:{t}"), _ => "decentralized_identifier:did:ex:abc".into() };
        let kid = match k { 0 => format!("{t}#k"), 1 => format!("did:ex:abc#{t}"), _ => "did:ex:abc#k1".to_string() };
        let typ = if k == 8 { format!("application/{t}") } else { "oauth-authz-req+jwt".into() };
        let (name, value) = match k { 9 => ("response_mode", format!("direct_post{t}")), 10 => ("response_uri", format!("https://v.example/{t}")), _ => ("client_id", client) };
        let b = object(name, &quote(&value), "");
        let t = jwt(&format!(r#"{{"alg":"ES256","typ":{},"kid":{},"x5c":["{}"]}}"#, quote(&typ), quote(&kid), b64std(CERT_C)), &b, "c2ln");
        cover("parts");
        validate(by_value(t.clone()), vec![]);
        let Some(Ok(o)) = parse(&b).map(AuthorizationRequestObject::try_from) else { return };
        verify(&o, &t, &["did:ex:abc".into()]);
    }
    // certificates that end too soon, or have something else in one place
    c28_certificate {
        let c = pick(&[CERT_A, CERT_C, CERT_MANY]);
        let i = if thorough() { choose(c.len()) } else { pick(&[0, 1, 2, 3, 4, 9, 13, 30, 31, 32, 33, 60, 120, 121, 180, 200, 236, 240, 250, 253, 260, 270, 280, 290, 300, 310, 320, 330]) };
        let mut d = c.to_vec();
        match choose(4) { 0 => d.truncate(i), 1 => d[i] = d[i].wrapping_add(1), 2 => d[i] = 0xff, _ => d[i] = 0 }
        let t = jwt(&header("ES256", &[&d]), "{}", "AAAA");
        cover("certificate");
        let Some(Ok(o)) = parse(&object("client_id", &quote(pick(&["x509_san_dns:v.example", "x509_hash:abc"])), "")).map(AuthorizationRequestObject::try_from) else { return };
        verify(&o, &t, &[]);
    }
    // links
    c28_url {
        let e: url::Url = pick(&["openid4vp:", "https://w.example/a"]).parse().unwrap();
        let q = match choose(5) { 0 => string(bound(2, 3), "=&%+a1?#"), 1 => format!("request={}", odd()), 2 => format!("request_uri={}&client_id={}", odd(), pick(&["c", ""])), 3 => format!("client_id={}&{}", odd(), pick(&["request=a", "request_uri=https://v/r", "x=y"])), _ => format!("{}={}", pick(&["nonce", "response_type", "dcql_query", "x[0]", "", "request[a]", "client_id[]"]), odd()) };
        cover("url");
        if let Ok(r) = AuthorizationRequest::from_query_params(&q) { validate(r, vec![]); }
        let Ok(u) = url::Url::parse(&format!("{e}?{q}")) else { return };
        let w = W::new(metadata(ENCS), Http::answering(200, vec![]), true);
        if let Ok(o) = block_on(w.validate_request(u)) { ask(&o); }
    }
    // what a verifier answers to a response
    c28_answer {
        let b = match choose(4) { 0 => bytes(2, &[]), 1 => odd().into_bytes(), 2 => odd_json().into_bytes(), _ => format!(r#"{{"redirect_uri":{}}}"#, odd_json()).into_bytes() };
        let s = pick(&[200u16, 302, 404, 999]);
        cover("answer");
        let w = W::new(metadata(ENCS), Http::answering(s, b), true);
        let o = parse(&object("", "", "")).unwrap().try_into().unwrap();
        let _ = block_on(w.submit_response(o, AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::new(VpToken::with_credential("q", vec![]))))).is_ok();
    }
    // what is answered when a request is fetched, whatever the status
    c28_fetched {
        let b = match choose(3) { 0 => bytes(2, &[]), 1 => odd().into_bytes(), _ => format!("{}.{}.{}", pick(&["", "e30", "e"]), odd(), pick(&["", "AA"])).into_bytes() };
        let s = pick(&[200u16, 204, 302, 404, 500, 999]);
        cover("fetched");
        let w = W::new(metadata(ENCS), Http::answering(s, b), true);
        let r = AuthorizationRequest { client_id: Some("c".into()), request_indirection: RequestIndirection::ByReference { request_uri: "https://v.example/r".parse().unwrap() } };
        if let Ok(o) = block_on(r.validate(&w)) { ask(&o); }
    }
    // what a wallet sends
    c28_response {
        let k = choose(7);
        if k == 6 { if let Some(o) = parse(&format!(r#"{{"vp_token":{},"state":{}}}"#, odd_json(), pick(&["\"s\"", "7", "null"]))) { let _ = UnencodedAuthorizationResponse::try_from(o).is_ok(); } return; }
        let f: Vec<u8> = match k {
            0 => bytes(bound(2, 3), b"=&%+a1\x80\xff\0"),
            1 => format!("vp_token={}", odd()).into_bytes(), 2 => format!("vp_token={}&state={}", if flag() { odd_json() } else { "{}".into() }, pick(&["", "%", "\u{e9}", "x"])).into_bytes(), 3 => format!("vp_token=%7B%22q%22%3A{}%7D", odd_json()).into_bytes(),
            4 => format!("response={}&state={}", odd(), pick(&["", "x"])).into_bytes(),
            _ => format!("{}={}&vp_token=%7B%22q%22%3A%5B{}%5D%7D", pick(&["state", "", "x[0]", "vp_token"]), pick(&["", "%", "x"]), odd_json()).into_bytes(),
        };
        cover("response");
        match AuthorizationResponse::from_x_www_form_urlencoded(&f) {
            Ok(AuthorizationResponse::Unencoded(u)) => { for (k, l) in u.vp_token().iter() { let _ = (k.len(), l.len()); } let _ = u.state().map(|s| s.0.len()); let _ = u.into_x_www_form_urlencoded().is_ok(); }
            Ok(AuthorizationResponse::Jwt(j)) => { let _ = j.into_x_www_form_urlencoded().is_ok(); }
            Err(_) => {}
        }
    }
    // what a wallet says of itself
    c28_wallet {
        let k = choose(9);
        let n = ["authorization_endpoint", "vp_formats_supported", "client_id_prefixes_supported", "request_object_signing_alg_values_supported", "authorization_encryption_alg_values_supported", "authorization_encryption_enc_values_supported", "response_types_supported", "issuer", "x"][k];
        let v = odd_json();
        let mut t = String::from("{");
        if k != 0 { t.push_str(r#""authorization_endpoint":"openid4vp:","#); }
        if k != 1 { t.push_str(r#""vp_formats_supported":{},"#); }
        t.push_str(&format!("\"{n}\":{v}}}"));
        cover("wallet");
        let (Some(o), j) = (parse(&t), serde_json::from_str::<WalletMetadata>(&t)) else { return };
        let _ = j.is_ok();
        let Ok(m) = WalletMetadata::try_from(o) else { return };
        let _ = (m.authorization_endpoint(), m.vp_formats_supported().is_claim_format_supported(&ClaimFormatDesignation::MsoMDoc), m.vp_formats_supported().is_claim_format_supported(&ClaimFormatDesignation::Other(odd_name())));
        let c = crate::vf::Cl::new("p:x", "p");
        let ver = block_on(openid4vp::verifier::Verifier::builder().with_client(c).with_session_store(crate::vf::Rec::new(true)).with_submission_endpoint("https://v.example".parse().unwrap()).with_default_request_parameter(ResponseType::VpToken).with_default_request_parameter(ResponseMode::DirectPost).build()).unwrap();
        let r = block_on(ver.build_authorization_request().with_dcql_query(crate::vf::query()).with_request_parameter(openid4vp::core::authorization_request::parameters::Nonce::from("n")).build_with_session_id(uuid::Uuid::nil(), m.clone()));
        let _ = r.is_ok();
        let w = W::new(m, Http::none(), true);
        let _ = block_on(by_value(jwt(HDR, &object("", "", "").replace("\"direct_post\"", "\"direct_post.jwt\""), "c2ln")).validate(&w)).is_ok();
    }
    // what is asked for
    c28_query {
        let v = odd_json();
        let t = match choose(13) {
            // one claim whose path is, begins or goes on with anything
            12 => format!(r#"{{"credentials":[{{"id":"q","format":"f","meta":{{}},"claims":[{{"path":{}}}]}}]}}"#, match choose(3) { 0 => v.clone(), 1 => format!("[{v}]"), _ => format!(r#"["a",{v}]"#) }),
            0 => v.clone(), 1 => format!(r#"{{"credentials":{v}}}"#), 2 => format!(r#"{{"credentials":[{v}]}}"#),
            3 => format!(r#"{{"credentials":[{{"id":"q","format":"f","meta":{{}}}}],"credential_sets":{v}}}"#), 4 => format!(r#"{{"credentials":[{{"id":"q","format":"f","meta":{{}}}}],"credential_sets":[{{"options":{v}}}]}}"#),
            k => { let m = ["id", "format", "meta", "claims", "claim_sets", "trusted_authorities", "path"][k - 5]; let g = |n: &str, d: &str| if n == m { format!("\"{n}\":{v}") } else { format!("\"{n}\":{d}") };
                format!(r#"{{"credentials":[{{{},{},{},{},{},{}}}]}}"#, g("id", "\"q\""), g("format", "\"f\""), g("meta", "{}"), if m == "path" { format!(r#""claims":[{{"path":{v}}},{{"path":["a",{v}],"id":"c"}}]"#) } else { g("claims", r#"[{"path":["a","b"],"id":"c"}]"#) }, g("claim_sets", r#"[["c"]]"#), g("trusted_authorities", r#"[{"type":"aki","values":["x"]}]"#)) }
        };
        cover("query");
        if let Ok(q) = serde_json::from_str::<DcqlQuery>(&t) { look(&q); }
        if let Ok(j) = serde_json::from_str::<serde_json::Value>(&t) { if let Ok(q) = DcqlQuery::try_from(j) { look(&q); } }
    }
    // single values
    c28_values {
        let (t, v) = if flag() { (odd(), "null".into()) } else { (String::new(), odd_json()) };
        cover("values");
        let _ = ClientId(t.clone()).resolve_prefix();
        let _ = (ResponseMode::from(t.clone()).is_jarm().is_ok(), String::from(ResponseType::from(t.clone())).len());
        let _ = serde_json::from_str::<ClaimFormatDesignation>(&v).map(|d| d.to_string());
        let _ = serde_json::from_str::<ClaimFormatPayload>(&v).is_ok();
        let _ = serde_json::from_str::<ClaimFormat>(&v).map(|c| c.designation());
        let _ = serde_json::from_str::<ClaimFormatMap>(&v).is_ok();
        let _ = serde_json::from_str::<Status>(&v).is_ok();
        let _ = serde_json::from_str::<Status>(&format!(r#"{{"complete":{v}}}"#)).is_ok();
        if let Ok(j) = serde_json::from_str::<serde_json::Value>(&v) { let _ = compute_jwk_thumbprint(&j).is_ok(); }
        for k in ["EC", "OKP", "RSA"] { if let Ok(j) = serde_json::from_str::<serde_json::Value>(&format!(r#"{{"kty":"{k}","crv":{v},"x":{v},"y":"y","n":{v},"e":"e"}}"#)) { let _ = compute_jwk_thumbprint(&j).is_ok(); } }
        if let Ok(h) = Handover::new(&t, &t, None, &t) { let _ = h.to_cbor_bytes().is_ok(); }
    }
}
fn odd_name() -> String { pick(&["", "\u{e9}", "x"]).to_string() }
