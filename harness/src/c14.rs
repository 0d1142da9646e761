//! Building authorization requests.
use crate::c11::{form, value};
use crate::fx::*;
use crate::vf::*;
use crate::vsym::*;
use openid4vp::core::authorization_request::parameters::{ClientId, Nonce, ResponseMode, ResponseType, ResponseUri, State};
use openid4vp::core::dcql_query::DcqlQuery;
use openid4vp::core::metadata::WalletMetadata;
use openid4vp::verifier::session::Status;
use openid4vp::verifier::Verifier;
use std::sync::Arc;
use url::Url;
use uuid::Uuid;

fn md(endpoint: &str, prefixes: &str) -> WalletMetadata { obj(&format!(r#"{{"authorization_endpoint":"{endpoint}","vp_formats_supported":{{}}{prefixes}}}"#)).try_into().unwrap() }
fn verifier(c: Arc<Cl>, s: Arc<Rec>, at: Option<&str>, submit: &str) -> Verifier {
    let mut b = Verifier::builder().with_client(c).with_session_store(s).with_submission_endpoint(submit.parse().unwrap());
    b = match at { Some(u) => b.by_reference(u.parse().unwrap()), None => if flag() { b.by_value() } else { b } };
    b = b.with_default_request_parameter(ResponseType::VpToken).with_default_request_parameter(Nonce::from("dflt".to_string()));
    block_on(b.build()).unwrap()
}
fn uuid() -> Uuid { let mut b = [0u8; 16]; b.copy_from_slice(&bytes(16, &[0x00, 0x9f, 0xa5, 0xff])); Uuid::from_bytes(b) }
fn other_query() -> DcqlQuery { serde_json::from_str(r#"{"credentials":[{"id":"other","format":"mso_mdoc","meta":{"doctype_value":"d"}}]}"#).unwrap() }
/// A parameter of any content under one of the names with a meaning, or another.
#[derive(Debug, Clone)]
struct Raw<const K: usize>(serde_json::Value);
impl<const K: usize> TryFrom<serde_json::Value> for Raw<K> { type Error = anyhow::Error; fn try_from(v: serde_json::Value) -> anyhow::Result<Self> { Ok(Raw(v)) } }
impl<const K: usize> TryFrom<Raw<K>> for serde_json::Value { type Error = anyhow::Error; fn try_from(v: Raw<K>) -> anyhow::Result<Self> { Ok(v.0) } }
impl<const K: usize> openid4vp::core::object::TypedParameter for Raw<K> { const KEY: &'static str = NAMES[K]; }
/// The first six mean something to the builder or the reader of a request; the others are the caller's business.
const NAMES: &[&str] = &["response_mode", "response_type", "nonce", "response_uri", "redirect_uri", "x_other", "client_metadata", "state", "client_id_scheme", "expected_origins", "transaction_data", "verifier_info", "aud", "iss", "exp", "iat", "scope", "request_uri_method", "wallet_nonce", "client_metadata_uri", "presentation_definition", "jti"];
const HEX: &[u8; 16] = b"0123456789abcdef";
/// Own rendering of a UUID.
fn text(u: &Uuid) -> String {
    let mut o = vec![];
    for (i, b) in u.as_bytes().iter().enumerate() {
        if [4, 6, 8, 10].contains(&i) { o.push(b'-'); }
        o.push(HEX[(b >> 4) as usize]);
        o.push(HEX[(b & 15) as usize]);
    }
    unsafe { String::from_utf8_unchecked(o) }
}
/// Submission endpoints, and what they are with something appended: before, after.
const SUBMIT: &[(&str, &str, &str)] = &[("https://v.example", "https://v.example/", ""), ("https://v.example/submit", "https://v.example/submit/", ""), ("https://v.example/a/b?x=1", "https://v.example/a/b/", "?x=1"), ("https://v.example/s/", "https://v.example/s//", ""), ("https://v.example:8443/s%20t?x#f", "https://v.example:8443/s%20t/", "?x#f")];
const ANY: &str = r#","client_id_prefixes_supported":["p"]"#;
crate::entries! {
    // what a built request says, and what is stored
    c14_request {
        let id = format!("p:{}", string(bound(2, 5), "abX09_-"));
        let u = uuid();
        let (c, s) = (Cl::new(&id, "p"), Rec::new(true));
        let (submit, target, tail) = pick(SUBMIT);
        let at = if flag() { Some(pick(&["https://v.example/ref", "https://v.example:8443", "https://v.example/ref/"])) } else { None };
        let v = verifier(c.clone(), s.clone(), at, submit);
        let st = string(bound(2, 5), "abX09_-");
        let (mode, name) = match choose(2) { 0 => (ResponseMode::DirectPost, "direct_post"), _ => (ResponseMode::DirectPostJwt, "direct_post.jwt") };
        let mut b = v.build_authorization_request().with_dcql_query(query()).with_request_parameter(mode).with_request_parameter(State(st.clone()));
        // whatever the caller says about who asks and where the answer goes, the verifier's own setting wins
        if flag() { b = b.with_request_parameter(ClientId("evil:x".into())).with_request_parameter(ResponseUri("https://evil.example/".parse().unwrap())).with_request_parameter(other_query()); }
        let nonce = if flag() { let n = string(2, "abc"); b = b.with_request_parameter(Nonce::from(n.clone())); n } else { "dflt".to_string() };
        let ep = if submit == SUBMIT[0].0 { pick(&["openid4vp://w/x", "https://w.example/authorize", "haip:", "https://w.example/a#f"]) } else { "openid4vp://w/x" };
        let r = block_on(b.build_with_session_id(u, md(ep, ANY)));
        outcome(&r);
        let Ok(url) = r else { check(false, "a request that meets every condition was not built"); return };
        let want = json(&format!(r#"{{"client_id":"{id}","dcql_query":{},"nonce":"{nonce}","response_mode":"{name}","response_type":"vp_token","response_uri":"{target}{}{tail}","state":"{st}"}}"#, json(&serde_json::to_string(&query()).unwrap()), text(&u))).to_string();
        let l = c.bodies.0.borrow();
        check(l.len() == 1 && eq(&l[0], &want), "the signed request is not the configured one with this client, this query and this session's response URI");
        let token = format!("signed.{}.x", b64url(&want));
        let (front, frag) = match ep.split_once('#') { Some((a, b)) => (a, Some(b)), None => (ep, None) };
        check(eq(&url.as_str()[..front.len() + 1], format!("{front}?")) && url.fragment() == frag, "the request is sent elsewhere than the wallet's endpoint");
        let f = form(url.query().unwrap_or(""));
        check(f.len() == 2 && value(&f, "client_id").map_or(false, |x| eq(x, &id)), "the URL names another client");
        if f.len() != 2 { return; }
        let k = s.sessions.0.borrow();
        check(k.len() == 1, "not exactly one session was stored");
        if k.len() != 1 { return; }
        match at {
            None => {
                cover("by value");
                check(value(&f, "request").map_or(false, |x| eq(x, &token)), "the URL does not carry the signed request");
                check(k[0].status == Status::SentRequest, "a request sent by value does not count as sent");
            }
            Some(a) => {
                cover("by reference");
                let a = match a { "https://v.example/ref" => "https://v.example/ref/", "https://v.example/ref/" => "https://v.example/ref//", _ => "https://v.example:8443/" };
                check(value(&f, "request_uri").map_or(false, |x| eq(x, format!("{a}{}", text(&u)))), "the URL does not refer to this session's request");
                check(k[0].status == Status::SentRequestByReference, "a request sent by reference does not count as sent by reference");
            }
        }
        check(eq(k[0].uuid.as_bytes(), u.as_bytes()), "the session was stored under another identifier");
        check(eq(&k[0].authorization_request_jwt, &token), "the stored token is not the signed one");
        check(eq(serde_json::to_string(&k[0].authorization_request_object).unwrap(), &want), "the stored request is not the signed one");
        check(k[0].dcql_query == query(), "the stored query is not the one asked");
    }
    // the same for the Digital Credentials API
    c14_dc_api {
        let id = format!("p:{}", string(bound(2, 5), IDCHARS));
        let (c, s) = (Cl::new(&id, "p"), Rec::new(!(choose(4) == 0)));
        let (submit, target, tail) = pick(SUBMIT);
        let mut vb = Verifier::builder().with_client(c.clone()).with_session_store(s.clone()).with_submission_endpoint(submit.parse().unwrap());
        vb = match choose(3) { 0 => vb.by_reference("https://v.example/ref".parse().unwrap()), 1 => vb.by_value(), _ => vb };
        let (mode, name, posts) = match choose(4) { 0 => (ResponseMode::DirectPost, "direct_post", true), 1 => (ResponseMode::DirectPostJwt, "direct_post.jwt", true), 2 => (ResponseMode::DcApi, "dc_api", false), _ => (ResponseMode::DcApiJwt, "dc_api.jwt", false) };
        let st = string(bound(2, 5), IDCHARS);
        // parameters from the verifier's defaults, the request, or both
        let how = choose(3);
        if how == 0 { vb = vb.with_default_request_parameter(ResponseType::VpToken).with_default_request_parameter(Nonce::from("n".to_string())).with_default_request_parameter(mode.clone()).with_default_request_parameter(State(st.clone())); }
        if how == 1 { vb = vb.with_default_request_parameter(ResponseMode::DirectPost).with_default_request_parameter(Nonce::from("old".to_string())).with_default_request_parameter(State("old".into())).with_default_request_parameter(ClientId("evil:x".into())); }
        let v = block_on(vb.build()).unwrap();
        let mut b = v.build_authorization_request();
        if how > 0 { b = b.with_request_parameter(ResponseType::VpToken).with_request_parameter(Nonce::from("n".to_string())).with_request_parameter(mode).with_request_parameter(State(st.clone())); }
        if flag() {
            b = b.with_request_parameter(ClientId("evil:x".into())).with_request_parameter(other_query());
            if posts { b = b.with_request_parameter(ResponseUri("https://evil.example/".parse().unwrap())); }
        }
        let r = block_on(b.with_dcql_query(other_query()).with_dcql_query(query()).build_dc_api());
        outcome(&r.as_ref().map(|_| ()).map_err(|e| anyhow::anyhow!("{e:#}")));
        let (k, l) = (s.sessions.0.borrow(), c.bodies.0.borrow());
        let Ok((u, token)) = r else { cover("not stored"); check(!s.works && k.is_empty(), "a request that meets every condition was not built"); return };
        cover("built");
        check(s.works && k.len() == 1, "not exactly one session was stored");
        if k.len() != 1 { return; }
        let uri = if posts { format!(r#""response_uri":"{target}{}{tail}","#, text(&u)) } else { String::new() };
        let want = json(&format!(r#"{{"client_id":"{id}","dcql_query":{},"nonce":"n","response_mode":"{name}","response_type":"vp_token",{uri}"state":"{st}"}}"#, json(&serde_json::to_string(&query()).unwrap()))).to_string();
        check(l.len() == 1 && eq(&l[0], &want), "the signed request is not the configured one with this client, this query and this session's response URI");
        check(eq(&token, format!("signed.{}.x", b64url(&want))), "the returned token is not the signed one");
        check(k[0].status == Status::SentRequest, "a request for the Digital Credentials API does not count as sent");
        check(k[0].uuid == u, "the session was stored under another identifier");
        check(eq(&k[0].authorization_request_jwt, &token), "the stored token is not the signed one");
        check(eq(serde_json::to_string(&k[0].authorization_request_object).unwrap(), &want), "the stored request is not the signed one");
        check(k[0].dcql_query == query(), "the stored query is not the one asked");
    }
    // texts of every kind: nothing is trimmed, folded or left out
    c14_texts {
        let t = match choose(4) { 0 => word().to_string(), 1 => beyond(), 2 => format!("{}{}", filler(pick(&[100, 3000])), string(1, IDCHARS)), _ => string(1, IDCHARS) };
        let at = choose(4);
        let (id, n, st) = (if at == 0 { format!("p:{t}") } else { "p:x".into() }, if at == 1 { &t } else { "n" }, if at >= 2 { &t } else { "s" });
        let (c, s) = (Cl::new(&id, "p"), Rec::new(true));
        let mut vb = Verifier::builder().with_client(c.clone()).with_session_store(s.clone()).with_submission_endpoint("https://v.example/s".parse().unwrap());
        if at == 3 { vb = vb.with_default_request_parameter(State(st.into())); }
        let v = block_on(vb.build()).unwrap();
        let mut b = v.build_authorization_request().with_request_parameter(ResponseType::VpToken).with_request_parameter(ResponseMode::DcApi).with_request_parameter(Nonce::from(n));
        if at != 3 { b = b.with_request_parameter(State(st.into())); }
        let wallet = flag();
        let r = if wallet { block_on(b.with_dcql_query(query()).build_with_session_id(Uuid::nil(), metadata(r#""client_id_prefixes_supported":["p"]"#))).map(|_| String::new()) } else { block_on(b.with_dcql_query(query()).build_dc_api()).map(|r| r.1) };
        check(r.is_ok(), "a request that meets every condition was not built");
        let Ok(token) = r else { return };
        cover("built");
        let (k, l) = (s.sessions.0.borrow(), c.bodies.0.borrow());
        let mut want = json(r#"{"client_id":"","dcql_query":{},"nonce":"","response_mode":"dc_api","response_type":"vp_token","state":""}"#);
        want["client_id"] = id.clone().into(); want["nonce"] = n.into(); want["state"] = st.into(); want["dcql_query"] = json(&serde_json::to_string(&query()).unwrap());
        let want = want.to_string();
        check(l.len() == 1 && eq(&l[0], &want), "the signed request is not the configured one with this client, this query and this session's response URI");
        let signed = format!("signed.{}.x", b64url(&want));
        check(wallet || eq(&token, &signed), "the returned token is not the signed one");
        check(k.len() == 1 && eq(&k[0].authorization_request_jwt, &signed) && eq(serde_json::to_string(&k[0].authorization_request_object).unwrap(), &want), "the stored request is not the signed one");
    }
    // the modes without a response URI, for a wallet
    c14_modes {
        let (mode, name, posts) = match choose(4) { 0 => (ResponseMode::DirectPost, "direct_post", true), 1 => (ResponseMode::DirectPostJwt, "direct_post.jwt", true), 2 => (ResponseMode::DcApi, "dc_api", false), _ => (ResponseMode::DcApiJwt, "dc_api.jwt", false) };
        let (c, s) = (Cl::new("p:x", "p"), Rec::new(true));
        let (dflt, by) = (flag(), flag());
        let mut vb = Verifier::builder().with_client(c.clone()).with_session_store(s.clone()).with_submission_endpoint("https://v.example/s".parse().unwrap()).with_default_request_parameter(if dflt { mode.clone() } else { ResponseMode::DirectPost }).with_default_request_parameter(ResponseType::VpToken).with_default_request_parameter(Nonce::from("n".to_string())).with_default_request_parameter(ClientId("evil:x".into())).with_default_request_parameter(other_query());
        if by { vb = vb.by_reference("https://v.example/ref".parse().unwrap()); }
        let v = block_on(vb.build()).unwrap();
        let mut b = v.build_authorization_request().with_dcql_query(query());
        if !dflt { b = b.with_request_parameter(mode); }
        let r = block_on(b.build(md("openid4vp:", ANY)));
        outcome(&r.as_ref().map(|_| ()).map_err(|e| anyhow::anyhow!("{e:#}")));
        cover("built");
        let Ok((u, url)) = r else { check(false, "a request that meets every condition was not built"); return };
        let uri = if posts { format!(r#""response_uri":"https://v.example/s/{}","#, text(&u)) } else { String::new() };
        let want = json(&format!(r#"{{"client_id":"p:x","dcql_query":{},"nonce":"n","response_mode":"{name}",{uri}"response_type":"vp_token"}}"#, json(&serde_json::to_string(&query()).unwrap()))).to_string();
        let l = c.bodies.0.borrow();
        check(l.len() == 1 && l[0] == want, "the signed request is not the configured one with this client, this query and this session's response URI");
        let f = form(url.query().unwrap_or(""));
        check(f.len() == 2 && value(&f, "client_id").map_or(false, |x| eq(x, "p:x")), "the URL names another client");
        if by { check(value(&f, "request_uri").map_or(false, |x| eq(x, format!("https://v.example/ref/{}", text(&u)))), "the URL does not refer to this session's request"); } else { check(value(&f, "request").map_or(false, |x| eq(x, format!("signed.{}.x", b64url(&want)))), "the URL does not carry the signed request"); }
        let k = s.sessions.0.borrow();
        check(k.len() == 1 && k[0].uuid == u && k[0].dcql_query == query(), "the stored session is not the built one");
    }
    // requests from one verifier do not affect each other
    c14_twice {
        let (c, s) = (Cl::new("p:x", "p"), Rec::new(true));
        let at = if flag() { Some("https://v.example/ref") } else { None };
        let v = verifier(c.clone(), s.clone(), at, "https://v.example/s");
        let v2 = v.clone();
        let st = string(2, "abX");
        let a = block_on(v.build_authorization_request().with_dcql_query(other_query()).with_request_parameter(ResponseMode::DirectPostJwt).with_request_parameter(State(st)).with_request_parameter(Nonce::from("first".to_string())).build(md("openid4vp:", ANY)));
        let b = block_on(if flag() { &v } else { &v2 }.build_authorization_request().with_dcql_query(query()).with_request_parameter(ResponseMode::DirectPost).build(md("openid4vp:", ANY)));
        let (Ok((a, _)), Ok((b, url))) = (a, b) else { check(false, "a request that meets every condition was not built"); return };
        cover("twice");
        check(a != b, "two requests share a session");
        let want = json(&format!(r#"{{"client_id":"p:x","dcql_query":{},"nonce":"dflt","response_mode":"direct_post","response_type":"vp_token","response_uri":"https://v.example/s/{}"}}"#, json(&serde_json::to_string(&query()).unwrap()), text(&b))).to_string();
        let (l, k) = (c.bodies.0.borrow(), s.sessions.0.borrow());
        check(l.len() == 2 && l[1] == want, "a request depends on an earlier one");
        check(k.len() == 2 && k[0].uuid == a && k[1].uuid == b && k[0].dcql_query == other_query() && k[1].dcql_query == query(), "the stored sessions are not the built ones");
        let f = form(url.query().unwrap_or(""));
        match at { Some(a) => check(value(&f, "request_uri").map_or(false, |x| eq(x, format!("{a}/{}", text(&b)))), "the URL does not refer to this session's request"), None => check(value(&f, "request").map_or(false, |x| eq(x, format!("signed.{}.x", b64url(&want)))), "the URL does not carry the signed request") }
    }
    // near misses of the prefix
    c14_prefix_near {
        let own = pick(&["x509_san_dns", "decentralized_identifier", "p", "pre-registered"]);
        let p = near_tail(own);
        let (c, s) = (Cl::new("p:x", own), Rec::new(true));
        let v = verifier(c.clone(), s.clone(), None, "https://v.example");
        let more = pick(&["", r#""redirect_uri","#]);
        let r = block_on(v.build_authorization_request().with_dcql_query(query()).with_request_parameter(ResponseMode::DirectPost).build(md("openid4vp:", &format!(r#","client_id_prefixes_supported":[{more}"{p}"]"#))));
        let want = eq(&p, own);
        cover(if want { "supported" } else { "unsupported" });
        check(r.is_ok() == want, if want { "no request was built for a wallet that supports the client's prefix" } else { "a request was built for a wallet that does not support the client's prefix" });
        check(s.sessions.0.borrow().len() == want as usize, "a session was stored for a request that was not built, or none for one that was");
    }
    // wallets that state no prefixes support the default ones
    c14_prefix_default {
        let own = match choose(8) { 0 => "pre-registered", 1 => "redirect_uri", 2 => "decentralized_identifier", 3 => "x509_san_dns", 4 => "x509_hash", 5 => "verifier_attestation", 6 => "openid_federation", _ => "" };
        let (c, s) = (Cl::new("p:x", own), Rec::new(true));
        let v = verifier(c.clone(), s.clone(), None, "https://v.example");
        let r = block_on(v.build_authorization_request().with_dcql_query(query()).with_request_parameter(ResponseMode::DirectPost).build(md("openid4vp:", "")));
        let want = own == "pre-registered";
        cover(if want { "supported" } else { "unsupported" });
        check(r.is_ok() == want, "a request was built for a wallet that does not support the client's prefix, or not for one that does");
    }
    // prefixes the wallet supports
    c14_prefix {
        let n = pick(&[1, 2, 9]);
        let p = string(n, "abx5_");
        let (list, dflt) = if choose(4) == 0 { (vec![], true) } else { ((0..choose(bound(3, 4))).map(|_| string(pick(&[n, n + 1]), "abx5_")).collect(), false) };
        let q: Vec<String> = list.iter().map(|s: &String| format!("\"{s}\"")).collect();
        let (c, s) = (Cl::new("p:x", &p), Rec::new(true));
        let v = verifier(c.clone(), s.clone(), None, "https://v.example");
        let r = block_on(v.build_authorization_request().with_dcql_query(query()).with_request_parameter(ResponseMode::DirectPost).build(md("openid4vp:", &if dflt { String::new() } else { format!(r#","client_id_prefixes_supported":[{}]"#, q.join(",")) })));
        outcome(&r);
        let want = list.iter().any(|x| x.as_bytes() == p.as_bytes());
        cover(if want { "supported" } else { "unsupported" });
        check(r.is_ok() == want, if want { "no request was built for a wallet that supports the client's prefix" } else { "a request was built for a wallet that does not support the client's prefix" });
        check(s.sessions.0.borrow().len() == want as usize, "a session was stored for a request that was not built, or none for one that was");
        if let Ok((u, _)) = &r { check(s.sessions.0.borrow()[0].uuid == *u, "the returned identifier is not the session's"); }
    }
    // parameters set again replace the earlier ones, by default and for the request; plain http will do
    c14_again {
        let (c, s) = (Cl::new("p:x", "p"), Rec::new(true));
        let (a, b) = (string(2, "abX"), string(2, "abX"));
        let mut vb = Verifier::builder().with_client(Cl::new("q:y", "q")).with_client(c.clone()).with_session_store(Rec::new(false)).with_session_store(s.clone()).with_submission_endpoint("https://evil.example/".parse().unwrap()).with_submission_endpoint("http://v.example/s".parse().unwrap())
            .with_default_request_parameter(ResponseMode::DcApi).with_default_request_parameter(ResponseMode::DirectPost).with_default_request_parameter(ResponseType::VpTokenIdToken).with_default_request_parameter(ResponseType::VpToken).with_default_request_parameter(Nonce::from("old".to_string())).with_default_request_parameter(Nonce::from(a.clone()));
        let by = choose(3);
        vb = match by { 0 => vb.by_reference("http://v.example/ref".parse().unwrap()).by_value(), 1 => vb.by_value().by_reference("http://v.example/ref".parse().unwrap()), _ => vb.by_reference("https://evil.example/".parse().unwrap()).by_reference("http://v.example/ref".parse().unwrap()) };
        let v = block_on(vb.build()).unwrap();
        let mut q = v.build_authorization_request().with_dcql_query(other_query()).with_dcql_query(query()).with_request_parameter(State("old".into())).with_request_parameter(State(b.clone()));
        let n = if flag() { q = q.with_request_parameter(Nonce::from("older".to_string())).with_request_parameter(Nonce::from(b.clone())); &b } else { &a };
        let Ok((u, url)) = block_on(q.build(md("openid4vp:", ANY))) else { check(false, "a request that meets every condition was not built"); return };
        cover("again");
        let want = json(&format!(r#"{{"client_id":"p:x","dcql_query":{},"nonce":"{n}","response_mode":"direct_post","response_type":"vp_token","response_uri":"http://v.example/s/{}","state":"{b}"}}"#, json(&serde_json::to_string(&query()).unwrap()), text(&u))).to_string();
        let (l, k) = (c.bodies.0.borrow(), s.sessions.0.borrow());
        check(l.len() == 1 && eq(&l[0], &want), "the signed request is not the one configured last");
        check(k.len() == 1 && k[0].uuid == u && k[0].status == if by == 0 { Status::SentRequest } else { Status::SentRequestByReference }, "the stored session is not the built one");
        let f = form(url.query().unwrap_or(""));
        if by == 0 { check(value(&f, "request").map_or(false, |x| eq(x, format!("signed.{}.x", b64url(&want)))), "the URL does not carry the signed request"); } else { check(value(&f, "request_uri").map_or(false, |x| eq(x, format!("http://v.example/ref/{}", text(&u)))), "the URL does not refer to this session's request"); }
    }
    // parameters that are unreadable or contradict the response mode
    c14_contradiction {
        let (c, s) = (Cl::new("p:x", "p"), Rec::new(true));
        let v = verifier(c.clone(), s.clone(), if flag() { Some("https://v.example/ref") } else { None }, "https://v.example");
        let posts = flag();
        let (jwt, dc) = (flag(), flag());
        let mut b = v.build_authorization_request().with_dcql_query(query()).with_request_parameter(match (posts, jwt) { (true, false) => ResponseMode::DirectPost, (true, true) => ResponseMode::DirectPostJwt, (false, false) => ResponseMode::DcApi, _ => ResponseMode::DcApiJwt });
        let any = pick(&["null", "7", r#"["direct_post"]"#, r#"{"a":"dc_api"}"#]);
        let (x, want) = match choose(6) {
            0 => { b = b.with_request_parameter(Raw::<0>(json(any))); (any, false) }
            1 => { b = b.with_request_parameter(Raw::<1>(json(any))); (any, false) }
            2 => { b = b.with_request_parameter(Raw::<2>(json(any))); (any, false) }
            3 => { b = b.with_request_parameter(Raw::<3>(json(any))); (any, posts) }
            4 => { b = b.with_request_parameter(Raw::<4>(json(any))); (any, false) }
            _ => { b = b.with_request_parameter(Raw::<5>(json(any))); (any, true) }
        };
        let ok = if dc { block_on(b.build_dc_api()).is_ok() } else { block_on(b.build(md("openid4vp:", ANY))).is_ok() };
        let _ = x;
        cover(if want { "built" } else { "not built" });
        check(ok == want, "a request was built of parameters that are unreadable or contradict its response mode, or was not of others");
        check(s.sessions.0.borrow().len() == want as usize, "a session was stored for a request that was not built, or none for one that was");
    }
    // parameters the builder has no business with: given last, they are as given last, whatever their name and content
    c14_any_parameter {
        fn on<const K: usize>(mut vb: openid4vp::verifier::VerifierBuilder, how: usize, old: &str, new: &str) -> (Verifier, Vec<serde_json::Value>) {
            if how > 0 { vb = vb.with_default_request_parameter(Raw::<K>(json(old))); }
            if how == 1 { vb = vb.with_default_request_parameter(Raw::<K>(json(new))); }
            let l = match how { 0 | 2 => vec![json(new)], 3 => vec![json("[9]"), json(new)], _ => vec![] };
            (block_on(vb.build()).unwrap(), l)
        }
        fn set<'a, const K: usize>(mut b: openid4vp::verifier::request_builder::RequestBuilder<'a>, l: Vec<serde_json::Value>) -> openid4vp::verifier::request_builder::RequestBuilder<'a> { for v in l { b = b.with_request_parameter(Raw::<K>(v)); } b }
        let how = choose(4);
        let t = string(bound(2, 6), IDCHARS);
        let (o, n, m) = (format!(r#"{{"a":{{"b":1,"d":"{t}"}},"c":[2]}}"#), format!(r#"{{"a":{{"d":"{t}"}}}}"#), format!(r#"["y","{t}","y"]"#));
        let (old, new) = pick(&[(o.as_str(), n.as_str()), (r#"["x"]"#, m.as_str()), (r#""old""#, r#""""#), ("1", "null"), ("null", "0"), ("true", r#"{}"#)]);
        let (c, s) = (Cl::new("p:x", "p"), Rec::new(true));
        let vb = Verifier::builder().with_client(c.clone()).with_session_store(s.clone()).with_submission_endpoint("https://v.example/s".parse().unwrap()).with_default_request_parameter(ResponseType::VpToken).with_default_request_parameter(ResponseMode::DcApi).with_default_request_parameter(Nonce::from("n".to_string()));
        macro_rules! with { ($k:expr, $($n:literal)*) => { match $k { $($n => { let (v, l) = on::<$n>(vb, how, old, new); block_on(set::<$n>(v.build_authorization_request().with_dcql_query(query()), l).build_dc_api()).map(|r| r.1) })* _ => unreachable!() } } }
        let k = 5 + choose(NAMES.len() - 5);
        let r = with!(k, 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21);
        outcome(&r);
        cover("as given");
        let Ok(token) = r else { check(false, "a request that meets every condition was not built"); return };
        let mut want = json(r#"{"client_id":"p:x","dcql_query":{},"nonce":"n","response_mode":"dc_api","response_type":"vp_token"}"#);
        want["dcql_query"] = json(&serde_json::to_string(&query()).unwrap());
        want[NAMES[k]] = json(new);
        let l = c.bodies.0.borrow();
        check(l.len() == 1 && same_json(&json(&l[0]), &want), "a parameter of the request is not the one given last");
        check(eq(&token, format!("signed.{}.x", b64url(&l[0]))), "the returned token is not the signed one");
        let s = s.sessions.0.borrow();
        check(s.len() == 1 && serde_json::to_value(&s[0].authorization_request_object).map_or(false, |v| same_json(&v, &want)), "the stored request is not the signed one");
    }
    // what must be given
    c14_required {
        let (c, s) = (Cl::new("p:x", "p"), Rec::new(true));
        let (hq, ht, hm, hn) = (flag(), flag(), choose(7), flag());
        let mut vb = Verifier::builder().with_client(c.clone()).with_session_store(s.clone()).with_submission_endpoint("https://v.example".parse().unwrap());
        let from_default = flag();
        let mode = match hm { 0 => None, 1 => Some(ResponseMode::DirectPost), 2 => Some(ResponseMode::DirectPostJwt), 3 => Some(ResponseMode::DcApi), 4 => Some(ResponseMode::DcApiJwt), 5 => Some(ResponseMode::Unsupported("fragment".into())), _ => Some(ResponseMode::Unsupported(string(2, "abc"))) };
        if from_default {
            if ht { vb = vb.with_default_request_parameter(ResponseType::VpToken); }
            if let Some(m) = &mode { vb = vb.with_default_request_parameter(m.clone()); }
            if hn { vb = vb.with_default_request_parameter(Nonce::from("n".to_string())); }
        }
        let v = block_on(vb.build()).unwrap();
        let mut b = v.build_authorization_request();
        if !from_default {
            if ht { b = b.with_request_parameter(ResponseType::VpToken); }
            if let Some(m) = &mode { b = b.with_request_parameter(m.clone()); }
            if hn { b = b.with_request_parameter(Nonce::from("n".to_string())); }
        }
        if hq { b = b.with_dcql_query(query()); }
        let dc = flag();
        let ok = if dc {
            let r = block_on(b.build_dc_api());
            if let Ok((u, t)) = &r {
                let k = s.sessions.0.borrow();
                check(k.len() == 1 && k[0].uuid == *u && k[0].authorization_request_jwt == *t && k[0].status == Status::SentRequest && k[0].dcql_query == query(), "the stored session is not the built one");
                check(c.bodies.0.borrow().len() == 1 && *t == format!("signed.{}.x", b64url(&c.bodies.0.borrow()[0])), "the returned token is not the signed one");
                check(k[0].authorization_request_object.client_id().map_or(false, |c| c.0 == "p:x"), "the request names another client");
            }
            outcome(&r.as_ref().map(|_| ()).map_err(|e| anyhow::anyhow!("{e:#}")));
            r.is_ok()
        } else {
            let r = block_on(b.build_with_session_id(Uuid::nil(), md("openid4vp:", ANY)));
            outcome(&r);
            r.is_ok()
        };
        let want = hq && ht && hm >= 1 && hm <= 4 && hn;
        cover(if want { "complete" } else { "incomplete" });
        check(ok == want, if want { "a complete request was not built" } else { "a request was built without query, response type, supported response mode and nonce" });
        check(s.sessions.0.borrow().len() == want as usize, "a session was stored for a request that was not built, or none for one that was");
    }
    // a request that cannot be signed or stored is not handed out
    c14_failures {
        let (signs, works) = pick(&[(true, true), (false, true), (true, false), (false, false)]);
        let s = Rec::new(works);
        let mut c = Cl::new("p:x", "p");
        Arc::get_mut(&mut c).unwrap().signs = signs;
        let at = if flag() { Some("https://v.example/ref") } else { None };
        let v = verifier(c, s.clone(), at, "https://v.example");
        let m = pick(&[ResponseMode::DirectPost, ResponseMode::DcApi]);
        let b = v.build_authorization_request().with_dcql_query(query()).with_request_parameter(m);
        let ok = if flag() { block_on(b.build_dc_api()).is_ok() } else { block_on(b.build(md("openid4vp:", ANY))).is_ok() };
        cover(if signs && works { "works" } else { "fails" });
        check(ok == (signs && works), "a request that could not be signed and stored was handed out, or one that could was not");
        check(s.sessions.0.borrow().len() == (signs && works) as usize, "a session was stored for a request that was not built, or none for one that was");
    }
    // endpoints nothing can be appended to
    c14_base {
        let s = Rec::new(true);
        let (sub_ok, ref_ok) = (flag(), flag());
        let by_ref = flag();
        let v = verifier(Cl::new("p:x", "p"), s.clone(), if by_ref { Some(if ref_ok { "https://v.example/ref" } else { "mailto:x" }) } else { None }, if sub_ok { "https://v.example" } else { "data:x" });
        let r = block_on(v.build_authorization_request().with_dcql_query(query()).with_request_parameter(ResponseMode::DirectPost).build(md("openid4vp:", ANY)));
        let want = sub_ok && (ref_ok || !by_ref);
        cover(if want { "usable" } else { "unusable" });
        check(r.is_ok() == want, "a request was built with an endpoint the session cannot be appended to, or not built with a usable one");
        check(s.sessions.0.borrow().len() == want as usize, "a session was stored for a request that was not built, or none for one that was");
    }
    // a verifier needs a client, a store and an endpoint
    c14_builder {
        let (c, s, e) = (flag(), flag(), flag());
        let mut b = Verifier::builder();
        if c { b = b.with_client(Cl::new("p:x", "p")); }
        if s { b = b.with_session_store(Rec::new(true)); }
        if e { b = b.with_submission_endpoint("https://v.example".parse::<Url>().unwrap()); }
        let r = block_on(b.build());
        cover(if c && s && e { "complete" } else { "incomplete" });
        check(r.is_ok() == (c && s && e), "a verifier was built without client, store and endpoint, or not built with them");
    }
}
