//! A whole exchange: verifier, URL, wallet, response, session.
use crate::fx::*;
use crate::vf::{query, QUERY};
use crate::vsym::*;
use anyhow::{bail, Context, Result};
use openid4vp::core::authorization_request::parameters::{ClientId, ClientIdScheme, Nonce, ResponseMode, ResponseType, State};
use openid4vp::core::authorization_request::verification::RequestVerifier;
use openid4vp::core::authorization_request::AuthorizationRequestObject;
use openid4vp::core::metadata::WalletMetadata;
use openid4vp::core::response::parameters::{VpToken, VpTokenItem};
use openid4vp::core::response::{AuthorizationResponse, JwtAuthorizationResponse, UnencodedAuthorizationResponse};
use openid4vp::core::util::AsyncHttpClient;
use openid4vp::verifier::client::Client;
use openid4vp::verifier::session::{MemoryStore, Outcome, Session, Status};
use openid4vp::verifier::Verifier;
use openid4vp::wallet::Wallet;
use std::sync::Arc;
use uuid::Uuid;

/// A client whose tokens have a proper header and no real signature.
#[derive(Debug)]
struct Signer(ClientId);
#[async_trait::async_trait]
impl Client for Signer {
    fn id(&self) -> &ClientId { &self.0 }
    fn prefix(&self) -> ClientIdScheme { ClientIdScheme(ClientIdScheme::REDIRECT_URI.into()) }
    async fn generate_request_object_jwt(&self, body: &AuthorizationRequestObject) -> Result<String> { Ok(jwt(HDR, &serde_json::to_string(body)?, "c2lA")) }
}
/// What the verifier's validator was given.
#[derive(Default)]
struct Seen { session: Option<Session>, response: Option<AuthorizationResponse> }
/// The network between the wallet and the verifier's two endpoints.
struct Net { v: Verifier, at: &'static str, verdict: usize, answer: String, seen: Cellx<Vec<Seen>>, log: Cellx<Vec<(String, String)>> }
fn outcome_of(k: usize) -> Outcome { match k { 0 => Outcome::Success { info: serde_json::Value::Null }, 1 => Outcome::Failure { reason: "f".into() }, _ => Outcome::Error { cause: "e".into() } } }
#[async_trait::async_trait]
impl AsyncHttpClient for Net {
    async fn execute(&self, r: http::Request<Vec<u8>>) -> Result<http::Response<Vec<u8>>> {
        let uri = r.uri().to_string();
        self.log.0.borrow_mut().push((r.method().to_string(), uri.clone()));
        let ok = |b: Vec<u8>| Ok(http::Response::builder().status(200).body(b)?);
        let id = |p: &str| uri.strip_prefix(self.at).and_then(|s| s.strip_prefix(p)).and_then(|s| Uuid::parse_str(s).ok());
        if r.method() == http::Method::GET {
            let u = id("ref/").context("no such request")?;
            return ok(self.v.retrieve_authorization_request(u).await?.into_bytes());
        }
        let u = id("submit/").context("no such session")?;
        let a = AuthorizationResponse::from_x_www_form_urlencoded(r.body())?;
        let k = self.verdict;
        let seen = &self.seen;
        self.v.verify_response(u, a, |s, a| { seen.0.borrow_mut().push(Seen { session: Some(s), response: Some(a) }); Box::pin(async move { outcome_of(k) }) }).await?;
        ok(self.answer.clone().into_bytes())
    }
}
struct Wa { md: WalletMetadata, net: Net }
#[async_trait::async_trait]
impl RequestVerifier for Wa {
    async fn redirect_uri(&self, _: &AuthorizationRequestObject, t: Option<String>) -> Result<()> { if t.is_some() { Ok(()) } else { bail!("unsigned") } }
}
#[async_trait::async_trait]
impl Wallet for Wa {
    type HttpClient = Net;
    fn metadata(&self) -> &WalletMetadata { &self.md }
    fn http_client(&self) -> &Net { &self.net }
}
fn id(n: u8) -> Uuid { let mut b = [0x5au8; 16]; b[0] = n; Uuid::from_bytes(b) }
fn status(w: &Wa, n: u8) -> Option<Status> { block_on(w.net.v.poll_status(id(n))).ok() }
struct Ask { nonce: String, state: Option<String> }
const AT: &str = "https://v.example/";
const SETS: &str = r#"{"credentials":[{"id":"q","format":"dc+sd-jwt","meta":{"vct_values":["v"]},"multiple":true},{"id":"p","format":"mso_mdoc","meta":{},"claims":[{"id":"c","path":["a",null,0],"values":["x",7,true]}],"claim_sets":[["c"]]}],"credential_sets":[{"options":[["q"],["p","q"]],"required":false}]}"#;
fn setup(client: &str, by_ref: bool, asks: &[Ask], jwt_mode: bool, verdict: usize, answer: &str) -> (Wa, Vec<url::Url>) { setup_at(client, AT, &query(), by_ref, asks, jwt_mode, verdict, answer) }
fn setup_at(client: &str, at: &'static str, q: &openid4vp::core::dcql_query::DcqlQuery, by_ref: bool, asks: &[Ask], jwt_mode: bool, verdict: usize, answer: &str) -> (Wa, Vec<url::Url>) {
    let mut b = Verifier::builder().with_client(Arc::new(Signer(ClientId(client.into())))).with_session_store(Arc::new(MemoryStore::default())).with_submission_endpoint(format!("{at}submit").parse().unwrap()).with_default_request_parameter(ResponseType::VpToken);
    if by_ref { b = b.by_reference(format!("{at}ref").parse().unwrap()); }
    let v = block_on(b.build()).unwrap();
    let md: WalletMetadata = obj(r#"{"authorization_endpoint":"openid4vp://w/a","vp_formats_supported":{"dc+sd-jwt":{}},"client_id_prefixes_supported":["redirect_uri"],"authorization_encryption_alg_values_supported":["ECDH-ES"],"authorization_encryption_enc_values_supported":["A256GCM"]}"#).try_into().unwrap();
    let mut urls = vec![];
    for (i, a) in asks.iter().enumerate() {
        let mut r = v.build_authorization_request().with_dcql_query(q.clone()).with_request_parameter(if jwt_mode { ResponseMode::DirectPostJwt } else { ResponseMode::DirectPost }).with_request_parameter(Nonce::from(a.nonce.clone()));
        if let Some(s) = &a.state { r = r.with_request_parameter(State(s.clone())); }
        if jwt_mode { r = r.with_request_parameter(openid4vp::core::authorization_request::parameters::ClientMetadata(obj(r#"{"jwks":{"keys":[{"kty":"EC","crv":"P-256","x":"f83OJ3D2xF1Bg8vub9tLe1gHMzV76e8Tus9uPHvRVEU","y":"x_FEzRu9m36HLN_tue659LNpXW6pCyStikYjKIWI5a0","alg":"ECDH-ES","use":"enc"}]},"encrypted_response_enc_values_supported":["A256GCM"],"vp_formats_supported":{}}"#))); }
        match block_on(r.build_with_session_id(id(i as u8), md.clone())) { Ok(u) => urls.push(u), Err(e) => { observe("build", format!("{e:#}").as_bytes()); fail("a request was not built") } }
    }
    (Wa { md, net: Net { v, at, verdict, answer: answer.into(), seen: Default::default(), log: Default::default() } }, urls)
}
fn reads(o: &AuthorizationRequestObject, client: &str, a: &Ask, n: u8) { reads_at(o, client, AT, &query(), a, n) }
fn reads_at(o: &AuthorizationRequestObject, client: &str, at: &str, q: &openid4vp::core::dcql_query::DcqlQuery, a: &Ask, n: u8) {
    check(o.client_id().map_or(false, |c| eq(&c.0, client)), "the wallet reads another client than the verifier's");
    check(eq(o.nonce().to_string(), &a.nonce), "the wallet reads another nonce than the verifier's");
    check(match (o.state(), &a.state) { (None, None) => true, (Some(Ok(x)), Some(s)) => eq(&x.0, s), _ => false }, "the wallet reads another state than the verifier's");
    check(matches!(o.dcql_query(), Some(Ok(x)) if &x == q), "the wallet reads another query than the verifier's");
    check(o.return_uri().to_string() == format!("{at}submit/{}", id(n)), "the wallet answers elsewhere than the verifier expects");
}
fn text_of() -> String { match choose(5) { 4 => word().to_string(), 0 => format!("{}abcdefgh0123456789ABCDEFGH{}", string(1, "aZ9_-"), string(1, "aZ9_-.~")), 1 => format!("{}=={}", pick(&["", "a b", "a+b", "a%20b", "a/b?c&d#e", "\"", "\\", "\u{e9}\u{4e16}"]), pick(&["", "=", "A", " "])), 2 => filler(bound(300, 3000)), _ => string(1, "ab") + pick(&["A", "AA", "==", ".", "..", "~", "\n", "\r\n", "\t"]) } }
fn untouched(w: &Wa, n: u8, by_ref: bool) { check(status(w, n) == Some(if by_ref { Status::SentRequestByReference } else { Status::SentRequest }), "another session than the one answered was touched"); }
crate::entries! {
    // one request, all the way and back
    c27_exchange {
        let client = format!("redirect_uri:{}", string(bound(1, 3), "abX09_-"));
        let by_ref = flag();
        let a = [Ask { nonce: string(bound(2, 3), "abX09_-"), state: if flag() { Some(string(2, "abX09_-")) } else { None } }];
        let verdict = choose(3);
        let (w, urls) = setup(&client, by_ref, &a, false, verdict, "");
        untouched(&w, 0, by_ref);
        let r = block_on(w.validate_request(urls[0].clone()));
        outcome(&r);
        let Ok(o) = r else { check(false, "the wallet does not accept the verifier's request"); return };
        reads(&o, &client, &a[0], 0);
        check(status(&w, 0) == Some(Status::SentRequest), "a request the wallet has got does not count as sent");
        let p = string(bound(2, 4), "abX09_-");
        let t = VpToken::with_credential("q", vec![VpTokenItem::String(p.clone())]);
        let resp = AuthorizationResponse::Unencoded(match &a[0].state { Some(s) => UnencodedAuthorizationResponse::with_state(t, openid4vp::core::response::parameters::State(s.clone())), None => UnencodedAuthorizationResponse::new(t) });
        let s = block_on(w.submit_response(o, resp));
        outcome(&s);
        cover(if by_ref { "by reference" } else { "by value" });
        check(matches!(s, Ok(None)), "the verifier does not take the wallet's response");
        let seen = w.net.seen.0.borrow();
        check(seen.len() == 1, "the response was not judged exactly once");
        let (Some(ss), Some(AuthorizationResponse::Unencoded(got))) = (&seen[0].session, &seen[0].response) else { check(false, "the verifier got another kind of response"); return };
        check(ss.uuid == id(0) && serde_json::to_string(&ss.dcql_query).unwrap() == serde_json::to_string(&json(QUERY)).unwrap() || ss.uuid == id(0) && ss.dcql_query == query(), "the response was judged as another session's");
        check(eq(ss.authorization_request_object.nonce().to_string(), &a[0].nonce), "the response was judged under another nonce");
        check(got.vp_token().len() == 1 && matches!(got.vp_token().get("q").map(|l| &l[..]), Some([VpTokenItem::String(x)]) if eq(x, &p)), "the verifier got another presentation than the wallet gave");
        check(match (got.state(), &a[0].state) { (None, None) => true, (Some(x), Some(s)) => eq(&x.0, s), _ => false }, "the verifier got another state than the wallet gave");
        check(status(&w, 0) == Some(Status::Complete(outcome_of(verdict))), "the session did not end as its response was judged");
        let want = if by_ref { 2 } else { 1 };
        check(w.net.log.0.borrow().len() == want, "the exchange took another number of messages");
    }
    // longer texts, other endpoints, a larger query, tokens of any end
    c27_wide {
        let by_ref = flag();
        let (mut client, mut nonce, mut state, mut at, mut q, mut p, mut jwt_mode) = ("redirect_uri:x".to_string(), "n".to_string(), None, AT, query(), "p".to_string(), false);
        match choose(7) {
            0 => { state = Some(text_of()); cover("state") }
            1 => { nonce = text_of(); cover("nonce") }
            2 => { client = format!("redirect_uri:{}", text_of()); cover("client") }
            3 => { at = pick(&["https://v.example//", "https://v.example/a//b/", "http://v.example:8080/a%2Fb/", "https://v.example/A/;x=1/", "https://u:p@v.example/~a/", "https://v.example/a+b/&=/"]); cover("endpoint") }
            4 => { q = serde_json::from_str(SETS).unwrap(); cover("query") }
            5 => { p = text_of(); cover("presentation") }
            _ => { p = text_of(); jwt_mode = true; cover("encrypted") }
        }
        let a = [Ask { nonce, state }];
        let (w, urls) = setup_at(&client, at, &q, by_ref, &a, jwt_mode, 0, "");
        let r = block_on(w.validate_request(urls[0].clone()));
        outcome(&r);
        let Ok(o) = r else { check(false, "the wallet does not accept the verifier's request"); return };
        reads_at(&o, &client, at, &q, &a[0], 0);
        let t = VpToken::with_credential("q", vec![VpTokenItem::String(p.clone()), VpTokenItem::String("z".into())]);
        let resp = if jwt_mode { AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: p.clone() }) } else { AuthorizationResponse::Unencoded(match &a[0].state { Some(s) => UnencodedAuthorizationResponse::with_state(t, openid4vp::core::response::parameters::State(s.clone())), None => UnencodedAuthorizationResponse::new(t) }) };
        let s = block_on(w.submit_response(o, resp));
        outcome(&s);
        check(matches!(s, Ok(None)), "the verifier does not take the wallet's response");
        let seen = w.net.seen.0.borrow();
        check(seen.len() == 1 && seen[0].session.as_ref().map_or(false, |s| s.uuid == id(0) && s.dcql_query == q && eq(s.authorization_request_object.nonce().to_string(), &a[0].nonce)), "the response was judged as another session's");
        check(match &seen[0].response {
            Some(AuthorizationResponse::Jwt(j)) => jwt_mode && eq(&j.response, &p),
            Some(AuthorizationResponse::Unencoded(got)) => !jwt_mode && got.vp_token().len() == 1 && matches!(got.vp_token().get("q").map(|l| &l[..]), Some([VpTokenItem::String(x), VpTokenItem::String(z)]) if eq(x, &p) && z == "z") && match (got.state(), &a[0].state) { (None, None) => true, (Some(x), Some(s)) => eq(&x.0, s), _ => false },
            None => false,
        }, "the verifier got another response than the wallet gave");
        check(status(&w, 0) == Some(Status::Complete(outcome_of(0))), "the session did not end as its response was judged");
    }
    // several requests outstanding: each is read as itself, and only the answered one moves
    c27_several {
        let by_ref = flag();
        let asks = [Ask { nonce: string(2, "ab"), state: Some(string(1, "ab")) }, Ask { nonce: string(2, "ab"), state: None }, Ask { nonce: "n3".into(), state: Some("s3".into()) }];
        let client = "redirect_uri:https://v.example/submit";
        let (w, urls) = setup(client, by_ref, &asks, false, 0, "");
        let k = choose(3);
        let Ok(o) = block_on(w.validate_request(urls[k].clone())) else { check(false, "the wallet does not accept the verifier's request"); return };
        reads(&o, client, &asks[k], k as u8);
        let again = flag();
        let o = if again { match block_on(w.validate_request(urls[k].clone())) { Ok(o) => { reads(&o, client, &asks[k], k as u8); o } Err(_) => { check(false, "the wallet does not accept the verifier's request again"); return } } } else { o };
        for i in 0..3 { if i != k { untouched(&w, i as u8, by_ref); } }
        let p = string(2, "ab");
        let s = block_on(w.submit_response(o, AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::new(VpToken::with_credential("q", vec![VpTokenItem::String(p.clone())])))));
        outcome(&s);
        cover(if again { "twice" } else { "once" });
        check(s.is_ok(), "the verifier does not take the wallet's response");
        check(status(&w, k as u8) == Some(Status::Complete(outcome_of(0))), "the session did not end as its response was judged");
        for i in 0..3 { if i != k { untouched(&w, i as u8, by_ref); } }
        let seen = w.net.seen.0.borrow();
        check(seen.len() == 1 && seen[0].session.as_ref().map_or(false, |s| s.uuid == id(k as u8) && eq(s.authorization_request_object.nonce().to_string(), &asks[k].nonce)), "the response was judged as another session's");
    }
    // encrypted responses, and where the wallet is sent afterwards
    c27_encrypted {
        let by_ref = flag();
        let a = [Ask { nonce: string(2, "abX09_-"), state: None }];
        let client = "redirect_uri:x";
        let back = flag();
        let (w, urls) = setup(client, by_ref, &a, true, 0, if back { r#"{"redirect_uri":"https://v.example/done?x=1#y"}"# } else { "{}" });
        let r = block_on(w.validate_request(urls[0].clone()));
        outcome(&r);
        let Ok(o) = r else { check(false, "the wallet does not accept the verifier's request"); return };
        reads(&o, client, &a[0], 0);
        check(o.response_mode() == &ResponseMode::DirectPostJwt, "the wallet reads another response mode");
        let p = string(bound(3, 6), "abX09_-.");
        let s = block_on(w.submit_response(o, AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: p.clone() })));
        outcome(&s);
        cover(if back { "sent on" } else { "done" });
        check(match s { Ok(None) => !back, Ok(Some(u)) => back && u.as_str() == "https://v.example/done?x=1#y", Err(_) => false }, "the wallet is sent elsewhere than the verifier says");
        let seen = w.net.seen.0.borrow();
        check(seen.len() == 1 && matches!(&seen[0].response, Some(AuthorizationResponse::Jwt(j)) if eq(&j.response, &p)), "the verifier got another response than the wallet gave");
        check(status(&w, 0) == Some(Status::Complete(outcome_of(0))), "the session did not end as its response was judged");
    }
    // a request for a session the verifier does not know goes nowhere
    c27_unknown {
        let a = [Ask { nonce: "n".into(), state: None }];
        let (w, urls) = setup("redirect_uri:x", true, &a, false, 0, "");
        let i = 1 + choose(3);
        let url: url::Url = urls[0].as_str().replace(&id(0).to_string(), &match i { 1 => id(1).to_string(), 2 => string(2, "abX09_-"), _ => id(0).to_string()[..35].to_string() }).parse().unwrap();
        let r = block_on(w.validate_request(url));
        cover("unknown");
        check(r.is_err(), "the wallet accepts a request the verifier does not know");
        untouched(&w, 0, true);
        check(block_on(w.net.v.poll_status(id(1))).is_err(), "a session exists that was never started");
    }
}
