//! Verifier-side fixtures: a client that signs transparently, a recording store.
use crate::fx::*;
use crate::vsym::*;
use anyhow::{bail, Result};
use openid4vp::core::authorization_request::parameters::{ClientId, ClientIdScheme};
use openid4vp::core::authorization_request::AuthorizationRequestObject;
use openid4vp::core::dcql_query::DcqlQuery;
use openid4vp::verifier::client::Client;
use openid4vp::verifier::session::{Session, SessionStore, Status};
use std::sync::Arc;
use uuid::Uuid;

pub const QUERY: &str = r#"{"credentials":[{"id":"q","format":"dc+sd-jwt","meta":{"vct_values":["v"]}}]}"#;
pub fn query() -> DcqlQuery { serde_json::from_str(QUERY).unwrap() }

/// A client whose token is "signed:" followed by the request object.
#[derive(Debug)]
pub struct Cl { pub id: ClientId, pub prefix: String, pub signs: bool, pub bodies: Cellx<Vec<String>> }
impl Cl { pub fn new(id: &str, prefix: &str) -> Arc<Cl> { Arc::new(Cl { id: ClientId(id.into()), prefix: prefix.into(), signs: true, bodies: Default::default() }) } }
#[async_trait::async_trait]
impl Client for Cl {
    fn id(&self) -> &ClientId { &self.id }
    fn prefix(&self) -> ClientIdScheme { ClientIdScheme(self.prefix.clone()) }
    async fn generate_request_object_jwt(&self, body: &AuthorizationRequestObject) -> Result<String> {
        let t = serde_json::to_string(body)?;
        self.bodies.0.borrow_mut().push(t.clone());
        if self.signs { Ok(format!("signed.{}.x", b64url(t))) } else { bail!("cannot sign") }
    }
}
/// A store that keeps every session it is given, and may refuse to.
#[derive(Debug)]
pub struct Rec { pub works: bool, pub sessions: Cellx<Vec<Session>> }
impl Rec { pub fn new(works: bool) -> Arc<Rec> { Arc::new(Rec { works, sessions: Default::default() }) } }
#[async_trait::async_trait]
impl SessionStore for Rec {
    async fn initiate(&self, s: Session) -> Result<()> { if self.works { self.sessions.0.borrow_mut().push(s); Ok(()) } else { bail!("store is full") } }
    async fn update_status(&self, _: Uuid, _: Status) -> Result<()> { fail("a status was updated") }
    async fn get_session(&self, _: Uuid) -> Result<Session> { fail("a session was read") }
    async fn remove_session(&self, _: Uuid) -> Result<()> { fail("a session was removed") }
}
pub fn aro(extra: &str) -> AuthorizationRequestObject { obj(&format!(r#"{{"client_id":"c","nonce":"n","response_mode":"direct_post","response_type":"vp_token","response_uri":"https://v/r"{extra}}}"#)).try_into().unwrap() }
pub fn session(uuid: Uuid, status: Status, token: &str) -> Session {
    Session { uuid, status, authorization_request_jwt: token.into(), authorization_request_object: aro(""), dcql_query: query() }
}
