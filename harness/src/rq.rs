//! A stand-in for reqwest: the same interface, recording what would be sent and answering as told. No network.
use crate::fx::Cellx;
pub use bytes::Bytes;
pub use http::{header, HeaderMap, Method, StatusCode, Version};
pub use url::Url;
use http::Extensions;
use std::time::Duration;

/// What a client was asked to send.
#[derive(Clone)]
pub struct Sent { pub method: Method, pub url: Url, pub headers: HeaderMap, pub body: Option<Vec<u8>>, pub version: Version, pub extensions: Extensions, pub insecure: bool }
/// What comes back: the parts of the answer, then its body piece by piece; `broken`: reading fails after the last piece.
#[derive(Clone)]
pub struct Answer { pub status: StatusCode, pub version: Version, pub headers: HeaderMap, pub extensions: Extensions, pub pieces: Vec<Vec<u8>>, pub broken: bool }
pub static SENT: Cellx<Vec<Sent>> = Cellx(std::cell::RefCell::new(Vec::new()));
/// The answer to every request; none: the exchange fails.
pub static NEXT: Cellx<Option<Answer>> = Cellx(std::cell::RefCell::new(None));
/// Whether a client can be built.
pub static BUILDS: Cellx<bool> = Cellx(std::cell::RefCell::new(true));

pub struct Error { kind: &'static str, status: Option<StatusCode> }
pub type Result<T> = std::result::Result<T, Error>;
fn error(kind: &'static str) -> Error { Error { kind, status: None } }
impl std::fmt::Debug for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.kind) } }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.kind) } }
impl std::error::Error for Error {}
impl Error {
    pub fn is_builder(&self) -> bool { self.kind == "builder" }
    pub fn is_redirect(&self) -> bool { false }
    pub fn is_status(&self) -> bool { self.kind == "status" }
    pub fn is_timeout(&self) -> bool { self.kind == "request" }
    pub fn is_connect(&self) -> bool { self.kind == "request" }
    pub fn is_request(&self) -> bool { self.kind == "request" }
    pub fn is_body(&self) -> bool { self.kind == "body" }
    pub fn is_decode(&self) -> bool { self.kind == "decode" }
    pub fn status(&self) -> Option<StatusCode> { self.status }
    pub fn url(&self) -> Option<&Url> { None }
    pub fn with_url(self, _: Url) -> Self { self }
    pub fn without_url(self) -> Self { self }
}

#[derive(Debug, Default)]
pub struct Body(Vec<u8>);
impl Body { pub fn as_bytes(&self) -> Option<&[u8]> { Some(&self.0) } }
impl From<Vec<u8>> for Body { fn from(b: Vec<u8>) -> Self { Body(b) } }
impl From<Bytes> for Body { fn from(b: Bytes) -> Self { Body(b.to_vec()) } }
impl From<&'static [u8]> for Body { fn from(b: &'static [u8]) -> Self { Body(b.to_vec()) } }
impl From<String> for Body { fn from(b: String) -> Self { Body(b.into_bytes()) } }
impl From<&'static str> for Body { fn from(b: &'static str) -> Self { Body(b.into()) } }

pub trait IntoUrl { fn into_url(self) -> Result<Url>; }
impl IntoUrl for Url { fn into_url(self) -> Result<Url> { Ok(self) } }
impl IntoUrl for &str { fn into_url(self) -> Result<Url> { Url::parse(self).map_err(|_| error("builder")) } }
impl IntoUrl for String { fn into_url(self) -> Result<Url> { self.as_str().into_url() } }
impl IntoUrl for &String { fn into_url(self) -> Result<Url> { self.as_str().into_url() } }

#[derive(Debug)]
pub struct Request { method: Method, url: Url, headers: HeaderMap, body: Option<Body>, timeout: Option<Duration>, version: Version, extensions: Extensions }
impl Request {
    pub fn new(method: Method, url: Url) -> Self { Request { method, url, headers: HeaderMap::new(), body: None, timeout: None, version: Version::default(), extensions: Extensions::new() } }
    pub fn method(&self) -> &Method { &self.method }
    pub fn method_mut(&mut self) -> &mut Method { &mut self.method }
    pub fn url(&self) -> &Url { &self.url }
    pub fn url_mut(&mut self) -> &mut Url { &mut self.url }
    pub fn headers(&self) -> &HeaderMap { &self.headers }
    pub fn headers_mut(&mut self) -> &mut HeaderMap { &mut self.headers }
    pub fn body(&self) -> Option<&Body> { self.body.as_ref() }
    pub fn body_mut(&mut self) -> &mut Option<Body> { &mut self.body }
    pub fn timeout(&self) -> Option<&Duration> { self.timeout.as_ref() }
    pub fn timeout_mut(&mut self) -> &mut Option<Duration> { &mut self.timeout }
    pub fn version(&self) -> Version { self.version }
    pub fn version_mut(&mut self) -> &mut Version { &mut self.version }
    pub fn try_clone(&self) -> Option<Request> { Some(Request { method: self.method.clone(), url: self.url.clone(), headers: self.headers.clone(), body: self.body.as_ref().map(|b| Body(b.0.clone())), timeout: self.timeout, version: self.version, extensions: self.extensions.clone() }) }
}
impl<T: Into<Body>> TryFrom<http::Request<T>> for Request {
    type Error = Error;
    fn try_from(r: http::Request<T>) -> Result<Self> {
        let (p, body) = r.into_parts();
        let url = Url::parse(&p.uri.to_string()).map_err(|_| error("builder"))?;
        Ok(Request { method: p.method, url, headers: p.headers, body: Some(body.into()), timeout: None, version: p.version, extensions: p.extensions })
    }
}
impl TryFrom<Request> for http::Request<Body> {
    type Error = Error;
    fn try_from(r: Request) -> Result<Self> {
        let mut q = http::Request::builder().method(r.method).uri(r.url.as_str()).version(r.version).body(r.body.unwrap_or_default()).map_err(|_| error("builder"))?;
        *q.headers_mut() = r.headers;
        Ok(q)
    }
}

#[derive(Debug, Clone, Default)]
pub struct Client { insecure: bool, https_only: bool, defaults: HeaderMap }
#[derive(Debug, Default)]
pub struct ClientBuilder { insecure: bool, https_only: bool, defaults: HeaderMap }
macro_rules! settings { ($($n:ident($($t:ty),*))*) => { $(pub fn $n(self, $(_: $t),*) -> Self { self })* } }
impl ClientBuilder {
    pub fn new() -> Self { Self::default() }
    pub fn build(self) -> Result<Client> { if *BUILDS.0.borrow() { Ok(Client { insecure: self.insecure, https_only: self.https_only, defaults: self.defaults }) } else { Err(error("builder")) } }
    pub fn default_headers(mut self, h: HeaderMap) -> Self { self.defaults = h; self }
    pub fn danger_accept_invalid_certs(mut self, on: bool) -> Self { self.insecure |= on; self }
    pub fn danger_accept_invalid_hostnames(mut self, on: bool) -> Self { self.insecure |= on; self }
    pub fn tls_built_in_root_certs(self, _: bool) -> Self { self }
    pub fn user_agent(mut self, v: impl AsRef<str>) -> Self { if let Ok(v) = header::HeaderValue::try_from(v.as_ref()) { self.defaults.insert(header::USER_AGENT, v); } self }
    pub fn https_only(mut self, on: bool) -> Self { self.https_only = on; self }
    pub fn redirect(self, _: redirect::Policy) -> Self { self }
    pub fn pool_idle_timeout(self, _: impl Into<Option<Duration>>) -> Self { self }
    pub fn tcp_keepalive(self, _: impl Into<Option<Duration>>) -> Self { self }
    settings! { use_rustls_tls() use_native_tls() no_proxy() http1_only() http1_title_case_headers() http2_prior_knowledge() no_gzip() no_brotli() no_zstd() no_deflate() no_hickory_dns()
        referer(bool) timeout(Duration) read_timeout(Duration) connect_timeout(Duration) connection_verbose(bool) pool_max_idle_per_host(usize) tcp_nodelay(bool) tls_sni(bool) tls_info(bool) }
}
pub mod redirect {
    #[derive(Debug, Default)]
    pub struct Policy;
    impl Policy { pub fn none() -> Self { Policy } pub fn limited(_: usize) -> Self { Policy } }
}
impl Client {
    pub fn new() -> Self { Self::default() }
    pub fn builder() -> ClientBuilder { ClientBuilder::new() }
    pub fn request<U: IntoUrl>(&self, m: Method, u: U) -> RequestBuilder { RequestBuilder { client: self.clone(), request: u.into_url().map(|u| Request::new(m, u)) } }
    pub fn get<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.request(Method::GET, u) }
    pub fn post<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.request(Method::POST, u) }
    pub fn put<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.request(Method::PUT, u) }
    pub fn patch<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.request(Method::PATCH, u) }
    pub fn delete<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.request(Method::DELETE, u) }
    pub fn head<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.request(Method::HEAD, u) }
    pub fn execute(&self, mut r: Request) -> impl std::future::Future<Output = Result<Response>> + Send {
        for (k, v) in self.defaults.iter() { if !r.headers.contains_key(k) { r.headers.append(k.clone(), v.clone()); } }
        let refused = self.https_only && r.url.scheme() != "https";
        if !refused { SENT.0.borrow_mut().push(Sent { method: r.method, url: r.url.clone(), headers: r.headers, body: r.body.map(|b| b.0), version: r.version, extensions: r.extensions, insecure: self.insecure }); }
        let a = NEXT.0.borrow().clone();
        async move { match a { _ if refused => Err(error("builder")), Some(answer) => Ok(Response { answer, url: r.url, at: 0 }), None => Err(error("request")) } }
    }
}
#[derive(Debug)]
pub struct RequestBuilder { client: Client, request: Result<Request> }
impl RequestBuilder {
    pub fn from_parts(client: Client, request: Request) -> Self { RequestBuilder { client, request: Ok(request) } }
    fn with(mut self, f: impl FnOnce(&mut Request)) -> Self { if let Ok(r) = &mut self.request { f(r) } self }
    pub fn header<K, V>(mut self, k: K, v: V) -> Self where header::HeaderName: TryFrom<K>, header::HeaderValue: TryFrom<V> {
        match (header::HeaderName::try_from(k), header::HeaderValue::try_from(v)) { (Ok(k), Ok(v)) => self.with(|r| { r.headers.append(k, v); }), _ => { self.request = Err(error("builder")); self } }
    }
    /// As reqwest does it: the given values replace those already there, per name.
    pub fn headers(self, h: HeaderMap) -> Self { self.with(|r| { for k in h.keys() { r.headers.remove(k); } for (k, v) in h.iter() { r.headers.append(k.clone(), v.clone()); } }) }
    pub fn body<T: Into<Body>>(self, b: T) -> Self { self.with(|r| r.body = Some(b.into())) }
    pub fn timeout(self, t: Duration) -> Self { self.with(|r| r.timeout = Some(t)) }
    pub fn version(self, v: Version) -> Self { self.with(|r| r.version = v) }
    pub fn build(self) -> Result<Request> { self.request }
    pub fn build_split(self) -> (Client, Result<Request>) { (self.client, self.request) }
    pub async fn send(self) -> Result<Response> { let r = self.request?; self.client.execute(r).await }
    pub fn try_clone(&self) -> Option<Self> { self.request.as_ref().ok().and_then(|r| r.try_clone()).map(|r| RequestBuilder { client: self.client.clone(), request: Ok(r) }) }
}
pub struct Response { answer: Answer, url: Url, at: usize }
impl std::fmt::Debug for Response { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Response") } }
impl Response {
    pub fn status(&self) -> StatusCode { self.answer.status }
    pub fn version(&self) -> Version { self.answer.version }
    pub fn headers(&self) -> &HeaderMap { &self.answer.headers }
    pub fn headers_mut(&mut self) -> &mut HeaderMap { &mut self.answer.headers }
    pub fn extensions(&self) -> &Extensions { &self.answer.extensions }
    pub fn extensions_mut(&mut self) -> &mut Extensions { &mut self.answer.extensions }
    pub fn url(&self) -> &Url { &self.url }
    pub fn remote_addr(&self) -> Option<std::net::SocketAddr> { None }
    /// What the body says of its own length: known when it is there in one piece.
    pub fn content_length(&self) -> Option<u64> { match (&self.answer.pieces[..], self.answer.broken) { ([], false) => Some(0), ([b], false) => Some(b.len() as u64), _ => None } }
    pub async fn chunk(&mut self) -> Result<Option<Bytes>> {
        match self.answer.pieces.get(self.at) { Some(p) => { self.at += 1; Ok(Some(Bytes::from(p.clone()))) } None if self.answer.broken => Err(error("body")), None => Ok(None) }
    }
    pub async fn bytes(mut self) -> Result<Bytes> { let mut all = Vec::new(); while let Some(p) = self.chunk().await? { all.extend_from_slice(&p); } Ok(Bytes::from(all)) }
    pub async fn text(self) -> Result<String> { let b = self.bytes().await?; Ok(String::from_utf8_lossy(&b).into_owned()) }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> { let b = self.bytes().await?; serde_json::from_slice(&b).map_err(|_| error("decode")) }
    pub fn error_for_status(self) -> Result<Self> { let s = self.answer.status; if s.is_client_error() || s.is_server_error() { Err(Error { kind: "status", status: Some(s) }) } else { Ok(self) } }
    pub fn error_for_status_ref(&self) -> Result<&Self> { let s = self.answer.status; if s.is_client_error() || s.is_server_error() { Err(Error { kind: "status", status: Some(s) }) } else { Ok(self) } }
}
impl From<Response> for Body { fn from(r: Response) -> Body { Body(r.answer.pieces.concat()) } }
impl<T: Into<Body>> From<http::Response<T>> for Response {
    fn from(r: http::Response<T>) -> Response {
        let (p, b) = r.into_parts();
        Response { answer: Answer { status: p.status, version: p.version, headers: p.headers, extensions: p.extensions, pieces: vec![b.into().0], broken: false }, url: Url::parse("http://no.url.provided.local").unwrap(), at: 0 }
    }
}
impl From<Response> for http::Response<Body> {
    fn from(r: Response) -> Self {
        let mut h = http::Response::new(Body(vec![]));
        *h.status_mut() = r.answer.status;
        *h.version_mut() = r.answer.version;
        *h.headers_mut() = r.answer.headers.clone();
        *h.extensions_mut() = r.answer.extensions.clone();
        *h.body_mut() = r.into();
        h
    }
}
