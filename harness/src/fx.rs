//! Shared fixtures: a scripted HTTP client, a recording wallet, JWT assembly.
use crate::vsym::*;
use anyhow::{bail, Result};
use openid4vp::core::authorization_request::verification::RequestVerifier;
use openid4vp::core::authorization_request::AuthorizationRequestObject;
use openid4vp::core::metadata::WalletMetadata;
use openid4vp::core::object::UntypedObject;
use openid4vp::core::util::AsyncHttpClient;
use openid4vp::wallet::Wallet;
use serde_json::Value as Json;
use std::cell::RefCell;

pub const LOWER: &str = "abcdefghijklmnopqrstuvwxyz";
/// Every printable character that JSON text holds as it is.
pub const IDCHARS: &str = r##" !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"##;
pub const IDCHARS_NOCOLON: &str = r##" !#$%&'()*+,-./0123456789;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"##;

/// A character beyond ASCII: any of 64 two-byte ones, or one whose case or width is a trap.
pub fn beyond() -> String {
    match choose(2) { 0 => char::from_u32(0xa0 + sym(64) as u32).unwrap().to_string(), _ => pick(&["\u{17f}", "\u{212a}", "\u{3000}", "\u{feff}", "\u{1f511}"]).into() }
}
/// As `beyond`, few enough for encodings that treat every byte differently.
pub fn beyond_few() -> &'static str { pick(&["\u{e9}", "\u{17f}", "\u{3000}", "\u{1f511}"]) }
/// Members of a request that decide nothing about who it is from and how it is answered.
pub fn beside() -> &'static str {
    pick(&["", r#","state":"s","scope":"openid""#, r#","client_metadata":{"vp_formats_supported":{"mso_mdoc":{}}}"#, r#","iss":"c","aud":"https://self-issued.me/v2","iat":1,"exp":2,"nbf":3,"jti":"j""#, r#","wallet_nonce":"w","request_uri_method":"post","request_uri":"https://v/2","transaction_data":["e30"],"verifier_info":[{"format":"jwt","data":"x"}]"#,
        r#","expected_origins":["https://v"],"presentation_definition":{"id":"p","input_descriptors":[]},"client_id_scheme":"x509_hash","nonce2":"","dcql_query":{"credentials":[]}"#,
        r#","typ":"oauth-authz-req+jwt","cty":"oauth-authz-req+jwt","alg":"ES256","kid":"did:a:b#c","jwks":{"keys":[{"use":"enc","alg":"ECDH-ES"}]},"x5c":["AA"],"token_type":"oauth-authz-req+jwt""#])
}
/// Parameters that requests of this and related protocols know, and some they do not; none decides anything here.
pub const EVERY: &str = r#""request_uri_method":"post","wallet_nonce":"w","wallet_metadata":{"a":1},"scope":"openid","state":"s","prompt":"login","display":"page","max_age":0,"ui_locales":"en","claims":{},"claims_locales":"de","id_token_hint":"h","id_token_type":"subject_signed","login_hint":"l","acr_values":"a","registration":{"x":1},"registration_uri":"https://v/g","client_metadata_uri":"https://v/m","client_id_scheme":"x509_hash","client_id_prefix":"x509_hash","presentation_definition":{"id":"p"},"presentation_definition_uri":"https://v/p","transaction_data":["e30"],"verifier_info":[{"format":"jwt","data":"x"}],"verifier_attestations":[],"expected_origins":["https://v"],"code_challenge":"c","code_challenge_method":"S256","dpop_jkt":"j","resource":"https://v","authorization_details":[],"issuer_state":"i","iss":"i","sub":"s","aud":"https://self-issued.me/v2","exp":1,"nbf":2,"iat":3,"jti":"j","origin":"https://v","trust_chain":[],"redirect_url":"https://v/2","error":"e","vp_token":{},"id_token":"t","response":"r","ext_1":[null,{"":[]}]"#;
/// Any text of up to 24 (40) characters.
pub fn any() -> String { string(choose(bound(25, 41)), IDCHARS) }
/// n ordinary characters.
pub fn filler(n: usize) -> String { "abcdefg-hijklmnop_qrstuvwxyz.0123456789".bytes().cycle().take(n).map(|b| b as char).collect() }
/// A text near `t`: a character more at either end, or one replaced, by any character of any class.
pub fn near(t: &str) -> String {
    let i = choose(t.len() + 3);
    let c = if flag() { string(1, IDCHARS) } else { beyond() };
    if i == t.len() { format!("{c}{t}") } else if i == t.len() + 1 { format!("{t}{c}") } else if i == t.len() + 2 { t.to_string() } else { format!("{}{c}{}", &t[..i], &t[i + 1..]) }
}
/// As `near`, at the first, middle and last character only.
pub fn near_tail(t: &str) -> String {
    let c = if flag() { string(1, IDCHARS) } else { beyond() };
    match choose(5) { 0 => format!("{t}{c}"), 1 => t.to_string(), k => { let i = [0, t.len() / 2, t.len() - 1][k - 2]; format!("{}{c}{}", &t[..i], &t[i + 1..]) } }
}

/// Own base64url encoder, so that the code under test does not build its own input.
pub fn b64url(d: impl AsRef<[u8]>) -> String { b64(d, b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", false) }
pub fn b64std(d: impl AsRef<[u8]>) -> String { b64(d, b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", true) }
fn b64(d: impl AsRef<[u8]>, t: &[u8; 64], pad: bool) -> String {
    let d = d.as_ref();
    let mut o = Vec::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() { o.push(t[(n >> (18 - 6 * i)) as usize & 63]); }
        if pad { for _ in c.len()..3 { o.push(b'='); } }
    }
    unsafe { String::from_utf8_unchecked(o) }
}
/// An unsigned-looking compact JWS: header and payload as given, signature text as given.
pub fn jwt(header: &str, payload: &str, sig: &str) -> String { format!("{}.{}.{}", b64url(header), b64url(payload), sig) }
pub const HDR: &str = r#"{"alg":"ES256","typ":"oauth-authz-req+jwt"}"#;

pub fn obj(s: &str) -> UntypedObject { serde_json::from_str(s).unwrap() }
pub fn json(s: &str) -> Json { serde_json::from_str(s).unwrap() }

/// Shared mutable state; the harnesses are single-threaded.
#[derive(Default)]
pub struct Cellx<T>(pub RefCell<T>);
unsafe impl<T> Sync for Cellx<T> {}
unsafe impl<T> Send for Cellx<T> {}
impl<T> std::fmt::Debug for Cellx<T> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }

pub struct Req { pub method: String, pub uri: String, pub headers: Vec<(String, String)>, pub body: Vec<u8> }
/// An HTTP client that records every request and answers with the scripted response.
#[derive(Default)]
pub struct Http { pub log: Cellx<Vec<Req>>, pub answer: Cellx<Option<(u16, Vec<u8>)>> }
impl Http {
    pub fn none() -> Self { Self::default() }
    pub fn answering(status: u16, body: Vec<u8>) -> Self { Self { log: Default::default(), answer: Cellx(RefCell::new(Some((status, body)))) } }
}
#[async_trait::async_trait]
impl AsyncHttpClient for Http {
    async fn execute(&self, r: http::Request<Vec<u8>>) -> Result<http::Response<Vec<u8>>> {
        let headers = r.headers().iter().map(|(k, v)| (k.as_str().to_string(), v.to_str().unwrap().to_string())).collect();
        self.log.0.borrow_mut().push(Req { method: r.method().as_str().to_string(), uri: r.uri().to_string(), headers, body: r.into_body() });
        match self.answer.0.borrow().clone() {
            // headers that say nothing about the answer, or something else; the bodies of even length come without any
            Some((s, b)) if b.len() % 2 == 1 => Ok(http::Response::builder().status(s).header("content-type", "text/html").header("location", "https://elsewhere.example/x").header("refresh", "0; url=https://elsewhere.example/y").header("retry-after", "1").header("www-authenticate", "DPoP").header("dpop-nonce", "n").body(b)?),
            Some((s, b)) => Ok(http::Response::builder().status(s).body(b)?),
            None => bail!("the network is down"),
        }
    }
}

pub struct Call { pub method: &'static str, pub prefix: String, pub object: Json, pub jwt: Option<String> }
/// A wallet whose verifiers record what they were asked and answer `accept`.
pub struct W { pub md: WalletMetadata, pub http: Http, pub accept: bool, pub calls: Cellx<Vec<Call>> }
impl W {
    pub fn new(md: WalletMetadata, http: Http, accept: bool) -> Self { Self { md, http, accept, calls: Default::default() } }
    fn call(&self, method: &'static str, prefix: &str, o: &AuthorizationRequestObject, jwt: Option<String>) -> Result<()> {
        self.calls.0.borrow_mut().push(Call { method, prefix: prefix.into(), object: UntypedObject::from(o.clone()).into(), jwt });
        if self.accept { Ok(()) } else { bail!("verifier said no") }
    }
}
macro_rules! rec { ($($m:ident)*) => {
    #[async_trait::async_trait]
    impl RequestVerifier for W {
        $(async fn $m(&self, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> { self.call(stringify!($m), "", o, j) })*
        async fn other(&self, p: &str, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> { self.call("other", p, o, j) }
    }
} }
rec! { decentralized_identifier openid_federation preregistered redirect_uri verifier_attestation x509_san_dns x509_hash }
#[async_trait::async_trait]
impl Wallet for W {
    type HttpClient = Http;
    fn metadata(&self) -> &WalletMetadata { &self.md }
    fn http_client(&self) -> &Http { &self.http }
}
/// Wallet metadata from the text of a JSON object; the mandatory members are added.
pub fn metadata(extra: &str) -> WalletMetadata {
    let sep = if extra.is_empty() { "" } else { "," };
    obj(&format!(r#"{{"authorization_endpoint":"openid4vp:","vp_formats_supported":{{}}{sep}{extra}}}"#)).try_into().unwrap()
}
pub fn errtext<T>(r: &Result<T>) -> String { match r { Ok(_) => "ok".into(), Err(e) => format!("{e:#}") } }
pub fn outcome<T>(r: &Result<T>) { observe("outcome", errtext(r).as_bytes()); }
pub fn unb64(s: &str) -> Vec<u8> {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let (mut o, mut n, mut b) = (vec![], 0u32, 0);
    for c in s.bytes() {
        n = n << 6 | T.iter().position(|t| *t == c).unwrap() as u32;
        b += 6;
        if b >= 8 { b -= 8; o.push((n >> b) as u8); n &= (1 << b) - 1; }
    }
    o
}
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
/// Texts that mean something elsewhere.
pub fn word() -> &'static str { pick(&["null", "undefined", "None", "true", "0", "-1", "1e3", "{}", "[]", "\"\"", "\"a\"", "{\"a\":1}", "nil", "NaN", "vp_token", "response", "state=1", "%20", "%", "+", "a.b.c", "aGk=", " ", "-", "*"]) }
/// Equality of JSON values without branching on texts.
pub fn same_json(a: &serde_json::Value, b: &serde_json::Value) -> bool {
    use serde_json::Value::*;
    match (a, b) {
        (String(a), String(b)) => eq(a, b),
        (Array(a), Array(b)) => a.len() == b.len() && a.iter().zip(b).fold(true, |r, (a, b)| r & same_json(a, b)),
        (Object(a), Object(b)) => a.len() == b.len() && a.iter().fold(true, |r, (k, v)| r & b.get(k).map_or(false, |w| same_json(v, w))),
        _ => a == b,
    }
}
