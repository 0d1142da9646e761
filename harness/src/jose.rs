//! A stand-in for josekit (not available offline): the same interface, recording what would be encrypted, how and to whom.
use crate::fx::Cellx;
use serde_json::{Map, Value};
#[derive(Debug)]
pub struct JoseError(&'static str);
impl std::fmt::Display for JoseError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) } }
impl std::error::Error for JoseError {}

/// One encryption: header, payload, key.
#[derive(Clone)]
pub struct Made { pub header: Map<String, Value>, pub payload: Map<String, Value>, pub key: Map<String, Value> }
pub static MADE: Cellx<Vec<Made>> = Cellx(std::cell::RefCell::new(Vec::new()));
/// The text the next encryption yields; none: encryption fails.
pub static NEXT: Cellx<Option<String>> = Cellx(std::cell::RefCell::new(None));

pub mod jwk {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
    #[serde(transparent)]
    pub struct Jwk { pub map: Map<String, Value> }
    impl Jwk {
        pub fn from_bytes(b: impl AsRef<[u8]>) -> Result<Jwk, JoseError> { serde_json::from_slice::<Map<String, Value>>(b.as_ref()).map_err(|_| JoseError("no JWK")).and_then(Jwk::from_map) }
        pub fn from_map(map: impl Into<Map<String, Value>>) -> Result<Jwk, JoseError> {
            let map = map.into();
            if !matches!(map.get("kty"), Some(Value::String(_))) { return Err(JoseError("no kty")); }
            for k in ["use", "alg", "kid"] { if !matches!(map.get(k), None | Some(Value::String(_))) { return Err(JoseError("not a string")); } }
            Ok(Jwk { map })
        }
        fn str(&self, k: &str) -> Option<&str> { self.map.get(k).and_then(|v| v.as_str()) }
        pub fn key_id(&self) -> Option<&str> { self.str("kid") }
        pub fn key_use(&self) -> Option<&str> { self.str("use") }
        pub fn key_type(&self) -> &str { self.str("kty").unwrap_or("") }
        pub fn algorithm(&self) -> Option<&str> { self.str("alg") }
        pub fn curve(&self) -> Option<&str> { self.str("crv") }
        pub fn parameter(&self, k: &str) -> Option<&Value> { self.map.get(k) }
    }
    impl From<Jwk> for Map<String, Value> { fn from(j: Jwk) -> Self { j.map } }
    impl AsRef<Map<String, Value>> for Jwk { fn as_ref(&self) -> &Map<String, Value> { &self.map } }
}
pub mod jwe {
    use super::*;
    #[derive(Debug, Clone, Default)]
    pub struct JweHeader { pub map: Map<String, Value> }
    impl JweHeader {
        pub fn new() -> Self { Self::default() }
        fn set(&mut self, k: &str, v: impl Into<String>) { self.map.insert(k.into(), Value::String(v.into())); }
        pub fn set_token_type(&mut self, v: impl Into<String>) { self.set("typ", v) }
        pub fn set_content_type(&mut self, v: impl Into<String>) { self.set("cty", v) }
        pub fn set_algorithm(&mut self, v: impl Into<String>) { self.set("alg", v) }
        pub fn set_content_encryption(&mut self, v: impl Into<String>) { self.set("enc", v) }
        pub fn set_key_id(&mut self, v: impl Into<String>) { self.set("kid", v) }
        pub fn key_id(&self) -> Option<&str> { self.map.get("kid").and_then(|v| v.as_str()) }
        pub fn set_claim(&mut self, k: &str, v: Option<Value>) -> Result<(), JoseError> { match v { Some(v) => { self.map.insert(k.into(), v); } None => { self.map.remove(k); } } Ok(()) }
    }
    pub trait JweEncrypter { fn key(&self) -> &Map<String, Value>; }
    pub mod alg { pub mod ecdh_es {
        pub struct EcdhEsJweEncrypter<P>(pub(crate) serde_json::Map<String, serde_json::Value>, pub(crate) std::marker::PhantomData<P>);
        impl<P> super::super::JweEncrypter for EcdhEsJweEncrypter<P> { fn key(&self) -> &serde_json::Map<String, serde_json::Value> { &self.0 } }
    } }
    pub struct EcdhEs;
    pub const ECDH_ES: EcdhEs = EcdhEs;
    impl EcdhEs {
        pub fn encrypter_from_jwk<P>(&self, j: &jwk::Jwk) -> Result<alg::ecdh_es::EcdhEsJweEncrypter<P>, JoseError> {
            if j.map.get("x").is_none() { return Err(JoseError("no point")); }
            Ok(alg::ecdh_es::EcdhEsJweEncrypter(j.map.clone(), std::marker::PhantomData))
        }
    }
}
pub mod jwt {
    use super::*;
    #[derive(Debug, Clone, Default)]
    pub struct JwtPayload { pub map: Map<String, Value> }
    impl JwtPayload {
        pub fn new() -> Self { Self::default() }
        pub fn from_map(map: impl Into<Map<String, Value>>) -> Result<Self, JoseError> { Ok(Self { map: map.into() }) }
        pub fn set_claim(&mut self, k: &str, v: Option<Value>) -> Result<(), JoseError> { match v { Some(v) => { self.map.insert(k.into(), v); } None => { self.map.remove(k); } } Ok(()) }
    }
    pub fn encode_with_encrypter(p: &JwtPayload, h: &jwe::JweHeader, e: &dyn jwe::JweEncrypter) -> Result<String, JoseError> {
        MADE.0.borrow_mut().push(Made { header: h.map.clone(), payload: p.map.clone(), key: e.key().clone() });
        NEXT.0.borrow().clone().ok_or(JoseError("cannot encrypt"))
    }
}
