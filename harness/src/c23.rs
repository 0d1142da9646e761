//! The verifier's own clients: their identifiers, their tokens, and that wallets accept both.
use crate::fixtures::*;
use crate::fx::*;
use crate::vf;
use crate::vsym::*;
use crate::x5::{self, ALGS};
use anyhow::{bail, Result};
use openid4vp::core::authorization_request::parameters::{ClientId, Nonce, ResponseMode, ResponseType, State};
use openid4vp::core::authorization_request::verification::verifier::P256Verifier;
use openid4vp::core::authorization_request::verification::{did, x509_hash, x509_san, RequestVerifier};
use openid4vp::core::authorization_request::{AuthorizationRequest, AuthorizationRequestObject};
use openid4vp::core::metadata::WalletMetadata;
use openid4vp::verifier::client::{Client, DIDClient, X509HashClient, X509SanDnsClient};
use openid4vp::verifier::request_signer::{P256Signer, RequestSigner};
use openid4vp::verifier::session::MemoryStore;
use openid4vp::verifier::Verifier;
use openid4vp::wallet::Wallet;
use ssi_jwk::{JWKResolver, JWK};
use sha2::Digest;
use std::borrow::Cow;
use std::sync::Arc;
use x509_cert::der::{Decode, Encode};
use x509_cert::Certificate;

/// Signs with the bytes it is told to, and records what it signed.
#[derive(Debug)]
struct Sig { alg: Option<String>, jwk: Option<&'static str>, sig: Vec<u8>, signed: Cellx<Vec<Vec<u8>>> }
#[async_trait::async_trait]
impl RequestSigner for Sig {
    type Error = anyhow::Error;
    fn alg(&self) -> Result<String> { match &self.alg { Some(a) => Ok(a.clone()), None => bail!("no algorithm") } }
    fn jwk(&self) -> Result<JWK> { match self.jwk { Some(k) => Ok(key(k)), None => bail!("no key") } }
    async fn sign(&self, p: &[u8]) -> Vec<u8> { self.signed.0.borrow_mut().push(p.to_vec()); self.sig.clone() }
}
fn key(s: &str) -> JWK { serde_json::from_str(s).unwrap() }
fn signer(alg: Option<String>, jwk: Option<&'static str>, sig: Vec<u8>) -> Arc<Sig> { Arc::new(Sig { alg, jwk, sig, signed: Default::default() }) }
struct Res { key: Option<&'static str>, asked: Cellx<Vec<Option<String>>> }
impl JWKResolver for &Res {
    async fn fetch_public_jwk(&'_ self, id: Option<&str>) -> Result<Cow<'_, JWK>, ssi_claims::ProofValidationError> {
        self.asked.0.borrow_mut().push(id.map(|s| s.to_string()));
        match self.key { Some(k) => Ok(Cow::Owned(key(k))), None => Err(ssi_claims::ProofValidationError::UnknownKey) }
    }
}
fn res(key: Option<&'static str>) -> Res { Res { key, asked: Default::default() } }
fn cert(d: &[u8]) -> Certificate { Certificate::from_der(d).unwrap() }
fn body(id: &str, s: &str) -> AuthorizationRequestObject { obj(&format!(r#"{{"client_id":"{id}","nonce":"{s}","response_mode":"direct_post","response_type":"vp_token","response_uri":"https://v/r","x":[null,{{"k":"{s}","n":null}}],"y":null,"z":{{}}}}"#)).try_into().unwrap() }
/// The decoded header and payload of a token; checks the token against what was signed, and with what.
fn token(c: &dyn Client, o: &AuthorizationRequestObject, s: &Sig) -> Option<(String, String)> {
    let r = block_on(c.generate_request_object_jwt(o));
    outcome(&r);
    let Ok(t) = r else { check(s.alg.is_none(), "a client that can sign made no token"); check(s.signed.0.borrow().is_empty(), "a token was signed and then withheld"); cover("cannot sign"); return None };
    check(s.alg.is_some(), "a client without algorithm made a token");
    cover("signed");
    let p: Vec<&str> = t.split('.').collect();
    check(p.len() == 3, "a token does not have three parts");
    if p.len() != 3 { return None; }
    let l = s.signed.0.borrow();
    check(l.len() == 1 && eq(&l[0], format!("{}.{}", p[0], p[1])), "something else than the token's header and payload was signed");
    check(eq(p[2], b64url(&s.sig)), "the token's signature is not the one made for it");
    let want = serde_json::to_string(o).unwrap();
    check(eq(p[1], b64url(&want)), "the token's payload is not the request object");
    Some((p[0].to_string(), t.clone()))
}
fn with(cert: &[u8], old: &str, new: &str) -> Vec<u8> {
    let i = cert.windows(old.len()).position(|w| w == old.as_bytes()).unwrap();
    let mut c = cert.to_vec();
    c[i..i + new.len()].copy_from_slice(new.as_bytes());
    c
}
const IDCHARS_NOHASH: &str = r##" !$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"##;
fn alg() -> Option<String> { match choose(4) { 0 => None, 1 => Some("ES256".into()), 2 => Some("EdDSA".into()), _ => Some(string(3, IDCHARS)) } }
fn chain_of(k: usize) -> Vec<&'static [u8]> { match k { 0 => vec![CERT_C], 1 => vec![CERT_B, CERT_C, CERT_NONE, CERT_URI, CERT_A], 2 => vec![CERT_B, CERT_B], 3 => vec![CERT_MANY, CERT_B, CERT_MANY, CERT_B], _ => vec![CERT_C, CERT_C, CERT_B, CERT_C] } }
/// Whether the encoded header has exactly the algorithm, the type and this third member, in any order.
fn header(h: &str, s: &Sig, third: &str) -> bool {
    let Some(a) = &s.alg else { return false };
    let m = [format!(r#""alg":"{a}""#), r#""typ":"oauth-authz-req+jwt""#.to_string(), third.to_string()];
    [[0, 2, 1], [0, 1, 2], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]].iter().fold(false, |r, [i, j, k]| r | eq(h, b64url(format!("{{{},{},{}}}", m[*i], m[*j], m[*k]))))
}
/// Whether the certificate has a DNS name.
fn names(c: &[u8]) -> bool { c == CERT_A || c == CERT_B || c == CERT_C || c == CERT_MANY }
fn x5c(chain: &[&[u8]]) -> String { format!(r#""x5c":[{}]"#, chain.iter().map(|c| format!("\"{}\"", b64std(c))).collect::<Vec<_>>().join(",")) }
/// A wallet that runs the default verifications.
struct Wal { md: WalletMetadata, http: Http, res: Res }
#[async_trait::async_trait]
impl RequestVerifier for Wal {
    async fn decentralized_identifier(&self, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> { did::verify_with_resolver(&self.md, o, j.unwrap(), None, &self.res).await }
    async fn x509_san_dns(&self, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> { x509_san::validate::<x5::Rec>(&self.md, o, j.unwrap(), None) }
    async fn x509_hash(&self, o: &AuthorizationRequestObject, j: Option<String>) -> Result<()> { x509_hash::validate::<x5::Rec>(&self.md, o, j.unwrap(), None) }
}
#[async_trait::async_trait]
impl Wallet for Wal {
    type HttpClient = Http;
    fn metadata(&self) -> &WalletMetadata { &self.md }
    fn http_client(&self) -> &Http { &self.http }
}
crate::entries! {
    // a DID client exists exactly for a verification method whose key is the signer's
    c23_did {
        let vm = match choose(4) { 0 => string(choose(bound(4, 6)), "ab:#"), 1 => format!("did:ex:{}#{}", string(2, IDCHARS_NOHASH), string(choose(3), IDCHARS_NOHASH)), 2 => "did:ex:abc".to_string(), _ => pick(&["did:ex:abc#k1", "did:web:v.example%3A8443:a#k%23-1", "did:ex:abc/p?q=r#k", "did:key:z6Mk#z6Mk", "did:jwk:eyJrdHkiOiJFQyJ9#0", "did:jwk:eyJrdHkiOiJFQyJ9", "did:ion:EiA:eyJ#k", "did:web:v.example", "did:pkh:eip155:1:0xab#k", "urn:x#k"]).into() };
        let hashes = vm.bytes().fold(0, |k, c| k + (c == b'#') as usize);
        let (want, signs) = (pick(&[Some(K1_JWK), Some(K2_JWK), None]), pick(&[Some(K1_JWK), Some(K2_JWK), None]));
        let r = res(want);
        let s = signer(alg(), signs, bytes(choose(3), &[]));
        let c = block_on(DIDClient::new(vm.clone(), s.clone(), &r));
        outcome(&c);
        let ok = hashes > 0 && want.is_some() && want == signs;
        cover(if ok { "client" } else { "no client" });
        check(c.is_ok() == ok, if ok { "a client for the signer's own verification method was refused" } else { "a client was made for a verification method that is not the signer's" });
        check(r.asked.0.borrow().iter().fold(true, |k, a| k & a.as_ref().map_or(false, |a| eq(a, &vm))), "the key of another verification method was resolved");
        let Ok(c) = c else { return };
        if hashes == 1 {
            let d = &vm[..vm.find('#').unwrap()];
            check(eq(&c.id().0, format!("decentralized_identifier:{d}")), "the client identifier is not the DID of the verification method");
        }
        check(c.prefix().0 == "decentralized_identifier", "a DID client claims another prefix");
        let o = body("x", &string(1, "ab"));
        if let Some((h, _)) = token(&c, &o, &s) { check(header(&h, &s, &format!(r#""kid":"{vm}""#)), "the token's header is not that of a DID client"); }
    }
    // a verification method or algorithm of any length
    c23_any {
        let n = choose(bound(25, 41));
        let (vm, a) = if flag() { (format!("{}#k", string(n, IDCHARS_NOHASH)), "ES256".to_string()) } else { ("did:ex:abc#k1".to_string(), string(n, IDCHARS)) };
        let r = res(Some(K1_JWK));
        let s = signer(Some(a), Some(K1_JWK), vec![1, 2]);
        let c = block_on(DIDClient::new(vm.clone(), s.clone(), &r));
        cover("client");
        check(c.is_ok(), "a client for the signer's own verification method was refused");
        let Ok(c) = c else { return };
        let d = &vm[..vm.len() - if n > 0 && vm.ends_with("#k") { 2 } else { vm.len() - vm.find('#').unwrap() }];
        check(eq(&c.id().0, format!("decentralized_identifier:{d}")), "the client identifier is not the DID of the verification method");
        if let Some((h, _)) = token(&c, &body("x", "a"), &s) { check(header(&h, &s, &format!(r#""kid":"{vm}""#)), "the token's header is not that of a DID client"); }
    }
    // one client after another, one request after another
    c23_again {
        let (r, n) = (res(Some(K1_JWK)), string(1, "ab"));
        let (s, t) = (signer(Some("ES256".into()), Some(K1_JWK), vec![1, 2]), signer(Some("EdDSA".into()), Some(K1_JWK), vec![3]));
        let mk = |vm: &str, s: &std::sync::Arc<Sig>| block_on(DIDClient::new(vm.to_string(), s.clone(), &r)).unwrap();
        let v = pick(&["did:ex:abc#k2", "did:ex:abd#k1", "did:ex:abc#k1"]);
        let (one, two) = (mk("did:ex:abc#k1", &s), mk(v, &t));
        for k in [choose(2), choose(2), choose(2)] {
            let (c, s, vm) = if k == 0 { (&one, &s, "did:ex:abc#k1") } else { (&two, &t, v) };
            s.signed.0.borrow_mut().clear();
            if let Some((h, _)) = token(c, &body("x", if k == 0 { "s" } else { &n }), s) { check(header(&h, s, &format!(r#""kid":"{vm}""#)), "the token's header is not that of a DID client"); }
        }
        cover("again");
    }
    c23_san {
        let a = string(bound(2, 6), "ab*.A9-");
        let pad = "x".repeat(8 - a.len());
        let leaf = with(CERT_A, "aaaaaaaa", &format!("{a}{pad}"));
        let chain: Vec<&[u8]> = match choose(7) { 0 => vec![], 1 => vec![&leaf], 2 => vec![&leaf, CERT_B], 3 => vec![CERT_URI], 4 => vec![CERT_NONE, &leaf], 5 => vec![CERT_B, &leaf], _ => vec![&leaf, CERT_NONE, CERT_C] };
        let s = signer(alg(), Some(K1_JWK), bytes(choose(3), &[]));
        let c = X509SanDnsClient::new(chain.iter().map(|c| cert(c)).collect(), s.clone());
        outcome(&c);
        let named = chain.first().map_or(false, |l| *l != CERT_URI && *l != CERT_NONE);
        cover(if named { "client" } else { "no client" });
        check(c.is_ok() == named, if named { "a client named by its certificate was refused" } else { "a client was made without a name in its leaf certificate" });
        let Ok(c) = c else { return };
        let name = if chain[0] == CERT_B { None } else { Some(format!("x509_san_dns:{a}{pad}")) };
        if let Some(n) = &name { check(eq(&c.id().0, n), "the client identifier is not a DNS name of the leaf certificate"); }
        check(c.prefix().0 == "x509_san_dns", "a DNS client claims another prefix");
        let o = body(&c.id().0, &string(1, "ab"));
        let Some((h, t)) = token(&c, &o, &s) else { return };
        check(header(&h, &s, &x5c(&chain)), "the token's header is not that of a client with this chain");
        if name.is_none() { return; }
        let (ok, _) = x5::run(x509_san::validate::<x5::Rec>, &format!(r#""request_object_signing_alg_values_supported":["{}"]"#, s.alg.as_ref().unwrap()), Some(&c.id().0), &t, true, true);
        check(ok, "a wallet rejects a token made by a DNS client");
    }
    c23_hash {
        let chain: Vec<&[u8]> = match choose(4) { 0 => vec![], 1 => vec![CERT_C], 2 => vec![CERT_C, CERT_B], _ => vec![CERT_NONE, CERT_C] };
        let s = signer(alg(), Some(K1_JWK), bytes(choose(3), &[]));
        let c = X509HashClient::new(chain.iter().map(|c| cert(c)).collect(), s.clone());
        outcome(&c);
        cover(if chain.is_empty() { "no client" } else { "client" });
        check(c.is_ok() != chain.is_empty(), "a client exists without certificate, or not with one");
        let Ok(c) = c else { return };
        if chain[0] == CERT_C { check(c.id().0 == format!("x509_hash:{CERT_C_HASH}"), "the client identifier is not the hash of the leaf certificate"); }
        check(c.prefix().0 == "x509_hash", "a hash client claims another prefix");
        let o = body(&c.id().0, &string(1, "ab"));
        let Some((h, t)) = token(&c, &o, &s) else { return };
        check(header(&h, &s, &x5c(&chain)), "the token's header is not that of a client with this chain");
        let (ok, _) = x5::run(x509_hash::validate::<x5::Rec>, &format!(r#""request_object_signing_alg_values_supported":["{}"]"#, s.alg.as_ref().unwrap()), Some(&c.id().0), &t, true, true);
        check(ok, "a wallet rejects a token made by a hash client");
    }
    // chains of any length, with repetitions: complete and in order; any signature
    c23_chain {
        let chain = chain_of(choose(5));
        let s = signer(Some("ES256".into()), Some(K1_JWK), bytes(pick(&[0, 1, 2, 3, 64]), &[]));
        let n = pick(&["n", ""]);
        let st = match choose(3) { 0 => string(3, IDCHARS), 1 => beyond(), _ => format!("{}{}", filler(pick(&[100, 1000])), string(1, IDCHARS)) };
        let _ = n;
        let certs = chain.iter().map(|c| cert(c)).collect();
        let san = flag();
        let c: Arc<dyn Client + Send + Sync> = if san { match X509SanDnsClient::new(certs, s.clone()) { Ok(c) => Arc::new(c), Err(_) => { check(!names(chain[0]), "a client named by its certificate was refused"); return } } } else { Arc::new(X509HashClient::new(certs, s.clone()).unwrap()) };
        cover("chain");
        let o = body(&c.id().0, &st);
        let Some((h, _)) = token(&*c, &o, &s) else { return };
        check(header(&h, &s, &x5c(&chain)), "the token's header is not that of a client with this chain");
    }
    // the leaf is the first certificate, whatever the certificates look like
    c23_leaf {
        let serial = |c: &[u8], n: &[u8]| { let mut c = cert(c); c.tbs_certificate.serial_number = x509_cert::serial_number::SerialNumber::new(n).unwrap(); c.to_der().unwrap() };
        let all = [CERT_A.to_vec(), serial(CERT_C, &[1]), CERT_MANY.to_vec(), serial(CERT_B, &[9; 19]), CERT_CN.to_vec(), CERT_NONE.to_vec(), CERT_CRIT.to_vec()];
        let chain: Vec<&[u8]> = [choose(all.len()), choose(all.len())].iter().map(|i| &all[*i][..]).collect();
        let third = flag();
        let chain = if third { vec![chain[0], chain[1], CERT_C] } else { chain };
        let certs: Vec<Certificate> = chain.iter().map(|c| cert(c)).collect();
        let s = signer(Some("ES256".into()), Some(K1_JWK), bytes(2, &[]));
        let Ok(c) = X509HashClient::new(certs.clone(), s.clone()) else { check(false, "a client exists without certificate, or not with one"); return };
        cover("leaf");
        check(c.id().0 == format!("x509_hash:{}", b64url(sha2::Sha256::digest(chain[0]))), "the client identifier is not the hash of the leaf certificate");
        if let Some((h, _)) = token(&c, &body("x", "n"), &s) { check(header(&h, &s, &x5c(&chain)), "the token's header is not that of a client with this chain"); }
        s.signed.0.borrow_mut().clear();
        let own = X509SanDnsClient::new(vec![cert(chain[0])], s.clone());
        match (X509SanDnsClient::new(certs, s.clone()), own) {
            (Ok(c), Ok(o)) => {
                check(c.id().0 == o.id().0, "the client identifier is not a DNS name of the leaf certificate");
                if let Some((h, _)) = token(&c, &body("x", "n"), &s) { check(header(&h, &s, &x5c(&chain)), "the token's header is not that of a client with this chain"); }
            }
            (Err(_), Err(_)) => (),
            _ => check(false, "whether a client is named by its leaf certificate depends on the others"),
        }
    }
    // keys that resemble the signer's are not the signer's
    c23_keys {
        let like = |k: &str, f: usize| match f {
            0 => k.to_string(),
            1 => k.replacen('{', r#"{"kid":"did:ex:abc#k1","#, 1),
            2 => k.replacen('{', r#"{"use":"sig","alg":"ES256","#, 1),
            3 => k.replace("\"y\": \"", "\"y\": \"A"),
            _ => k.replace("P-256", "P-384"),
        };
        let (a, b, f) = (pick(&[K1_JWK, K2_JWK]), K1_JWK, choose(5));
        let Ok(k) = serde_json::from_str::<JWK>(&like(a, f)) else { return };
        struct R(JWK);
        impl JWKResolver for &R { async fn fetch_public_jwk(&'_ self, _: Option<&str>) -> Result<Cow<'_, JWK>, ssi_claims::ProofValidationError> { Ok(Cow::Borrowed(&self.0)) } }
        let s = signer(Some("ES256".into()), Some(b), vec![1]);
        let c = block_on(DIDClient::new("did:ex:abc#k1".into(), s, &R(k)));
        let key = a == b && f < 3;
        cover(if key { "the signer's key" } else { "another key" });
        if !key { check(c.is_err(), "a client was made for a verification method that is not the signer's"); }
        if key && f == 0 { check(c.is_ok(), "a client for the signer's own verification method was refused"); }
    }
    // the P-256 signer: its key, its algorithm, its signatures
    c23_p256 {
        let k = p256::ecdsa::SigningKey::from_slice(&unhex(if flag() { K1_D } else { K2_D })).unwrap();
        let one = k == p256::ecdsa::SigningKey::from_slice(&unhex(K1_D)).unwrap();
        let s = Arc::new(P256Signer::new(k).unwrap());
        let (me, you) = if one { (K1_JWK, K2_JWK) } else { (K2_JWK, K1_JWK) };
        check(*s.jwk() == key(me) && RequestSigner::jwk(&*s).unwrap() == key(me) && s.alg().unwrap() == "ES256", "the signer's key or algorithm is not its own");
        let c = block_on(DIDClient::new("did:ex:abc#k1".into(), s.clone(), &res(Some(me)))).unwrap();
        let o = body(&c.id().0, pick(&["n", "another nonce"]));
        let t = block_on(c.generate_request_object_jwt(&o)).unwrap();
        let verdict = |k| block_on(did::verify_with_resolver(&metadata(ALGS), &o, t.clone(), None, &res(Some(k)))).is_ok();
        cover("token");
        check(verdict(me), "a wallet rejects a token made by a DID client");
        check(!verdict(you), "a wallet accepts a token under another key");
        if !one { return; }
        let s2 = X509SanDnsClient::new(vec![cert(CERT_A)], s.clone()).unwrap();
        let t = block_on(s2.generate_request_object_jwt(&body(&s2.id().0, "n"))).unwrap();
        check(x5::run(x509_san::validate::<P256Verifier>, ALGS, Some(&s2.id().0), &t, true, true).0, "a wallet rejects a token made by a DNS client");
        let s3 = X509HashClient::new(vec![cert(CERT_C)], s).unwrap();
        let t = block_on(s3.generate_request_object_jwt(&body(&s3.id().0, "n"))).unwrap();
        check(x5::run(x509_hash::validate::<P256Verifier>, ALGS, Some(&s3.id().0), &t, true, true).0, "a wallet rejects a token made by a hash client");
    }
    // the P-256 signer as a signer of JSON Web Signatures
    c23_jws {
        use p256::ecdsa::signature::Verifier as _;
        use ssi_claims::jws::JwsSigner;
        let d = if flag() { K1_D } else { K2_D };
        let k = p256::ecdsa::SigningKey::from_slice(&unhex(d)).unwrap();
        let vk = *k.verifying_key();
        let s = P256Signer::new(k).unwrap();
        let i = block_on(s.fetch_info()).unwrap();
        check(i.algorithm == ssi_jwk::Algorithm::ES256 && i.algorithm.to_string() == s.alg().unwrap() && i.key_id.is_none(), "a signer is presented with another algorithm or key than its own");
        let m = pick(&["", "a", "eyJhbGciOiJFUzI1NiJ9.e30", "\0", "a.b.c"]).to_string() + &filler(pick(&[0, 70, 300]));
        let (a, b, c) = (block_on(s.sign_bytes(m.as_bytes())).unwrap(), block_on(RequestSigner::sign(&s, m.as_bytes())), block_on(s.try_sign(m.as_bytes())).unwrap());
        cover("signed");
        let good = |x: &[u8], m: &str| p256::ecdsa::Signature::from_slice(x).map_or(false, |g| vk.verify(m.as_bytes(), &g).is_ok());
        check(good(&a, &m) && good(&b, &m) && good(&c, &m), "a signature is not the key's over what was to be signed");
        check(!good(&a, &(m.clone() + "x")), "a signature is also over something else");
        // a signer of its own: what it signs, its ways of signing agree
        let t = signer(Some("ES256".into()), Some(K1_JWK), bytes(3, &[]));
        let p = bytes(bound(4, 9), &[]);
        let (b, c) = (block_on(t.sign(&p)), block_on(t.try_sign(&p)));
        check(c.map_or(false, |c| eq(&c, &b)), "trying to sign gives another signature than signing");
        check(t.signed.0.borrow().iter().fold(true, |r, x| r & eq(x, &p)), "something else is signed than was to be");
    }
    // from the verifier's configuration to the wallet's verdict
    c23_flow {
        let s = signer(Some("ES256".into()), Some(K1_JWK), vec![1, 2]);
        let (c, prefix): (Arc<dyn Client + Send + Sync>, &str) = match choose(2) {
            0 => (Arc::new(X509SanDnsClient::new(vec![cert(CERT_A)], s.clone()).unwrap()), "x509_san_dns"),
            _ => (Arc::new(X509HashClient::new(vec![cert(CERT_C), cert(CERT_B)], s.clone()).unwrap()), "x509_hash"),
        };
        let v = block_on(Verifier::builder().with_client(c.clone()).with_session_store(Arc::new(MemoryStore::default())).with_submission_endpoint("https://v.example/s".parse().unwrap()).by_reference("https://v.example/ref".parse().unwrap()).build()).unwrap();
        let md = metadata(&format!(r#"{ALGS},"client_id_prefixes_supported":["x","{prefix}"]"#));
        let (nonce, state) = (string(2, "abX-"), string(2, "abX-"));
        let u = uuid::Uuid::from_bytes([7; 16]);
        let b = v.build_authorization_request().with_dcql_query(vf::query()).with_request_parameter(ResponseMode::DirectPost).with_request_parameter(ResponseType::VpToken).with_request_parameter(Nonce::from(nonce.clone())).with_request_parameter(State(state.clone()));
        let Ok(url) = block_on(b.build_with_session_id(u, md.clone())) else { check(false, "a request was not built"); return };
        let Ok(t) = block_on(v.retrieve_authorization_request(u)) else { check(false, "a request cannot be retrieved"); return };
        *x5::SEEN.0.borrow_mut() = Some(x5::Seen { key_ok: true, sig_ok: true, ..Default::default() });
        let w = Wal { md, http: Http::answering(200, t.into_bytes()), res: res(None) };
        let Ok(r) = AuthorizationRequest::from_url(url, &"openid4vp:".parse().unwrap()) else { check(false, "the request cannot be read from its URL"); return };
        let o = block_on(r.validate(&w));
        outcome(&o);
        let Ok(o) = o else { check(false, "a wallet rejects the request this verifier made for it"); return };
        cover("accepted");
        check(eq(o.nonce().as_bytes(), &nonce) && o.state().map_or(false, |x| x.map_or(false, |x| eq(&x.0, &state))) && o.client_id().map_or(false, |x| eq(&x.0, &c.id().0)), "the wallet accepted another request than the verifier made");
        check(o.return_uri().as_str() == "https://v.example/s/07070707-0707-0707-0707-070707070707", "the wallet would answer elsewhere than the verifier asked");
        let seen = x5::SEEN.0.borrow_mut().take().unwrap();
        let l = s.signed.0.borrow();
        check(seen.msgs.len() == 1 && l.len() == 1 && eq(&seen.msgs[0].0, &l[0]) && seen.msgs[0].1 == [1, 2], "the wallet checked another signature than the verifier made");
        check(seen.spki.len() == 1 && seen.spki[0] == unhex(K1_SPKI), "the wallet checked the signature with another key");
    }
}
#[allow(unused)]
fn unused(c: &Certificate, i: ClientId) { let _ = c.to_der(); let _ = i; }
