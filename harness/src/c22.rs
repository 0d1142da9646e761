//! Typed parameters: names and forms on the wire, and the laws of the objects that hold them.
use crate::c20::quote;
use crate::fx::*;
use crate::vsym::*;
use openid4vp::core::authorization_request::parameters::*;
use openid4vp::core::dcql_query::DcqlQuery;
use openid4vp::core::metadata::parameters::{verifier::*, wallet::*};
use openid4vp::core::object::{ParsingErrorContext, TypedParameter, UntypedObject};
use openid4vp::core::response::parameters::{IdToken, VpToken};
use serde_json::Value as Json;

fn text(j: &Json) -> String { serde_json::to_string(j).unwrap() }
fn of(o: &UntypedObject) -> Json { Json::from(o.clone()) }
fn to<T: TypedParameter>(t: T) -> Option<Json> { t.try_into().ok() }
/// Whether the value of a parameter with this JSON text is read, written and stored as that text, under that name.
fn faithful<T: TypedParameter>(name: &str, v: &str) -> Option<T> {
    cover("read");
    let o = obj(&format!(r#"{{"before":1,"{name}":{v},"z_after":"x"}}"#));
    let Some(Ok(t)) = o.get::<T>() else { check(false, "a parameter is not found under its name"); return None };
    check(o.clone().get::<T>().parsing_error().is_ok(), "a parameter is not found under its name");
    let Some(j) = to(t.clone()) else { check(false, "a parameter that was read cannot be written"); return None };
    check(eq(text(&j), v), "a parameter is written in another form than it was read in");
    let mut n = obj(r#"{"before":1,"z_after":"x"}"#);
    check(n.insert(t.clone()).is_none(), "a parameter replaced nothing and yet something");
    let w = of(&n);
    check(w.as_object().map_or(false, |m| m.len() == 3 && m.get("before") == Some(&json("1")) && m.get("z_after") == Some(&json("\"x\"")) && m.get(name).map_or(false, |x| eq(text(x), v))), "storing a parameter does not store it under its name, or changes others");
    let Some(Ok(back)) = n.remove::<T>() else { check(false, "a stored parameter cannot be taken out"); return None };
    check(to(back).map_or(false, |j| eq(text(&j), v)), "a parameter taken out is another one than was stored");
    check(of(&n) == json(r#"{"before":1,"z_after":"x"}"#) && n.get::<T>().is_none() && n.remove::<T>().is_none(), "taking a parameter out leaves it there, or takes others");
    check(n.get::<T>().parsing_error().is_err(), "a missing parameter is found");
    Some(t)
}
/// A JSON text that cannot be this parameter is reported as such, not as absent and not as a value.
fn unreadable<T: TypedParameter>(name: &str, v: &str) {
    cover("not read");
    let mut o = obj(&format!(r#"{{"{name}":{v}}}"#));
    check(matches!(o.get::<T>(), Some(Err(_))) && o.get::<T>().parsing_error().is_err(), "a malformed parameter is read, or overlooked");
    check(matches!(o.remove::<T>(), Some(Err(_))), "a malformed parameter is read, or overlooked");
    check(o.get::<T>().is_none() && of(&o) == json("{}"), "taking a malformed parameter out leaves it there");
}
const CH: &str = "az09_-.:/ \"\\\n\x01";
fn strings() -> (Vec<String>, String) {
    let l: Vec<String> = (0..choose(bound(3, 4))).map(|_| string(choose(3), IDCHARS)).collect();
    let t = format!("[{}]", l.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(","));
    (l, t)
}
fn same_list<'a>(a: impl Iterator<Item = &'a String>, b: &[String]) -> bool { let a: Vec<_> = a.collect(); a.len() == b.len() && a.iter().zip(b).fold(true, |r, (x, y)| r & eq(x, y)) }
struct Rng { left: usize, seen: Vec<u8> }
impl rand::RngCore for Rng {
    fn next_u32(&mut self) -> u32 { if self.left == 0 { prune(); } self.left -= 1; let b = bytes(1, &[])[0]; self.seen.push(b); (b as u32) << 24 | 0x5a5a5a }
    fn next_u64(&mut self) -> u64 { (self.next_u32() as u64) << 32 | 77 }
    fn fill_bytes(&mut self, d: &mut [u8]) { for x in d { *x = (self.next_u32() >> 24) as u8; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
crate::entries! {
    c22_texts {
        let s = string(bound(2, 3), CH);
        let v = quote(&s);
        match choose(6) {
            0 => if let Some(x) = faithful::<ClientId>("client_id", &v) { check(eq(&x.0, &s), "a parameter has another value than its text") },
            1 => if let Some(x) = faithful::<Nonce>("nonce", &v) { check(eq(&**x, &s) && eq(x.to_string(), &s) && eq(&*Nonce::from(s.clone()), &s) && eq(&*Nonce::from(s.as_str()), &s), "a parameter has another value than its text") },
            2 => if let Some(x) = faithful::<Audience>("aud", &v) { check(eq(&x.0, &s), "a parameter has another value than its text") },
            3 => if let Some(x) = faithful::<State>("state", &v) { check(eq(&x.0, &s), "a parameter has another value than its text") },
            4 => if let Some(x) = faithful::<IdToken>("id_token", &v) { check(eq(&x.0, &s), "a parameter has another value than its text") },
            _ => if let Some(x) = faithful::<Issuer>("issuer", &v) { check(eq(&x.0, &s), "a parameter has another value than its text") },
        }
    }
    c22_lists {
        let (l, v) = strings();
        let bad = "a parameter has another value than its text";
        match choose(8) {
            0 => if let Some(x) = faithful::<ExpectedOrigins>("expected_origins", &v) { check(same_list(x.0.iter(), &l), bad) },
            1 => if let Some(x) = faithful::<TransactionData>("transaction_data", &v) { check(same_list(x.0.iter(), &l), bad) },
            2 => if let Some(x) = faithful::<EncryptedResponseEncValuesSupported>("encrypted_response_enc_values_supported", &v) { check(same_list(x.0.iter(), &l), bad) },
            3 => if let Some(x) = faithful::<RequestObjectSigningAlgValuesSupported>("request_object_signing_alg_values_supported", &v) { check(same_list(x.0.iter(), &l), bad) },
            4 => if let Some(x) = faithful::<AuthorizationEncryptionAlgValuesSupported>("authorization_encryption_alg_values_supported", &v) { check(same_list(x.0.iter(), &l), bad) },
            5 => if let Some(x) = faithful::<AuthorizationEncryptionEncValuesSupported>("authorization_encryption_enc_values_supported", &v) { check(same_list(x.0.iter(), &l), bad) },
            6 => if let Some(x) = faithful::<ClientIdPrefixesSupported>("client_id_prefixes_supported", &v) { check(same_list(x.0.iter().map(|p| &p.0), &l), bad) },
            _ => if let Some(x) = faithful::<VerifierInfo>("verifier_info", &v) { check(x.0.len() == l.len() && x.0.iter().zip(&l).fold(true, |r, (x, y)| r & x.as_str().map_or(false, |x| eq(x, y))), bad) },
        }
    }
    // names with a meaning: exactly they have it, and every other text is kept as it is
    c22_names {
        let near = |k: &str| -> String { let mut t = k.to_string(); let i = choose(t.len() + 1); t.replace_range(i..(i + 1).min(t.len()), &string(1, "abcdeijkoprstwvn_. TDP")); t };
        match choose(3) {
            0 => {
                let s = near(pick(&["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt"]));
                let Some(m) = faithful::<ResponseMode>("response_mode", &format!("\"{s}\"")) else { return };
                let is = |k: &str| eq(&s, k);
                check(match &m { ResponseMode::DirectPost => is("direct_post"), ResponseMode::DirectPostJwt => is("direct_post.jwt"), ResponseMode::DcApi => is("dc_api"), ResponseMode::DcApiJwt => is("dc_api.jwt"),
                    ResponseMode::Unsupported(u) => eq(u, &s) & !(is("direct_post") | is("direct_post.jwt") | is("dc_api") | is("dc_api.jwt")) }, "a response mode is taken for another");
                check(match m.is_jarm() { Ok(true) => is("direct_post.jwt") | is("dc_api.jwt"), Ok(false) => is("direct_post") | is("dc_api"), Err(_) => matches!(m, ResponseMode::Unsupported(_)) }, "a response mode is not encrypted exactly if its name says so");
                check(eq(m.to_string(), &s) && eq(String::from(m.clone()), &s), "a response mode is shown under another name");
            }
            1 => {
                let s = near(pick(&["vp_token", "vp_token id_token"]));
                let Some(m) = faithful::<ResponseType>("response_type", &format!("\"{s}\"")) else { return };
                let is = |k: &str| eq(&s, k);
                check(match &m { ResponseType::VpToken => is("vp_token"), ResponseType::VpTokenIdToken => is("vp_token id_token"), ResponseType::Unsupported(u) => eq(u, &s) & !(is("vp_token") | is("vp_token id_token")) }, "a response type is taken for another");
                if let Some(x) = faithful::<ResponseTypesSupported>("response_types_supported", &format!("[\"{s}\",\"vp_token\"]")) { check(x.0.len() == 2 && x.0[0] == m && x.0[1] == ResponseType::VpToken, "a response type is taken for another in a list"); }
            }
            _ => {
                let s = near(pick(&["get", "post"]));
                match obj(&format!(r#"{{"request_uri_method":"{s}"}}"#)).get::<RequestUriMethod>() {
                    Some(Ok(m)) => { check(match m { RequestUriMethod::Get => eq(&s, "get"), RequestUriMethod::Post => eq(&s, "post") }, "a method is taken for another"); faithful::<RequestUriMethod>("request_uri_method", &format!("\"{s}\"")); }
                    Some(Err(_)) => { cover("not read"); check(!(eq(&s, "get") | eq(&s, "post")), "a method is not read") }
                    None => check(false, "a method is overlooked"),
                }
            }
        }
    }
    c22_urls {
        let u = format!("{}{}", pick(&["https://h.example/", "openid4vp:", "x-y://a:7/?q=1#", "urn:"]), string(bound(2, 4), "ab.9-"));
        let u = if flag() { u } else { pick(&["https://h.example/", "https://h.example/a/", "https://h.example/?", "https://h.example/#", "https://u:p@h.example:8443/a//b?c=d&e=%20+#f", "openid4vp://", "https://h.example/a?redirect=https://x/", "data:,x"]).to_string() };
        let norm = url::Url::parse(&u).unwrap().to_string();
        let v = format!("\"{norm}\"");
        match choose(3) {
            0 => if let Some(x) = faithful::<RedirectUri>("redirect_uri", &v) { check(eq(x.0.as_str(), &norm), "a URL has another value than its text") },
            1 => if let Some(x) = faithful::<ResponseUri>("response_uri", &v) { check(eq(x.0.as_str(), &norm), "a URL has another value than its text") },
            _ => if let Some(x) = faithful::<AuthorizationEndpoint>("authorization_endpoint", &v) { check(eq(x.0.as_str(), &norm), "a URL has another value than its text") },
        }
        let bad = string(2, "ab/.");
        match choose(3) { 0 => unreadable::<RedirectUri>("redirect_uri", &format!("\"{bad}\"")), 1 => unreadable::<ResponseUri>("response_uri", &format!("\"{bad}\"")), _ => unreadable::<AuthorizationEndpoint>("authorization_endpoint", &format!("\"{bad}\"")) }
    }
    c22_structures {
        let s = string(bound(2, 3), "ab9_ ");
        match choose(5) {
            0 => { faithful::<ClientMetadata>("client_metadata", &format!(r#"{{"a":"{s}","jwks":{{"keys":[]}},"z":[null,{{"k":-1}}]}}"#)); }
            1 => { faithful::<JWKs>("jwks", &format!(r#"{{"keys":[{{"kid":"{s}","kty":"EC","x5c":["{s}"]}},{{}}]}}"#)); }
            2 if flag() => { faithful::<VerifierInfo>("verifier_info", &format!(r#"[null,{{}},"{s}",null,"{s}",[null],{{"a":null}},0,"",false]"#)); }
            2 => { faithful::<VerifierInfo>("verifier_info", &format!(r#"[{{"credential_ids":["{s}"],"data":{{"x":"{s}"}},"format":"jwt"}}]"#)); }
            3 => { faithful::<DcqlQuery>("dcql_query", &format!(r#"{{"credentials":[{{"format":"mso_mdoc","id":"{s}","meta":{{"doctype_value":"{s}"}}}}]}}"#)); }
            _ => { faithful::<VpToken>("vp_token", &format!(r#"{{"q":["{s}",{{"k":"{s}"}}]}}"#)); }
        }
    }
    // what a verifier says about itself: as it says, with the default of the specification only where it says nothing
    c22_client_metadata {
        let s = string(2, IDCHARS);
        let k = choose(7);
        let v = match k { 0 => String::new(), 1 => r#","encrypted_response_enc_values_supported":[]"#.into(), 2 => format!(r#","encrypted_response_enc_values_supported":["{s}","A128GCM","{s}"]"#), 3 => r#","encrypted_response_enc_values_supported":null"#.into(), 4 => format!(r#","encrypted_response_enc_values_supported":"{s}""#), 5 => format!(r#","authorization_encrypted_response_enc":"{s}""#), _ => format!(r#","Encrypted_response_enc_values_supported":["{s}"]"#) };
        let keys = choose(5);
        let j = match keys { 0 => String::new(), 1 => r#","jwks":{"keys":[]}"#.into(), 2 => format!(r#","jwks":{{"keys":[{{"kid":"{s}"}},{{"kid":"{s}"}}]}}"#), 3 => r#","jwks":null"#.into(), _ => format!(r#","jwks_uri":"https://v.example/{}""#, "k") };
        let m = ClientMetadata(obj(&format!(r#"{{"client_name":"{s}"{v}{j}}}"#)));
        cover(if k == 0 { "absent" } else { "present" });
        let e = m.encrypted_response_enc_values_supported();
        check(match (k, &e) { (0 | 5 | 6, Ok(x)) => x.0 == ["A128GCM"], (1, Ok(x)) => x.0.is_empty(), (2, Ok(x)) => x.0.len() == 3 && eq(&x.0[0], &s) && x.0[1] == "A128GCM" && eq(&x.0[2], &s), (3 | 4, Err(_)) => true, _ => false }, "the encryption methods are not those the verifier names, or not the default where it names none");
        let w = m.jwks();
        check(match (keys, &w) { (0 | 4, None) => true, (1, Some(Ok(x))) => x.keys.is_empty(), (2, Some(Ok(x))) => x.keys.len() == 2 && x.keys.iter().fold(true, |r, k| r & k.get("kid").and_then(|x| x.as_str()).map_or(false, |x| eq(x, &s))), (3, Some(Err(_))) => true, _ => false }, "the keys are not those the verifier gives");
        check(m.vp_formats().is_err(), "formats are reported that the verifier does not name");
    }
    // texts of every kind: nothing is trimmed, folded or normalised
    c22_as_given {
        let s = match choose(4) { 0 => any(), 1 => format!("{}{}", string(1, IDCHARS), beyond()), 2 => format!("{}{}", filler(pick(&[100, bound(2000, 20000)])), string(1, IDCHARS)), _ => pick(&["", " ", " a ", "null", "true", "0", "did:x#y", "A", "\u{7f}", "https://H.example/%7e"]).to_string() };
        let (v, l) = (format!("\"{s}\""), format!("[\"{s}\",\"z\",\"{s}\"]"));
        let bad = "a parameter has another value than its text";
        let three = |x: Vec<&str>| check(x.len() == 3 && eq(x[0], &s) && x[1] == "z" && eq(x[2], &s), bad);
        match choose(16) {
            0 => if let Some(x) = faithful::<ClientId>("client_id", &v) { check(eq(&x.0, &s), bad) },
            1 => if let Some(x) = faithful::<Nonce>("nonce", &v) { check(eq(&**x, &s), bad) },
            2 => if let Some(x) = faithful::<Audience>("aud", &v) { check(eq(&x.0, &s), bad) },
            3 => if let Some(x) = faithful::<State>("state", &v) { check(eq(&x.0, &s), bad) },
            4 => if let Some(x) = faithful::<IdToken>("id_token", &v) { check(eq(&x.0, &s), bad) },
            5 => if let Some(x) = faithful::<Issuer>("issuer", &v) { check(eq(&x.0, &s), bad) },
            6 => if let Some(x) = faithful::<ResponseMode>("response_mode", &v) { check(eq(x.to_string(), &s), bad) },
            7 => { faithful::<ResponseType>("response_type", &v); }
            8 => if let Some(x) = faithful::<ExpectedOrigins>("expected_origins", &l) { three(x.0.iter().map(|x| x.as_str()).collect()) },
            9 => if let Some(x) = faithful::<TransactionData>("transaction_data", &l) { three(x.0.iter().map(|x| x.as_str()).collect()) },
            10 => if let Some(x) = faithful::<EncryptedResponseEncValuesSupported>("encrypted_response_enc_values_supported", &l) { three(x.0.iter().map(|x| x.as_str()).collect()) },
            11 => if let Some(x) = faithful::<RequestObjectSigningAlgValuesSupported>("request_object_signing_alg_values_supported", &l) { three(x.0.iter().map(|x| x.as_str()).collect()) },
            12 => if let Some(x) = faithful::<AuthorizationEncryptionAlgValuesSupported>("authorization_encryption_alg_values_supported", &l) { three(x.0.iter().map(|x| x.as_str()).collect()) },
            13 => if let Some(x) = faithful::<AuthorizationEncryptionEncValuesSupported>("authorization_encryption_enc_values_supported", &l) { three(x.0.iter().map(|x| x.as_str()).collect()) },
            14 => if let Some(x) = faithful::<ClientIdPrefixesSupported>("client_id_prefixes_supported", &l) { three(x.0.iter().map(|x| x.0.as_str()).collect()) },
            _ => { faithful::<ResponseTypesSupported>("response_types_supported", &l); }
        }
    }
    // near misses of a parameter's name are not that parameter
    c22_other_names {
        let o = |n: &str, v: &str| { let k = match choose(5) { 0 => n.to_uppercase(), 1 => n.replace('_', "-"), 2 => format!("{n} "), 3 => n[..n.len() - 1].to_string(), _ => format!("x_{n}") }; obj(&if k == n { "{}".to_string() } else { format!(r#"{{"{k}":{v}}}"#) }) };
        cover("another name");
        let t = r#""https://a.example/""#;
        let found = match choose(20) {
            0 => o("client_id", t).get::<ClientId>().is_some(), 1 => o("nonce", t).get::<Nonce>().is_some(), 2 => o("aud", t).get::<Audience>().is_some(), 3 => o("state", t).get::<State>().is_some(), 4 => o("id_token", t).get::<IdToken>().is_some(), 5 => o("issuer", t).get::<Issuer>().is_some(),
            6 => o("redirect_uri", t).get::<RedirectUri>().is_some(), 7 => o("response_uri", t).get::<ResponseUri>().is_some(), 8 => o("authorization_endpoint", t).get::<AuthorizationEndpoint>().is_some(), 9 => o("response_mode", t).get::<ResponseMode>().is_some(), 10 => o("response_type", t).get::<ResponseType>().is_some(),
            11 => o("request_uri_method", "\"get\"").get::<RequestUriMethod>().is_some(), 12 => o("expected_origins", "[]").get::<ExpectedOrigins>().is_some(), 13 => o("transaction_data", "[]").get::<TransactionData>().is_some(), 14 => o("verifier_info", "[]").get::<VerifierInfo>().is_some(), 15 => o("client_metadata", "{}").get::<ClientMetadata>().is_some(),
            16 => o("jwks", "{\"keys\":[]}").get::<JWKs>().is_some(), 17 => o("vp_token", "{}").get::<VpToken>().is_some(), 18 => o("dcql_query", r#"{"credentials":[{"id":"q","format":"f","meta":{}}]}"#).get::<DcqlQuery>().is_some(), _ => o("client_id_prefixes_supported", "[]").get::<ClientIdPrefixesSupported>().is_some(),
        };
        check(!found, "a parameter is found under another name");
    }
    // values of another JSON type
    c22_wrong {
        let s = string(1, "ab");
        let v = pick(&["null", "true", "7", "{}", "[1]", "{\"a\":\"S\"}", "\"S\"", "[\"S\",null]", "[[\"S\"]]", "[\"S\"]", "[]", "{\"keys\":\"S\"}", "-0.5", "\"{}\"", "\"[]\"", "\"null\"", "\"{\\\"keys\\\":[]}\"", "\"[\\\"S\\\"]\"", "\"S S\"", "\"S,S\""]).replace('S', &s);
        let (text, lists) = (v.starts_with('"'), v.starts_with("[["));
        let list = v.starts_with('[');
        let object = v.starts_with('{');
        let _ = lists;
        let texts = v == "[]" || v.starts_with("[\"") && !v.ends_with("null]");
        match choose(26) {
            12..=19 if texts => (),
            k @ 0..=5 | k @ 9..=11 if text && k != 11 => (),
            0 => unreadable::<ClientId>("client_id", &v), 1 => unreadable::<Nonce>("nonce", &v), 2 => unreadable::<Audience>("aud", &v), 3 => unreadable::<State>("state", &v), 4 => unreadable::<IdToken>("id_token", &v), 5 => unreadable::<Issuer>("issuer", &v),
            6 => unreadable::<RedirectUri>("redirect_uri", &v), 7 => unreadable::<ResponseUri>("response_uri", &v), 8 => unreadable::<AuthorizationEndpoint>("authorization_endpoint", &v),
            9 => unreadable::<ResponseMode>("response_mode", &v), 10 => unreadable::<ResponseType>("response_type", &v), 11 => unreadable::<RequestUriMethod>("request_uri_method", &v),
            12 => unreadable::<ExpectedOrigins>("expected_origins", &v), 13 => unreadable::<TransactionData>("transaction_data", &v), 14 => unreadable::<EncryptedResponseEncValuesSupported>("encrypted_response_enc_values_supported", &v),
            15 => unreadable::<RequestObjectSigningAlgValuesSupported>("request_object_signing_alg_values_supported", &v), 16 => unreadable::<ClientIdPrefixesSupported>("client_id_prefixes_supported", &v), 17 => unreadable::<ResponseTypesSupported>("response_types_supported", &v),
            18 => unreadable::<AuthorizationEncryptionAlgValuesSupported>("authorization_encryption_alg_values_supported", &v), 19 => unreadable::<AuthorizationEncryptionEncValuesSupported>("authorization_encryption_enc_values_supported", &v),
            20 => if !list { unreadable::<VerifierInfo>("verifier_info", &v) }, 21 => if !object { unreadable::<ClientMetadata>("client_metadata", &v) }, 22 => unreadable::<DcqlQuery>("dcql_query", &v), 23 => unreadable::<JWKs>("jwks", &v),
            24 => if !object || v == "{\"a\":\"S\"}".replace('S', &s) { unreadable::<VpToken>("vp_token", &v) },
            _ => unreadable::<JWKs>("jwks", pick(&["{\"keys\":[1]}", "{\"keys\":null}", "{\"key\":[]}", "{\"keys\":{}}", "[]"])),
        }
    }
    // defaults are used for absent parameters only
    c22_default {
        let s = string(2, "abp");
        let case = choose(4);
        let v = match case { 0 => "null".to_string(), 1 => format!("\"{s}\""), 2 => format!("[\"{s}\"]"), _ => String::new() };
        let o = |k: &str| if case == 3 { obj(r#"{"other":["x"]}"#) } else { obj(&format!(r#"{{"{k}":{v}}}"#)) };
        cover(if case == 3 { "absent" } else { "present" });
        match choose(4) {
            0 => check(match o("client_id_prefixes_supported").get_or_default::<ClientIdPrefixesSupported>() { Ok(x) => x.0.len() == 1 && match case { 3 => x.0[0].0 == "pre-registered", 2 => eq(&x.0[0].0, &s), _ => false }, Err(_) => case < 2 }, "a default is used for a present parameter, or not for an absent one"),
            1 => check(match o("encrypted_response_enc_values_supported").get_or_default::<EncryptedResponseEncValuesSupported>() { Ok(x) => x.0.len() == 1 && match case { 3 => x.0[0] == "A128GCM", 2 => eq(&x.0[0], &s), _ => false }, Err(_) => case < 2 }, "a default is used for a present parameter, or not for an absent one"),
            2 => check(match o("response_mode").get_or_default::<ResponseMode>() { Ok(x) => match case { 3 => x == ResponseMode::DirectPost, 1 => match x { ResponseMode::Unsupported(u) => eq(u, &s), _ => false }, _ => false }, Err(_) => case == 0 || case == 2 }, "a default is used for a present parameter, or not for an absent one"),
            _ => check(match o("request_uri_method").get_or_default::<RequestUriMethod>() { Ok(x) => case == 3 && x == RequestUriMethod::Get, Err(_) => case != 3 }, "a default is used for a present parameter, or not for an absent one"),
        }
    }
    // histories of storing and taking out
    c22_history {
        let mut o = UntypedObject::default();
        let mut m: [Option<String>; 3] = [None, None, None];
        for _ in 0..bound(3, 5) {
            let s = string(1, "abc");
            let k = choose(3);
            let got: Option<String> = match (k, choose(2)) {
                (0, 0) => { let r = o.insert(State(s.clone())); let p = m[0].replace(s); cover("stored"); check(r.is_some() == p.is_some(), "a parameter replaced another than its former value"); match r { Some(Ok(x)) => { check(p.map_or(false, |p| eq(p, &x.0)), "a parameter replaced another than its former value"); None } Some(Err(_)) => { check(false, "a former value could not be read"); None } None => None } }
                (1, 0) => { let r = o.insert(Nonce::from(s.clone())); let p = m[1].replace(s); check(r.is_some() == p.is_some(), "a parameter replaced another than its former value"); match r { Some(Ok(x)) => { check(p.map_or(false, |p| eq(p, &**x)), "a parameter replaced another than its former value"); None } Some(Err(_)) => { check(false, "a former value could not be read"); None } None => None } }
                (_, 0) => { let r = o.insert(Audience(s.clone())); let p = m[2].replace(s); check(r.is_some() == p.is_some(), "a parameter replaced another than its former value"); None }
                (0, _) => { let r = o.remove::<State>(); cover("taken"); let p = m[0].take(); check(match (&r, &p) { (Some(Ok(x)), Some(p)) => eq(&x.0, p), (None, None) => true, _ => false }, "another value was taken out than was stored"); None }
                (1, _) => { let r = o.remove::<Nonce>(); let p = m[1].take(); check(match (&r, &p) { (Some(Ok(x)), Some(p)) => eq(&***x, p), (None, None) => true, _ => false }, "another value was taken out than was stored"); None }
                (_, _) => { let r = o.remove::<Audience>(); let p = m[2].take(); check(match (&r, &p) { (Some(Ok(x)), Some(p)) => eq(&x.0, p), (None, None) => true, _ => false }, "another value was taken out than was stored"); None }
            };
            let _ = got;
        }
        let j = of(&o);
        let j = j.as_object().unwrap();
        check(j.len() == m.iter().flatten().count(), "an object holds something that was never stored, or lost something");
        for (n, v) in ["state", "nonce", "aud"].iter().zip(&m) { check(match (j.get(*n).and_then(|x| x.as_str()), v) { (Some(a), Some(b)) => eq(a, b), (None, None) => true, _ => false }, "an object holds another value than was stored"); }
    }
    // random nonces: as long as asked for, of letters and digits, and different for different randomness
    c22_nonce {
        let n = pick(&[0, 1, 2, bound(3, 4), 9]);
        let mut r = Rng { left: n + (n < 5) as usize, seen: vec![] };
        let a = Nonce::random(&mut r, n);
        cover("nonce");
        check(a.len() == n, "a nonce has another length than asked for");
        check(a.bytes().fold(true, |k, c| k & ((c.wrapping_sub(b'0') < 10) | ((c | 32).wrapping_sub(b'a') < 26))), "a nonce has characters that need encoding");
        check(r.seen.len() >= n, "a nonce is not made of randomness");
    }
}
