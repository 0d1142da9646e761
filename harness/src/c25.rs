//! Wallet metadata.
use crate::c20::quote;
use crate::fx::*;
use crate::vsym::*;
use openid4vp::core::authorization_request::parameters::{ClientIdScheme, ResponseType};
use openid4vp::core::credential_format::{ClaimFormatDesignation, ClaimFormatMap, ClaimFormatPayload};
use openid4vp::core::metadata::parameters::wallet::*;
use openid4vp::core::metadata::WalletMetadata;
use openid4vp::core::object::UntypedObject;
use serde_json::Value as Json;
use ssi_jwk::Algorithm;

fn text(m: &WalletMetadata) -> String { serde_json::to_string(m).unwrap() }
fn norm(s: &str) -> String { json(s).to_string() }
const ALG: &[(Algorithm, &str)] = &[(Algorithm::ES256, "ES256"), (Algorithm::EdDSA, "EdDSA"), (Algorithm::ES384, "ES384"), (Algorithm::None, "none")];
const ALL: &[(Algorithm, &str)] = &[(Algorithm::HS256, "HS256"), (Algorithm::HS384, "HS384"), (Algorithm::HS512, "HS512"), (Algorithm::RS256, "RS256"), (Algorithm::RS384, "RS384"), (Algorithm::RS512, "RS512"), (Algorithm::PS256, "PS256"), (Algorithm::PS384, "PS384"), (Algorithm::PS512, "PS512"),
    (Algorithm::EdDSA, "EdDSA"), (Algorithm::EdBlake2b, "EdBlake2b"), (Algorithm::ES256, "ES256"), (Algorithm::ES384, "ES384"), (Algorithm::ES256K, "ES256K"), (Algorithm::ES256KR, "ES256K-R"), (Algorithm::ESKeccakKR, "ESKeccakKR"), (Algorithm::ESBlake2b, "ESBlake2b"), (Algorithm::ESBlake2bK, "ESBlake2bK"), (Algorithm::None, "none")];
fn join(l: &[String]) -> String { l.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(",") }
/// The metadata says the same however it is looked at.
fn agrees(m: &WalletMetadata, want: &str, endpoint: &str, mdoc: bool, jwt: Option<&str>) {
    check(eq(text(m), want), "the metadata is written other than it was made");
    check(eq(serde_json::to_string(&UntypedObject::from(m.clone())).unwrap(), want), "the metadata is converted to something else");
    check(m.authorization_endpoint().0.as_str() == endpoint && matches!(m.get::<AuthorizationEndpoint>(), Some(Ok(e)) if e.0.as_str() == endpoint), "the metadata reports another endpoint");
    let f = |v: &VpFormatsSupported| v.is_claim_format_supported(&ClaimFormatDesignation::MsoMDoc) == mdoc && !v.is_claim_format_supported(&ClaimFormatDesignation::LdpVc) && !v.is_claim_format_supported(&"MSO_MDOC".into())
        && v.0.len() == mdoc as usize + jwt.is_some() as usize
        && match (v.0.get(&ClaimFormatDesignation::JwtVcJson), jwt) { (Some(ClaimFormatPayload::AlgValues(l)), Some(a)) => l.len() == 1 && eq(&l[0], a), (None, None) => true, _ => false };
    check(f(m.vp_formats_supported()) && matches!(m.get::<VpFormatsSupported>(), Some(Ok(v)) if f(&v)), "the metadata reports other formats");
}
crate::entries! {
    c25_made {
        let s = string(bound(2, 4), "abES6");
        let (mdoc, jwt) = (flag(), flag());
        let e = pick(&["openid4vp:", "https://w.example/a?b=c", "haip://x"]);
        let mut f = vec![];
        if mdoc { f.push(r#""mso_mdoc":{"k":[1]}"#.to_string()); }
        if jwt { f.push(format!(r#""jwt_vc_json":{{"alg_values":["{s}"]}}"#)); }
        let other = pick(&["", r#""issuer":"i","zz":[null]"#, r#""authorization_endpoint":"https://evil.example/","vp_formats_supported":{"ldp_vc":{}},"a":1"#]);
        let keep = match other { "" => "", o if o.starts_with("\"issuer") => r#""issuer":"i","zz":[null],"#, _ => r#""a":1,"# };
        let want = norm(&format!(r#"{{{keep}"authorization_endpoint":"{e}","vp_formats_supported":{{{}}}}}"#, f.join(",")));
        let m = match choose(3) {
            0 => {
                let mut map = ClaimFormatMap::new();
                if mdoc { map.insert(ClaimFormatDesignation::MsoMDoc, ClaimFormatPayload::Other(json(r#"{"k":[1]}"#))); }
                if jwt { map.insert(ClaimFormatDesignation::JwtVcJson, ClaimFormatPayload::AlgValues(vec![s.clone()])); }
                cover("made");
                WalletMetadata::new(AuthorizationEndpoint(e.parse().unwrap()), VpFormatsSupported(map), if other.is_empty() && flag() { None } else { Some(obj(&format!("{{{other}}}"))) })
            }
            k => {
                cover("read");
                let r: Result<WalletMetadata, ()> = if k == 1 { serde_json::from_str(&want).map_err(|_| ()) } else { obj(&want).try_into().map_err(|_| ()) };
                let Ok(m) = r else { check(false, "proper metadata is not read"); return };
                m
            }
        };
        agrees(&m, &want, e, mdoc, if jwt { Some(&s) } else { None });
        // formats added later count as well
        if thorough() || !jwt {
            let mut m = m;
            m.vp_formats_supported_mut().0.insert(ClaimFormatDesignation::Other("x".into()), ClaimFormatPayload::Other(json("{}")));
            cover("changed");
            check(m.vp_formats_supported().is_claim_format_supported(&"x".into()), "a format added is not reported");
            f.push(r#""x":{}"#.into());
            check(eq(text(&m), norm(&format!(r#"{{{keep}"authorization_endpoint":"{e}","vp_formats_supported":{{{}}}}}"#, f.join(",")))), "a format added is not written");
        }
    }
    // every sequence of additions
    c25_add {
        let has_a = choose(4);
        let has_p = choose(4);
        let (a0, p0) = (string(2, "ES"), string(2, "x5"));
        let mut t = vec![r#""authorization_endpoint":"openid4vp:""#.to_string(), r#""vp_formats_supported":{}"#.into(), r#""issuer":"i""#.into()];
        let mut algs: Option<Vec<String>> = match has_a { 0 => None, 1 => Some(vec![]), 2 => Some(vec![a0.clone()]), _ => Some(vec![a0.clone(), a0.clone()]) };
        let mut pres: Option<Vec<String>> = match has_p { 0 => None, 1 => Some(vec![]), 2 => Some(vec![p0.clone()]), _ => Some(vec![p0.clone(), "pre-registered".into()]) };
        let fixed = t.len();
        let with = |t: &mut Vec<String>, algs: &Option<Vec<String>>, pres: &Option<Vec<String>>| { t.truncate(fixed); if let Some(l) = algs { t.push(format!(r#""request_object_signing_alg_values_supported":[{}]"#, join(l))); } if let Some(l) = pres { t.push(format!(r#""client_id_prefixes_supported":[{}]"#, join(l))); } norm(&format!("{{{}}}", t.join(","))) };
        let mut m: WalletMetadata = obj(&with(&mut t, &algs, &pres)).try_into().unwrap();
        for _ in 0..bound(2, 3) {
            if flag() {
                let (a, n) = pick(ALG);
                check(m.add_request_object_signing_alg_values_supported(a).is_ok(), "an algorithm cannot be added");
                algs.get_or_insert_with(Vec::new).push(n.into());
                cover("algorithm");
            } else {
                let l: Vec<String> = (0..choose(3)).map(|_| string(1, "xp")).collect();
                let s: Vec<ClientIdScheme> = l.iter().map(|x| ClientIdScheme(x.clone())).collect();
                check(m.add_client_id_prefixes_supported(&s).is_ok(), "a prefix cannot be added");
                pres.get_or_insert_with(|| vec!["pre-registered".into()]).extend(l);
                cover("prefixes");
            }
            check(eq(text(&m), with(&mut t, &algs, &pres)), "adding to the metadata changes something else, or does not add");
        }
    }
    // lists that cannot be read stay as they are
    c25_unreadable {
        let bad = pick(&["null", "\"ES256\"", "[7]", "{}", "[[\"ES256\"]]"]);
        let alg = flag();
        let t = norm(&format!(r#"{{"authorization_endpoint":"openid4vp:","vp_formats_supported":{{}},"{}":{bad}}}"#, if alg { "request_object_signing_alg_values_supported" } else { "client_id_prefixes_supported" }));
        let mut m: WalletMetadata = obj(&t).try_into().unwrap();
        let r = if alg { m.add_request_object_signing_alg_values_supported(Algorithm::ES256) } else { m.add_client_id_prefixes_supported(&[ClientIdScheme(string(1, "ab"))]) };
        cover("unreadable");
        check(r.is_err() && text(&m) == t, "adding to an unreadable list succeeds or changes it");
    }
    // what is no metadata
    c25_required {
        let s = string(1, "ab:/");
        let (e, v) = match choose(14) {
            0 => (String::new(), r#""vp_formats_supported":{}"#.to_string()),
            1 => (r#""authorization_endpoint":"openid4vp:""#.into(), String::new()),
            2 => (format!(r#""authorization_endpoint":"{s}""#), r#""vp_formats_supported":{}"#.into()),
            3 => (r#""authorization_endpoint":null"#.into(), r#""vp_formats_supported":{}"#.into()),
            4 => (r#""authorization_endpoint":["openid4vp:"]"#.into(), r#""vp_formats_supported":{}"#.into()),
            5 => (r#""authorization_endpoint":"openid4vp:""#.into(), r#""vp_formats_supported":null"#.into()),
            6 => (r#""authorization_endpoint":"openid4vp:""#.into(), format!(r#""vp_formats_supported":["{s}"]"#)),
            7 => (r#""authorization_endpoint":"openid4vp:""#.into(), r#""vp_formats_supported":"mso_mdoc""#.into()),
            8 => (r#""Authorization_endpoint":"openid4vp:""#.into(), r#""vp_formats_supported":{}"#.into()),
            9 => (r#""authorization_endpoint":"openid4vp:""#.into(), r#""vp_formats":{}"#.into()),
            10 => (r#""authorization_endpoint":"""#.into(), r#""vp_formats_supported":{}"#.into()),
            11 => (r#""authorization_endpoint":7"#.into(), r#""vp_formats_supported":{}"#.into()),
            12 => (r#""authorization_endpoint":"openid4vp:""#.into(), r#""vp_formats_supported":true"#.into()),
            _ => (r#""authorization_endpoint":{}"#.into(), r#""vp_formats_supported":{}"#.into()),
        };
        let t = format!(r#"{{"issuer":"i"{}{e}{}{v}}}"#, if e.is_empty() { "" } else { "," }, if v.is_empty() { "" } else { "," });
        cover("no metadata");
        check(WalletMetadata::try_from(obj(&t)).is_err() && serde_json::from_str::<WalletMetadata>(&t).is_err(), "metadata without readable endpoint and formats is read");
    }
    // the static metadata, and texts that need escapes
    c25_static {
        if flag() {
            let m = WalletMetadata::openid4vp_scheme_static();
            cover("static");
            let want = norm(r#"{"authorization_endpoint":"openid4vp:","request_object_signing_alg_values_supported":["ES256"],"response_types_supported":["vp_token"],"vp_formats_supported":{"jwt_vc_json":{"alg_values":["ES256"]}}}"#);
            agrees(&m, &want, "openid4vp:", false, Some("ES256"));
            check(matches!(m.get::<ResponseTypesSupported>(), Some(Ok(r)) if r.0 == [ResponseType::VpToken]) && matches!(m.get::<RequestObjectSigningAlgValuesSupported>(), Some(Ok(r)) if r.0 == ["ES256"]), "the static metadata supports something else");
        } else {
            let s = string(bound(2, 3), "a\"\\\n9");
            let t = format!(r#"{{"authorization_endpoint":"openid4vp:","issuer":{},"vp_formats_supported":{{"dc+sd-jwt":{{"kb-jwt_alg_values":[{}]}}}}}}"#, quote(&s), quote(&s));
            let m: WalletMetadata = serde_json::from_str(&t).unwrap();
            cover("escapes");
            check(eq(text(&m), &t), "the metadata is written other than it was read");
            check(matches!(m.get::<Issuer>(), Some(Ok(i)) if eq(&i.0, &s)), "the metadata reports another issuer");
            let _: Option<Json> = None;
        }
    }
    // any text, any algorithm
    c25_wide {
        let t = |l: &str| norm(&format!(r#"{{"authorization_endpoint":"openid4vp:","vp_formats_supported":{{}},"issuer":"i"{l}}}"#));
        let had = pick(&["", "\"a\"", "\"b\",\"a\",\"b\"", "\"\""]);
        let s = match choose(5) { 0 => if had.is_empty() { any() } else { string(1, IDCHARS) }, 1 => beyond(), 2 => String::new(), 3 => filler(bound(300, 3000)), _ => string(1, IDCHARS) + &string(1, IDCHARS) };
        if flag() {
            let (a, n) = pick(ALL);
            let mut m: WalletMetadata = obj(&t(&format!(r#","request_object_signing_alg_values_supported":["{s}"{}{had}]"#, if had.is_empty() { "" } else { "," }))).try_into().unwrap();
            cover("algorithm");
            check(m.add_request_object_signing_alg_values_supported(a).is_ok(), "an algorithm cannot be added");
            check(eq(text(&m), t(&format!(r#","request_object_signing_alg_values_supported":["{s}"{}{had},"{n}"]"#, if had.is_empty() { "" } else { "," }))), "adding to the metadata changes something else, or does not add");
            check(matches!(m.get::<RequestObjectSigningAlgValuesSupported>(), Some(Ok(r)) if r.0.last().map(|x| x.as_str()) == Some(n)), "an algorithm added is not reported");
        } else {
            let mut m: WalletMetadata = obj(&t(&format!(r#","client_id_prefixes_supported":[{had}]"#))).try_into().unwrap();
            cover("prefixes");
            check(m.add_client_id_prefixes_supported(&[ClientIdScheme(s.clone()), ClientIdScheme("a".into())]).is_ok(), "a prefix cannot be added");
            check(eq(text(&m), t(&format!(r#","client_id_prefixes_supported":[{had}{}"{s}","a"]"#, if had.is_empty() { "" } else { "," }))), "adding to the metadata changes something else, or does not add");
            check(matches!(m.get::<ClientIdPrefixesSupported>(), Some(Ok(r)) if eq(&r.0[r.0.len() - 2].0, &s)), "a prefix added is not reported");
        }
    }
    // metadata with everything in it
    c25_full {
        let s = if flag() { string(1, IDCHARS) } else { beyond() };
        let e = pick(&["openid4vp:", "haip://", "https://w.example/", "https://w.example/a?b=c#d", "mdoc-openid4vp://x"]);
        let k = choose(3);
        let want = norm(&format!(r#"{{"authorization_endpoint":"{e}","client_id_prefixes_supported":["x","{s}"],"grant_types":[],"issuer":"{s}","jwks_uri":null,"n":[null,0.5,-7,{{"{}":{{}}}}],"request_object_signing_alg_values_supported":["{s}","ES256","ES256"],"response_types_supported":["vp_token"],"vp_formats":{{"{s}x":{{"alg":["ES256"]}}}},"vp_formats_supported":{{"dc+sd-jwt":{{"kb-jwt_alg_values":["{s}"],"sd-jwt_alg_values":[]}},"jwt_vc_json":{{"alg_values":["{s}","{s}"]}},"ldp_vc":{{"proof_type_values":["{s}",""]}},"mso_mdoc":{{"deviceauth_alg_values":[-7,1e3],"x":null}},"zz":{}}}}}"#, pick(&["", "k"]), pick(&["{}", "null", "[7]", "\"t\""])));
        let r: Result<WalletMetadata, ()> = if k == 0 { obj(&want).try_into().map_err(|_| ()) } else { serde_json::from_str(&want).map_err(|_| ()) };
        let Ok(mut m) = r else { check(false, "proper metadata is not read"); return };
        cover("full");
        check(eq(text(&m), &want) && eq(serde_json::to_string(&UntypedObject::from(m.clone())).unwrap(), &want), "the metadata is written other than it was read");
        check(m.authorization_endpoint().0.as_str() == e && m.vp_formats_supported().0.len() == 5, "the metadata reports another endpoint or other formats");
        if k == 1 {
            check(m.add_request_object_signing_alg_values_supported(Algorithm::ES384).is_ok() && m.add_client_id_prefixes_supported(&[]).is_ok(), "nothing can be added");
            check(eq(text(&m), want.replace(r#""ES256","ES256"]"#, r#""ES256","ES256","ES384"]"#)), "adding to the metadata changes something else, or does not add");
        }
        if k == 2 {
            // made again from its parts
            let m2 = WalletMetadata::new(m.authorization_endpoint().clone(), m.vp_formats_supported().clone(), Some(m.clone().into()));
            check(eq(text(&m2), &want), "metadata made from its parts differs");
        }
    }
}
