//! Credential formats and presentations.
use crate::c20::quote;
use crate::fx::*;
use crate::vsym::*;
use openid4vp::core::credential_format::*;
use openid4vp::core::metadata::parameters::verifier::VpFormats;
use openid4vp::core::metadata::parameters::wallet::VpFormatsSupported;
use openid4vp::core::response::parameters::{VpToken, VpTokenItem};
use serde_json::Value as Json;
use std::borrow::Cow;

type D = ClaimFormatDesignation;
const KNOWN: &[&str] = &["jwt_vc_json", "ldp_vc", "mso_mdoc", "dc+sd-jwt"];
const PROOF: &str = r#""proof":{"type":"DataIntegrityProof","cryptosuite":"ecdsa-rdfc-2019","created":"2024-01-01T00:00:00Z","verificationMethod":"did:ex:a#k","proofPurpose":"assertionMethod","proofValue":"z3"},"x":{"#;
fn known(i: usize) -> D { [D::JwtVcJson, D::LdpVc, D::MsoMDoc, D::DcSdJwt][i].clone() }
fn to_text<T: serde::Serialize>(t: &T) -> String { serde_json::to_string(t).unwrap() }
/// The format a text names, as the specification has it.
fn is(d: &D, s: &str) -> bool {
    let k: Vec<bool> = KNOWN.iter().map(|k| eq(s, k)).collect();
    match d { D::JwtVcJson => k[0], D::LdpVc => k[1], D::MsoMDoc => k[2], D::DcSdJwt => k[3], D::Other(o) => eq(o, s) & !(k[0] | k[1] | k[2] | k[3]) }
}
fn texts() -> Vec<String> { (0..choose(bound(3, 4))).map(|_| string(1 + choose(2), "ES2")).collect() }
fn list(l: &[String]) -> String { format!("[{}]", l.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(",")) }
fn same(a: &[String], b: &[String]) -> bool { a.len() == b.len() && a.iter().zip(b).fold(true, |r, (x, y)| r & eq(x, y)) }
crate::entries! {
    // names and formats, in all the ways there are to convert them
    c26_names {
        let s = match choose(4) {
            3 => any(),
            0 => { let k = pick(KNOWN); let i = choose(k.len() + 1); let mut t = k.to_string(); t.replace_range(i..(i + 1).min(k.len()), &string(1, "jwtvc_son+-dplmXJ ")); t }
            1 => pick(KNOWN).to_string(),
            _ => string(choose(bound(3, 5)), "jwtvc_ \"\\"),
        };
        let d = D::from_name(Cow::Borrowed(&s));
        if let D::Other(_) = d { cover("another format") } else { cover("known format") }
        check(is(&d, &s), "a format name is taken for another format");
        check(is(&D::from_name(Cow::Owned(s.clone())), &s) && is(&D::from(s.as_str()), &s) && is(&D::from(s.clone()), &s) && s.parse::<D>().map_or(false, |d| is(&d, &s)), "a format name is taken for another format by one of the conversions");
        check(eq(d.to_string(), &s) && eq(String::from(d.clone()), &s), "a format is shown under another name");
        check(eq(to_text(&d), quote(&s)), "a format is written under another name");
        check(serde_json::from_str::<D>(&quote(&s)).map_or(false, |d| is(&d, &s)), "a format is read as another");
    }
    // what a format supports
    c26_payload {
        let l = texts();
        let extra = string(1, "ES2");
        let (t, n) = match choose(7) {
            6 => (format!(r#"{{"{}":{}}}"#, pick(&["alg", "algs", "alg_value", "algValues", "alg-values", "alg_values_supported", "sd-jwt_alg_values", "proof_type", "proof_types", "proof_type_value", "proofTypeValues", "proof_type_values_supported", "AlgValues", "ProofTypeValues", "cryptosuite_values", ""]), list(&l)), 0),
            0 => (format!(r#"{{"alg_values":{}}}"#, list(&l)), 1),
            1 => (format!(r#"{{"proof_type_values":{}}}"#, list(&l)), 2),
            2 => ("{}".to_string(), 0),
            3 => (format!(r#"{{"issuerauth_alg_values":[-7],"x":{}}}"#, list(&l)), 0),
            4 => (format!(r#"{{"Alg_values":{}}}"#, list(&l)), 0),
            _ => (pick(&[r#"{"alg_values":[7]}"#, r#"{"alg_values":"ES256"}"#, r#"{"proof_type_values":null}"#, r#"{"alg_values":["a"],"x":null}"#, "null", "7", "\"alg_values\"", "[\"alg_values\"]"]).to_string(), 0),
        };
        let Ok(mut p) = serde_json::from_str::<ClaimFormatPayload>(&t) else { check(false, "what a format supports is not read"); return };
        check(eq(to_text(&p), &t), "what a format supports is written other than it was read");
        check(match &p { ClaimFormatPayload::AlgValues(a) => n == 1 && same(a, &l), ClaimFormatPayload::ProofTypeValues(a) => n == 2 && same(a, &l), ClaimFormatPayload::Other(j) => n == 0 && eq(j.to_string(), &t) }, "what a format supports is read as something else");
        let alg = flag();
        if alg { p.add_alg(extra.clone()) } else { p.add_proof_type(extra.clone()) }
        let mut l2 = l.clone();
        l2.push(extra);
        let added = (n == 1 && alg) || (n == 2 && !alg);
        cover(if added { "added" } else { "not added" });
        let want = if added { format!(r#"{{"{}":{}}}"#, if n == 1 { "alg_values" } else { "proof_type_values" }, list(&l2)) } else { t };
        check(eq(to_text(&p), want), "a security method is not added to its own list, or changes another");
    }
    c26_claim {
        let l = texts();
        let (t, i) = match choose(8) {
            6 => (pick(&["\"x\"", "\"ldp_vc\"", "null", "7", "true", "{}", "\"\""]).to_string(), None),
            7 => (format!(r#"{{"jwt_vp":{},"ldp_vc":{{"proof_type":[]}}}}"#, list(&l)), None),
            0 => (format!(r#"{{"jwt_vc_json":{{"alg_values_supported":{}}}}}"#, list(&l)), Some(0)),
            1 => (format!(r#"{{"ldp_vc":{{"proof_type":{}}}}}"#, list(&l)), Some(1)),
            2 => (format!(r#"{{"mso_mdoc":{{"x":{}}}}}"#, list(&l)), Some(2)),
            3 => (format!(r#"{{"dc+sd-jwt":{}}}"#, list(&l)), Some(3)),
            4 => (format!(r#"{{"jwt_vp":{{"alg":{}}}}}"#, list(&l)), None),
            _ => (list(&l), None),
        };
        let Ok(c) = serde_json::from_str::<ClaimFormat>(&t) else { check(false, "a format is not read"); return };
        cover("read");
        check(eq(to_text(&c), &t), "a format is written other than it was read");
        check(match i { Some(i) => c.designation() == known(i), None => c.designation() == D::Other(if t.starts_with("{\"") { "jwt_vp".into() } else { "other".into() }) }, "a format has another designation than its own");
        check(match &c { ClaimFormat::JwtVcJson { alg_values_supported: a } => i == Some(0) && same(a, &l), ClaimFormat::LdpVc { proof_type: a } => i == Some(1) && same(a, &l), ClaimFormat::MsoMDoc(_) => i == Some(2), ClaimFormat::DcSdJwt(_) => i == Some(3), ClaimFormat::Other(j) => i.is_none() && eq(j.to_string(), &t) }, "a format is read as another");
    }
    // which methods a verifier supports for which format
    c26_security {
        let some = |n: usize| -> Vec<String> { (0..choose(n + 1)).map(|_| string(bound(1, 2), "ES2")).collect() };
        let (a, b) = (some(2), some(1));
        let m = string(bound(1, 2), "ES2");
        let names = ["jwt_vc_json", "ldp_vc", "x_other"];
        let (i, j) = (choose(3), choose(3));
        let key = [ "alg_values", "proof_type_values", "other_values" ];
        let (ka, kb) = (choose(3), choose(3));
        let t = if i == j { format!(r#"{{"{}":{{"{}":{}}}}}"#, names[i], key[ka], list(&a)) } else { format!(r#"{{"{}":{{"{}":{}}},"{}":{{"{}":{}}}}}"#, names[i], key[ka], list(&a), names[j], key[kb], list(&b)) };
        let v: VpFormats = json(&t).try_into().unwrap();
        let w: VpFormatsSupported = json(&t).try_into().unwrap();
        let ask = choose(4);
        let d = D::from(pick(&[names[0], names[1], names[2], "mso_mdoc"][ask..ask + 1]));
        let l: Option<(&Vec<String>, usize)> = if ask == i { Some((&a, ka)) } else if ask == j { Some((&b, kb)) } else { None };
        check(w.is_claim_format_supported(&d) == l.is_some(), "a format is supported that is not listed, or not although it is");
        let want = l.map_or(false, |(l, k)| k < 2 && l.iter().fold(false, |r, x| r | eq(x, &m)));
        cover(if want { "supported" } else { "not supported" });
        check(v.supports_security_method(&d, &m) == want, "a security method is supported that is not listed for the format, or not although it is");
        check(Json::try_from(v).map_or(false, |j| eq(j.to_string(), json(&t).to_string())) && Json::try_from(w).map_or(false, |j| eq(j.to_string(), json(&t).to_string())), "formats are written other than they were read");
    }
    // which formats are supported, when formats of similar names are
    c26_asked {
        const ALL: &[&str] = &["jwt_vc_json", "ldp_vc", "mso_mdoc", "dc+sd-jwt", "x_y"];
        const NEAR: &[&str] = &["", "jwt_vc", "jwt_vp", "jwt_vp_json", "jwt_vc_json-ld", "jwt_vc_jso", "jwt_vc_jsonx", "JWT_VC_JSON", " jwt_vc_json", "jwt-vc-json", "ldp", "ldp_vp", "ldp_v", "ldp_vc ", "LDP_VC", "ldp-vc", "mso_mdoc_zk", "mso-mdoc", "mso_mdo", "MSO_MDOC", "Mso_mdoc", "mdoc", "dc+sd-jwt+kb", "vc+sd-jwt", "sd-jwt", "dc+sd_jwt", "dc sd-jwt", "DC+SD-JWT", "dc+sd-jw", "x", "x_", "x_y_z", "X_Y", "other", "ac_vc"];
        let mask = choose(32);
        let has: Vec<&str> = ALL.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, s)| *s).collect();
        let (k, p) = pick(&[("alg_values", true), ("proof_type_values", true), ("z", false)]);
        let t = format!("{{{}}}", has.iter().map(|n| format!(r#""{n}":{{"{k}":["ES256","{n}"]}}"#)).collect::<Vec<_>>().join(","));
        let (v, w): (VpFormats, VpFormatsSupported) = (json(&t).try_into().unwrap(), json(&t).try_into().unwrap());
        cover("asked");
        for n in ALL.iter().chain(NEAR) {
            let d = D::from(*n);
            check(w.is_claim_format_supported(&d) == has.contains(n), "a format is supported that is not listed, or not although it is");
            for m in ["ES256", "ES25", "ES256K", "es256", "", n] { check(v.supports_security_method(&d, &m.to_string()) == (p && has.contains(n) && (m == "ES256" || m == *n)), "a security method is supported that is not listed for the format, or not although it is"); }
        }
    }
    // any text among the methods
    c26_methods {
        let s = match choose(4) { 0 => any(), 1 => beyond(), 2 => String::new(), _ => near("ES256") };
        let (n, k) = pick(&[("jwt_vc_json", "alg_values"), ("ldp_vc", "proof_type_values"), ("mso_mdoc", "alg_values"), ("dc+sd-jwt", "proof_type_values"), ("zz", "alg_values"), ("zz", "x"), ("jwt_vc_json", "alg"), ("ldp_vc", "proof_type"), ("mso_mdoc", "alg"), ("dc+sd-jwt", "alg_values_supported")]);
        let listed = k == "alg_values" || k == "proof_type_values";
        let v: VpFormats = json(&format!(r#"{{"{n}":{{"{k}":["A","{s}","A"]}}}}"#)).try_into().unwrap();
        cover("methods");
        for m in ["A", "ES256", ""] { check(v.supports_security_method(&D::from(n), &m.to_string()) == (listed && (m == "A" || eq(m, &s))), "a security method is supported that is not listed for the format, or not although it is"); }
        check(v.supports_security_method(&D::from(n), &s) == listed, "a security method listed is not supported");
    }
    // presentations
    c26_items {
        let s = string(bound(2, 3), "aZ.~-_9\"\\ ");
        let (t, text) = match choose(5) { 0 => (quote(&s), true), 1 => ("{}".into(), false), 2 => (format!(r#"{{"@context":["c"],"proof":{{"v":{}}}}}"#, quote(&s)), false), 3 => (format!(r#"{{"a":{},"b":[null,1]}}"#, quote(&s)), false), _ => (format!("\"a.b.{}\"", string(1, "ab")), true) };
        let Ok(i) = serde_json::from_str::<VpTokenItem>(&t) else { check(false, "a presentation is not read"); return };
        cover(if text { "text" } else { "object" });
        check(matches!(i, VpTokenItem::String(_)) == text && eq(to_text(&i), &t), "a presentation is read as something else, or written in another form");
        check(match VpTokenItem::from(s.clone()) { VpTokenItem::String(x) => eq(x, &s), _ => false }, "a text presentation is changed");
        let bad = pick(&["null", "7", "true", "[]", "[\"a\"]"]);
        check(serde_json::from_str::<VpTokenItem>(bad).is_err() && serde_json::from_str::<VpToken>(&format!(r#"{{"q":[{t},{bad}]}}"#)).is_err() && serde_json::from_str::<VpToken>(&format!(r#"{{"q":{}}}"#, if flag() { &t } else { "null" })).is_err(), "something that is no presentation is read as one");
    }
    // presentations of the ssi library
    c26_ssi {
        let s = string(bound(2, 3), "ab:9");
        let v1 = flag();
        let t = format!(r#"{{"@context":["https://www.w3.org/{}"],"holder":"did:{s}","type":["VerifiablePresentation","x{s}"],"x":{{"k":["{s}",null,7]}}}}"#, if v1 { "2018/credentials/v1" } else { "ns/credentials/v2" });
        let (want, got): (Json, VpTokenItem) = match (choose(5), v1) {
            (3, _) => { let t = t.replace("\"x\":{", PROOF); let p: ssi_claims::data_integrity::DataIntegrity<ssi_claims::vc::syntax::AnyJsonPresentation, ssi_claims::data_integrity::AnySuite> = serde_json::from_str(&t).unwrap(); (serde_json::to_value(&p).unwrap(), p.into()) }
            (4, _) => { let t = t.replace("\"x\":{", PROOF); let p: ssi_claims::data_integrity::AnyDataIntegrity = serde_json::from_str(&t).unwrap(); (serde_json::to_value(&p).unwrap(), p.into()) }
            (0, true) => { let p: ssi_claims::vc::v1::syntax::JsonPresentation = serde_json::from_str(&t).unwrap(); (serde_json::to_value(&p).unwrap(), p.into()) }
            (0, false) => { let p: ssi_claims::vc::v2::syntax::JsonPresentation = serde_json::from_str(&t).unwrap(); (serde_json::to_value(&p).unwrap(), p.into()) }
            (1, false) => { let p: ssi_claims::vc::v2::syntax::JsonPresentation<ssi_claims::vc::v2::SpecializedJsonCredential<ssi_json_ld::syntax::Object>> = serde_json::from_str(&t).unwrap(); (serde_json::to_value(&p).unwrap(), p.into()) }
            _ => { let p: ssi_claims::vc::syntax::AnyJsonPresentation = serde_json::from_str(&t).unwrap(); (serde_json::to_value(&p).unwrap(), p.into()) }
        };
        cover("ssi");
        check(match got { VpTokenItem::JsonObject(o) => eq(Json::Object(o).to_string(), want.to_string()), _ => false }, "a presentation of the library is changed");
    }
    // presentations by query
    c26_token {
        let mut t = if flag() { VpToken::new() } else { VpToken::default() };
        let texts = || -> Vec<String> { (0..choose(3)).map(|_| string(2, "ES2")).collect() };
        let ids = ["q", "Q", "q2"];
        let mut m: [Option<Vec<String>>; 3] = [None, None, None];
        let one = choose(4);
        if one < 3 { let l = texts(); t = VpToken::with_credential(ids[one], l.iter().cloned().map(VpTokenItem::from).collect()); m[one] = Some(l); }
        for _ in 0..bound(2, 3) { let k = choose(3); let l = texts(); t.insert(ids[k], l.iter().cloned().map(VpTokenItem::from).collect()); m[k] = Some(l); }
        cover("token");
        let n = m.iter().flatten().count();
        let want = norm(&m, &ids);
        let view = |l: &Vec<VpTokenItem>, w: &Vec<String>| l.len() == w.len() && l.iter().zip(w).fold(true, |r, (x, y)| r & match x { VpTokenItem::String(s) => eq(s, y), _ => false });
        let holds = |t: &VpToken| t.len() == n && t.is_empty() == (n == 0) && t.iter().count() == n && ids.iter().zip(&m).all(|(k, w)| match (t.get(k), w) { (Some(l), Some(w)) => view(l, w), (None, None) => true, _ => false })
            && t.iter().all(|(k, l)| ids.iter().zip(&m).any(|(i, w)| i == k && w.as_ref().map_or(false, |w| view(l, w))));
        check(holds(&t), "a token does not hold the presentations last given for each query");
        let j = Json::from(t.clone());
        check(eq(j.to_string(), &want) && eq(json(&to_text(&t)).to_string(), &want), "a token is written other than it is");
        check(VpToken::try_from(j).map_or(false, |t| holds(&t)), "a token is read back as something else");
    }
}
fn norm(m: &[Option<Vec<String>>; 3], ids: &[&str; 3]) -> String { json(&format!("{{{}}}", ids.iter().zip(m).filter_map(|(k, l)| l.as_ref().map(|l| format!("\"{k}\":{}", list(l)))).collect::<Vec<_>>().join(","))).to_string() }
