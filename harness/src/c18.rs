//! DCQL queries: what is asked survives the wire, defaults are the specification's, required lists are not empty.
use crate::fx::*;
use crate::vsym::*;
use openid4vp::core::credential_format::ClaimFormatDesignation;
use openid4vp::core::dcql_query::*;
use openid4vp::utils::NonEmptyVec;
use serde_json::Value as Json;

const CH: &str = IDCHARS;
const INTS: &[i64] = &[0, -1, 70000, i64::MAX, i64::MIN];
fn parse(s: &str) -> Option<DcqlQuery> { serde_json::from_str(s).ok() }
fn one(extra: &str) -> String { format!(r#"{{"credentials":[{{"id":"q","format":"f","meta":{{}}{extra}}}]}}"#) }
/// The text, read as JSON and written canonically.
fn canon(s: &str) -> String { json(s).to_string() }
/// Written out, the query is exactly `want`, and reading that back gives the same query; both as text and as a JSON value.
fn written(q: &DcqlQuery, want: &str) {
    let j: Json = q.clone().into();
    let w = canon(want);
    check(eq(j.to_string(), &w), "a query is not written as it was asked");
    let t = serde_json::to_string(q).unwrap();
    check(eq(canon(&t), &w), "the query's text and its JSON value differ");
    check(DcqlQuery::try_from(j).map_or(false, |x| x == *q) && parse(&t).map_or(false, |x| x == *q), "a query does not survive being written and read");
}
/// A member that is absent, null, or a boolean.
fn boolean(name: &str) -> (String, Option<bool>) {
    match choose(4) { 0 => (String::new(), None), 1 => (format!(r#","{name}":null"#), None), 2 => (format!(r#","{name}":true"#), Some(true)), _ => (format!(r#","{name}":false"#), Some(false)) }
}
fn shown(name: &str, b: Option<bool>) -> String { b.map_or(String::new(), |b| format!(r#","{name}":{b}"#)) }
#[derive(Clone)]
enum El { S(String), Null, I(usize) }
impl El {
    fn any() -> El { match choose(3) { 0 => El::S(string(bound(2, 4), CH)), 1 => El::Null, _ => El::I(pick(&[0, 300, usize::MAX])) } }
    fn text(&self) -> String { match self { El::S(s) => format!("\"{s}\""), El::Null => "null".into(), El::I(i) => i.to_string() } }
    fn is(&self, p: &DcqlCredentialClaimsQueryPath) -> bool {
        match (self, p) { (El::S(a), DcqlCredentialClaimsQueryPath::String(b)) => eq(a, b), (El::Null, DcqlCredentialClaimsQueryPath::Null) => true, (El::I(a), DcqlCredentialClaimsQueryPath::Integer(b)) => *a as i128 == *b as i128, _ => false }
    }
    fn str(&self) -> Option<&str> { if let El::S(s) = self { Some(s) } else { None } }
}
fn same(a: Option<&str>, b: Option<&str>) -> bool { match (a, b) { (Some(a), Some(b)) => eq(a, b), (None, None) => true, _ => false } }
fn list(l: &[String]) -> String { l.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(",") }
fn same_list(a: &[String], b: &[String]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| eq(x, y)) }
crate::entries! {
    // identifier, format, metadata and the two switches
    c18_credential {
        let id = string(bound(3, 8), CH);
        let f = string(pick(if thorough() { &[3, 6, 8, 9, 11, 12] } else { &[6, 8, 9, 11] }), "jwtvcsonldpmd+-_");
        let m = string(2, CH);
        let meta = match choose(3) { 0 => None, 1 => Some(format!(r#"{{"vct_values":["{m}"],"x":[1,null,{{}}]}}"#)), _ => Some("{}".to_string()) };
        let (h, hv) = boolean("require_cryptographic_holder_binding");
        let (mu, mv) = boolean("multiple");
        let me = meta.as_ref().map_or(String::new(), |x| format!(r#","meta":{x}"#));
        let t = format!(r#"{{"credentials":[{{"id":"{id}","format":"{f}"{me}{h}{mu}}}]}}"#);
        let Some(q) = parse(&t) else { check(false, "a well-formed query was not read"); return };
        cover("read");
        check(q.credential_sets().is_none() && q.credentials().len() == 1, "another query was read than the one asked");
        let c = &q.credentials()[0];
        check(eq(c.id(), &id), "the identifier was changed");
        check(eq(c.format().to_string(), &f), "the format was changed");
        let known = eq(&f, "jwt_vc_json") | eq(&f, "ldp_vc") | eq(&f, "mso_mdoc") | eq(&f, "dc+sd-jwt");
        check(known != matches!(c.format(), ClaimFormatDesignation::Other(_)), "a format of the specification counts as unknown, or the reverse");
        check(c.require_cryptographic_holder_binding() == hv.unwrap_or(true) && c.require_cryptographic_holder_binding_raw() == hv, "holder binding is not required by default, or not as asked");
        check(c.multiple() == mv.unwrap_or(false) && c.multiple_raw() == mv, "multiple credentials are allowed by default, or not as asked");
        check(c.claims().is_none() && c.claim_sets().is_none() && c.trusted_authorities().is_none(), "something was asked for that the query does not contain");
        written(&q, &format!(r#"{{"credentials":[{{"id":"{id}","format":"{f}","meta":{}{}{}}}]}}"#, meta.unwrap_or("{}".into()), shown("require_cryptographic_holder_binding", hv), shown("multiple", mv)));
    }
    // claims: paths
    c18_path {
        let p: Vec<El> = (0..1 + choose(bound(3, 4))).map(|_| El::any()).collect();
        let t: Vec<String> = p.iter().map(El::text).collect();
        let cid = if flag() { Some(string(2, CH)) } else { None };
        let i = cid.as_ref().map_or(String::new(), |i| format!(r#","id":"{i}""#));
        let (r, rv) = boolean("intent_to_retain");
        let Some(q) = parse(&one(&format!(r#","claims":[{{"path":[{}]{i}{r}}}]"#, t.join(",")))) else { check(false, "a well-formed query was not read"); return };
        cover("read");
        let Some([c]) = q.credentials()[0].claims().map(|l| &l[..]) else { check(false, "another number of claims was read"); return };
        check(c.path().len() == p.len() && p.iter().zip(c.path()).all(|(a, b)| a.is(b)), "the path of a claim was changed");
        check(same(c.id().map(|s| s.as_str()), cid.as_deref()), "the identifier of a claim was changed");
        check(c.intent_to_retain() == rv && c.values().is_none(), "something was asked for that the query does not contain");
        check(same(c.namespace(), p[0].str()), "the namespace is not the first element of the path");
        check(same(c.element_identifier(), p.get(1).and_then(El::str)), "the element identifier is not the second element of the path");
        check(same(c.claim_name(), p.iter().rev().find_map(El::str)), "the name of a claim is not the last name in its path");
        written(&q, &one(&format!(r#","claims":[{{"path":[{}]{i}{}}}]"#, t.join(","), shown("intent_to_retain", rv))));
    }
    // claims: expected values
    c18_values {
        let s = string(bound(2, 4), CH);
        let k: Vec<usize> = (0..1 + choose(bound(2, 3))).map(|_| choose(3 + INTS.len())).collect();
        let txt: Vec<String> = k.iter().map(|k| match k { 0 => format!("\"{s}\""), 1 => "true".into(), 2 => "false".into(), k => INTS[k - 3].to_string() }).collect();
        let w = one(&format!(r#","claims":[{{"path":["a"]}},{{"path":["b"],"values":[{}]}}]"#, txt.join(",")));
        let Some(q) = parse(&w) else { check(false, "a well-formed query was not read"); return };
        cover("read");
        let Some([_, c]) = q.credentials()[0].claims().map(|l| &l[..]) else { check(false, "another number of claims was read"); return };
        let Some(v) = c.values() else { check(false, "the expected values were lost"); return };
        check(v.len() == k.len() && k.iter().zip(v.iter()).all(|(k, v)| match (k, v) {
            (0, DcqlCredentialClaimsQueryValue::String(x)) => eq(x, &s), (1, DcqlCredentialClaimsQueryValue::Boolean(true)) | (2, DcqlCredentialClaimsQueryValue::Boolean(false)) => true,
(k, DcqlCredentialClaimsQueryValue::Integer(i)) if *k > 2 => *i as i128 == INTS[k - 3] as i128, _ => false }), "an expected value was changed");
        written(&q, &w);
    }
    // alternatives and authorities
    c18_sets {
        let ids: Vec<String> = (0..choose(3)).map(|_| string(2, CH)).collect();
        let (r, rv) = boolean("required");
        let two = flag();
        let o = if two { format!(r#"[[{}],["z"]]"#, list(&ids)) } else { format!("[[{}]]", list(&ids)) };
        let cs = if flag() { Some(string(2, CH)) } else { None };
        let c = cs.as_ref().map_or(String::new(), |s| format!(r#","claims":[{{"id":"{s}","path":["a"]}}],"claim_sets":[["{s}"],[]]"#));
        let t = |r: &str| format!(r#"{{"credentials":[{{"id":"q","format":"f","meta":{{}}{c}}},{{"id":"q2","format":"f","meta":{{}}}}],"credential_sets":[{{"options":{o}{r}}},{{"options":[["q"]],"required":false}}]}}"#);
        let Some(q) = parse(&t(&r)) else { check(false, "a well-formed query was not read"); return };
        cover("read");
        let Some([a, b]) = q.credential_sets().map(|l| &l[..]) else { check(false, "another number of credential sets was read"); return };
        check(a.is_required() == rv.unwrap_or(true) && a.required_raw() == rv && !b.is_required(), "a credential set is not required by default, or not as asked");
        check(a.options().len() == 1 + two as usize && same_list(&a.options()[0], &ids) && (!two || a.options()[1] == ["z"]), "the options of a credential set were changed");
        check(q.credentials().len() == 2 && q.credentials()[1].id() == "q2" && q.credentials()[1].claim_sets().is_none(), "another query was read than the one asked");
        match (&cs, q.credentials()[0].claim_sets()) { (Some(s), Some(l)) => check(l.len() == 2 && same_list(&l[0], &[s.clone()]) && l[1].is_empty(), "the claim sets were changed"), (None, None) => (), _ => check(false, "the claim sets were lost, or appeared from nowhere") }
        written(&q, &t(&shown("required", rv)));
    }
    c18_authorities {
        // one of the known types with any character of it replaced, or something else altogether
        let ty = match choose(4) {
            3 => string(bound(2, 4), "akietsl"),
            k => {
                let mut t = ["aki", "etsi_tl", "openid_federation"][k].to_string();
                let i = choose(t.len() + 1);
                t.replace_range(i..(i + 1).min(t.len()), &string(1, "akietsl_opndfrAKE:"));
                t
            }
        };
        let v = string(bound(2, 4), CH);
        let w = one(&format!(r#","trusted_authorities":[{{"type":"{ty}","values":["{v}","w"]}}]"#));
        let Some(q) = parse(&w) else { check(false, "a well-formed query was not read"); return };
        cover("read");
        let Some([a]) = q.credentials()[0].trusted_authorities().map(|l| &l[..]) else { check(false, "another number of authorities was read"); return };
        check(match a.authority_type() {
            TrustedAuthorityType::Aki => eq(&ty, "aki"), TrustedAuthorityType::EtsiTl => eq(&ty, "etsi_tl"), TrustedAuthorityType::OpenidFederation => eq(&ty, "openid_federation"),
            TrustedAuthorityType::Other(o) => eq(o, &ty) & !(eq(&ty, "aki") | eq(&ty, "etsi_tl") | eq(&ty, "openid_federation")),
        }, "the type of an authority was changed");
        check(a.values().len() == 2 && eq(&a.values()[0], &v) && a.values()[1] == "w", "the values of an authority were changed");
        written(&q, &w);
    }
    // lists that must not be empty, and members that must be there
    c18_required {
        let s = string(1, "ab");
        let bad = pick(&[
            r#"{}"#, r#"{"credentials":[]}"#, r#"{"credentials":null}"#, r#"{"credentials":{}}"#, r#"[]"#,
            r#"{"credentials":[{"format":"f","meta":{}}]}"#, r#"{"credentials":[{"id":"S","meta":{}}]}"#, r#"{"credentials":[{"id":1,"format":"f"}]}"#, r#"{"credentials":[{"id":"S","format":1}]}"#,
            r#"{"credentials":[{"id":"S","format":"f","meta":[]}]}"#, r#"{"credentials":[{"id":"S","format":"f","meta":null}]}"#, r#"{"credentials":[{"id":"S","format":"f","meta":"S"}]}"#, r#"{"credentials":[{"id":"S","format":"f","multiple":"true"}]}"#, r#"{"credentials":[{"id":"S","format":"f","require_cryptographic_holder_binding":0}]}"#,
            r#"{"credentials":[{"id":"S","format":"f","claims":[]}]}"#, r#"{"credentials":[{"id":"S","format":"f","claim_sets":[]}]}"#, r#"{"credentials":[{"id":"S","format":"f","claim_sets":["S"]}]}"#, r#"{"credentials":[{"id":"S","format":"f","trusted_authorities":[]}]}"#,
            r#"{"credentials":[{"id":"S","format":"f","trusted_authorities":[{"type":"aki","values":[]}]}]}"#, r#"{"credentials":[{"id":"S","format":"f","trusted_authorities":[{"type":"aki"}]}]}"#, r#"{"credentials":[{"id":"S","format":"f","trusted_authorities":[{"values":["S"]}]}]}"#,
            r#"{"credentials":[{"id":"S","format":"f","claims":[{}]}]}"#, r#"{"credentials":[{"id":"S","format":"f","claims":[{"path":[]}]}]}"#, r#"{"credentials":[{"id":"S","format":"f","claims":[{"path":null}]}]}"#, r#"{"credentials":[{"id":"S","format":"f","claims":[{"path":"S"}]}]}"#,
            r#"{"credentials":[{"id":"S","format":"f","claims":[{"path":[true]}]}]}"#, r#"{"credentials":[{"id":"S","format":"f","claims":[{"path":["S",-1]}]}]}"#, r#"{"credentials":[{"id":"S","format":"f","claims":[{"path":["S",1.5]}]}]}"#, r#"{"credentials":[{"id":"S","format":"f","claims":[{"path":["S",["x"]]}]}]}"#, r#"{"credentials":[{"id":"S","format":"f","claims":[{"path":["S",18446744073709551616]}]}]}"#,
            r#"{"credentials":[{"id":"S","format":"f","claims":[{"path":["S"],"values":[]}]}]}"#, r#"{"credentials":[{"id":"S","format":"f","claims":[{"path":["S"],"values":[null]}]}]}"#, r#"{"credentials":[{"id":"S","format":"f","claims":[{"path":["S"],"values":[1.5]}]}]}"#, r#"{"credentials":[{"id":"S","format":"f","claims":[{"path":["S"],"values":[9223372036854775808]}]}]}"#, r#"{"credentials":[{"id":"S","format":"f","claims":[{"path":["S"],"values":["S",{}]}]}]}"#,
            r#"{"credentials":[{"id":"S","format":"f"}],"credential_sets":[]}"#, r#"{"credentials":[{"id":"S","format":"f"}],"credential_sets":[{}]}"#, r#"{"credentials":[{"id":"S","format":"f"}],"credential_sets":[{"options":[]}]}"#, r#"{"credentials":[{"id":"S","format":"f"}],"credential_sets":[{"options":["S"]}]}"#, r#"{"credentials":[{"id":"S","format":"f"}],"credential_sets":[{"options":[["S"]],"required":"false"}]}"#,
        ]).replace('S', &s);
        cover("ill-formed");
        check(parse(&bad).is_none(), "a query that lacks something required, or has an empty list where none may be, was read");
        check(DcqlQuery::try_from(json(&bad)).is_err(), "a JSON value that is no query was read as one");
    }
    // a query put together by a program
    c18_setters {
        let (a, b, s) = (string(2, CH), string(2, CH), string(2, CH));
        let mut c = DcqlCredentialQuery::new(a.clone(), ClaimFormatDesignation::MsoMDoc);
        check(eq(c.id(), &a) && *c.format() == ClaimFormatDesignation::MsoMDoc && c.meta().is_empty() && c.require_cryptographic_holder_binding() && !c.multiple() && c.claims().is_none() && c.claim_sets().is_none() && c.trusted_authorities().is_none(), "a new query asks for something");
        let mut cl = DcqlCredentialClaimsQuery::new(NonEmptyVec::new(DcqlCredentialClaimsQueryPath::String(s.clone())));
        check(cl.id().is_none() && cl.values().is_none() && cl.intent_to_retain().is_none() && cl.path().len() == 1, "a new claim asks for something");
        let mut ta = TrustedAuthoritiesQuery::new(TrustedAuthorityType::Aki, NonEmptyVec::new(s.clone()));
        let mut cs = DcqlCredentialSetQuery::new(NonEmptyVec::new(vec![a.clone()]));
        check(cs.is_required() && cs.required_raw().is_none(), "a new credential set is not required");
        let mut want = (String::new(), String::new(), String::new(), String::new(), String::new());
        let what = choose(14);
        let mut id = a.clone();
        let mut fmt = "mso_mdoc";
        let mut meta = "{}".to_string();
        let mut path = format!("\"{s}\"");
        let mut tav = (r#""aki""#, format!("\"{s}\""));
        let mut opts = format!(r#"["{a}"]"#);
        match what {
            0 => { if flag() { c.set_id(b.clone()) } else { *c.id_mut() = b.clone() } id = b.clone(); }
            1 => { if flag() { c.set_format(ClaimFormatDesignation::DcSdJwt) } else { *c.format_mut() = ClaimFormatDesignation::DcSdJwt } fmt = "dc+sd-jwt"; }
            2 => { let m = json(&format!(r#"{{"k":"{b}"}}"#)).as_object().unwrap().clone(); if flag() { c.set_meta(m) } else { *c.meta_mut() = m } meta = format!(r#"{{"k":"{b}"}}"#); }
            3 => { let v = pick(&[None, Some(true), Some(false)]); c.set_multiple(v); want.0 = shown("multiple", v); }
            4 => { let v = pick(&[None, Some(true), Some(false)]); c.set_require_cryptographic_holder_binding(v); want.0 = shown("require_cryptographic_holder_binding", v); }
            5 => { let l = NonEmptyVec::maybe_new(vec![vec![b.clone()], vec![]]); if flag() { c.set_claim_sets(l) } else { *c.claim_sets_mut() = l } want.0 = format!(r#","claim_sets":[["{b}"],[]]"#); }
            6 => { if flag() { cl.set_id(Some(b.clone())) } else { *cl.id_mut() = Some(b.clone()) } want.1 = format!(r#","id":"{b}""#); }
            7 => { let mut p = NonEmptyVec::new(DcqlCredentialClaimsQueryPath::Null); p.push(DcqlCredentialClaimsQueryPath::Integer(3)); if flag() { cl.set_path(p) } else { *cl.path_mut() = p } path = "null,3".into(); }
            8 => { let v = Some(NonEmptyVec::new(DcqlCredentialClaimsQueryValue::String(b.clone()))); if flag() { cl.set_values(v) } else { *cl.values_mut() = v } want.1 = format!(r#","values":["{b}"]"#); }
            9 => { let v = pick(&[Some(true), Some(false)]); if flag() { cl.set_intent_to_retain(v) } else { *cl.intent_to_retain_mut() = v } want.1 = shown("intent_to_retain", v); }
            10 => { ta.set_authority_type(TrustedAuthorityType::EtsiTl); tav.0 = r#""etsi_tl""#; }
            11 => { if flag() { ta.set_values(NonEmptyVec::new(b.clone())); tav.1 = format!("\"{b}\""); } else { ta.values_mut().push(b.clone()); tav.1 = format!("\"{s}\",\"{b}\""); } }
            12 => { if flag() { cs.set_options(NonEmptyVec::new(vec![b.clone(), a.clone()])); opts = format!(r#"["{b}","{a}"]"#); } else { cs.options_mut().push(vec![b.clone()]); opts = format!(r#"["{a}"],["{b}"]"#); } }
            _ => { let v = pick(&[None, Some(true), Some(false)]); if flag() { cs.set_required(v) } else { *cs.required_mut() = v } want.2 = shown("required", v); }
        }
        if flag() { c.set_claims(Some(NonEmptyVec::new(cl))) } else { *c.claims_mut() = Some(NonEmptyVec::new(cl)) }
        if flag() { c.set_trusted_authorities(Some(NonEmptyVec::new(ta))) } else { *c.trusted_authorities_mut() = Some(NonEmptyVec::new(ta)) }
        let mut q = DcqlQuery::new(NonEmptyVec::new(c.clone()));
        check(q.credential_sets().is_none() && q.credentials().len() == 1, "a new query asks for something else");
        if flag() { q.set_credential_sets(Some(NonEmptyVec::new(cs))) } else { *q.credential_sets_mut() = Some(NonEmptyVec::new(cs)) }
        let one = format!(r#"{{"id":"{id}","format":"{fmt}","meta":{meta}{},"claims":[{{"path":[{path}]{}}}],"trusted_authorities":[{{"type":{},"values":[{}]}}]}}"#, want.0, want.1, tav.0, tav.1);
        let more = match choose(3) { 0 => { q.credentials_mut().push(c); true } 1 => { let mut l = NonEmptyVec::new(c.clone()); l.push(c); q.set_credentials(l); true } _ => false };
        cover("built");
        written(&q, &format!(r#"{{"credentials":[{one}{}],"credential_sets":[{{"options":[{opts}]{}}}]}}"#, if more { format!(",{one}") } else { String::new() }, want.2));
    }
    // setters replace what was there, with nothing as well, and touch nothing else
    c18_replaced {
        let s = string(2, CH);
        let full = r#"{"credentials":[{"id":"q","format":"f","meta":{"k":1},"claims":[{"id":"i","path":["a",null],"values":["$",1],"intent_to_retain":true}],"claim_sets":[["i"],["i"]],"trusted_authorities":[{"type":"aki","values":["$"]}],"require_cryptographic_holder_binding":false,"multiple":true}],"credential_sets":[{"options":[["q"]],"required":false}]}"#;
        let fill = |t: &str| t.split('$').collect::<Vec<_>>().join(&s);
        let Some(mut q) = parse(&fill(full)) else { check(false, "a well-formed query was not read"); return };
        let what = choose(16);
        let gone = {
            let mutate = flag();
            macro_rules! on { ($o:expr, $set:ident, $get:ident, $v:expr) => {{ let v = $v; if mutate { *$o.$get() = v } else { $o.$set(v) } }} }
            let mut c = q.credentials()[0].clone();
            let mut cl = c.claims().unwrap()[0].clone();
            let mut cs = q.credential_sets().unwrap()[0].clone();
            let (mut in_claim, mut in_set) = (false, false);
            let g: (String, String) = match what {
                0 => { on!(q, set_credential_sets, credential_sets_mut, None); (r#","credential_sets":[{"options":[["q"]],"required":false}]"#.into(), String::new()) }
                1 => { cs.set_required(None); in_set = true; (r#","required":false"#.into(), String::new()) }
                2 => { on!(cs, set_options, options_mut, NonEmptyVec::new(vec![])); in_set = true; (r#""options":[["q"]]"#.into(), r#""options":[[]]"#.into()) }
                3 => { on!(c, set_claims, claims_mut, None); (r#","claims":[{"id":"i","path":["a",null],"values":["$",1],"intent_to_retain":true}]"#.into(), String::new()) }
                4 => { on!(c, set_claim_sets, claim_sets_mut, None); (r#","claim_sets":[["i"],["i"]]"#.into(), String::new()) }
                5 => { on!(c, set_claim_sets, claim_sets_mut, NonEmptyVec::maybe_new(vec![vec!["i".to_string(), "i".into()], vec!["z".into()], vec!["z".into()], vec![]])); (r#"[["i"],["i"]]"#.into(), r#"[["i","i"],["z"],["z"],[]]"#.into()) }
                6 => { on!(c, set_trusted_authorities, trusted_authorities_mut, None); (r#","trusted_authorities":[{"type":"aki","values":["$"]}]"#.into(), String::new()) }
                7 => { c.set_multiple(None); (r#","multiple":true"#.into(), String::new()) }
                8 => { c.set_require_cryptographic_holder_binding(None); (r#","require_cryptographic_holder_binding":false"#.into(), String::new()) }
                9 => { on!(c, set_meta, meta_mut, Default::default()); (r#"{"k":1}"#.into(), "{}".into()) }
                10 => { on!(cl, set_id, id_mut, None); in_claim = true; (r#""id":"i","#.into(), String::new()) }
                11 => { on!(cl, set_values, values_mut, None); in_claim = true; (r#","values":["$",1]"#.into(), String::new()) }
                12 => { on!(cl, set_intent_to_retain, intent_to_retain_mut, None); in_claim = true; (r#","intent_to_retain":true"#.into(), String::new()) }
                13 => { on!(cl, set_path, path_mut, NonEmptyVec::new(DcqlCredentialClaimsQueryPath::Null)); in_claim = true; (r#"["a",null]"#.into(), "[null]".into()) }
                14 => { on!(c, set_format, format_mut, ClaimFormatDesignation::LdpVc); (r#""format":"f""#.into(), r#""format":"ldp_vc""#.into()) }
                _ => { on!(c, set_id, id_mut, String::new()); (r#""id":"q","#.into(), r#""id":"","#.into()) }
            };
            if in_claim { c.set_claims(Some(NonEmptyVec::new(cl))); }
            if in_set { q.set_credential_sets(Some(NonEmptyVec::new(cs))); } else if what > 2 { q.set_credentials(NonEmptyVec::new(c)); }
            g
        };
        cover("replaced");
        check(full.matches(&gone.0[..]).count() == 1, "the expectation is made from the query");
        written(&q, &fill(&full.replacen(&gone.0, &gone.1, 1)));
    }
    // lists that are never empty
    c18_nonempty {
        let v: Vec<u8> = bytes(choose(bound(4, 6)), &[]);
        let r = NonEmptyVec::try_from(v.clone());
        let m = NonEmptyVec::maybe_new(v.clone());
        check(r.is_ok() == !v.is_empty() && m.is_some() == !v.is_empty(), "a list was made from nothing, or not made from something");
        let mut room = Vec::with_capacity(4);
        room.extend_from_slice(&v);
        check(NonEmptyVec::try_from(room.clone()).is_ok() == !v.is_empty() && NonEmptyVec::maybe_new(room).is_some() == !v.is_empty(), "a list was made from nothing, or not made from something");
        if let (Ok(mut r), Some(m)) = (r, m) {
            cover("some");
            check(eq(&r[..], &v) && eq(m.as_ref(), &v) && eq(Vec::from(m.clone()), &v) && eq(m.clone().into_inner(), &v), "a list has other elements than given");
            check((&m).into_iter().zip(&v).all(|(a, b)| a == b) && m.into_iter().count() == v.len(), "a list has other elements than given");
            let x = bytes(1, &[]);
            r.push(x[0]);
            check(eq(&r[..v.len()], &v) && r.len() == v.len() + 1 && eq(&r[v.len()..], &x), "adding an element changed others");
            for i in 0..pick(&[1usize, bound(300, 5000)]) { r.push(i as u8); check(r.len() == v.len() + 2 + i && r[r.len() - 1] == i as u8, "an element was not added"); }
        } else { cover("none"); }
        check(!NonEmptyVec::<String>::default().is_empty() && !NonEmptyVec::<u8>::default().is_empty(), "the default of a non-empty list is empty");
        let x = bytes(1, &[]);
        check(eq(&NonEmptyVec::new(x[0])[..], &x), "a list of one element has other elements");
        check(serde_json::from_str::<NonEmptyVec<u8>>("[]").is_err() && serde_json::from_str::<NonEmptyVec<u8>>("null").is_err(), "an empty list was read");
    }
    // everything at once, each part there or not: no part changes how another is read
    c18_full {
        let (n, what) = pick(&[(1, 0), (3, 0), (2, 2)]);
        let s = string(2, CH);
        let mut all = vec![];
        let mut want = vec![];
        for i in 0..n {
            // the parts of the last credential vary, those before it have all or none
            let last = i + 1 == n;
            let on = |k: usize| if last { flag() } else { what > k % 2 };
            let (cl, cs, ta, h, m, me) = (on(0), on(1), on(2), on(3), on(4), on(5));
            let mut t = format!(r#"{{"id":"{}","format":"{}","meta":{{{}}}"#, if i == 1 { s.as_str() } else { "q" }, if i == 0 { "mso_mdoc" } else { "x" }, if me { r#""doctype_value":"d","vct_values":[]"# } else { "" });
            if cl { t += &format!(r#","claims":[{{"path":["{s}","b",null]}},{{"id":"b","path":[0],"values":["{s}",1,true],"intent_to_retain":false}},{{"path":["{s}","b",null]}}]"#); }
            if cs { t += &format!(r#","claim_sets":[["b","{s}"],["b"],["b","{s}"]]"#); }
            if ta { t += &format!(r#","trusted_authorities":[{{"type":"aki","values":["{s}","{s}"]}},{{"type":"openid_federation","values":["x"]}},{{"type":"{s}zz","values":["x"]}}]"#); }
            if h { t += r#","require_cryptographic_holder_binding":false"#; }
            if m { t += r#","multiple":true"#; }
            t += "}";
            all.push(t);
            want.push((cl, cs, ta, h, m, me));
        }
        let sets = choose(4);
        let w = format!(r#"{{"credentials":[{}]{}}}"#, all.join(","), match sets { 0 => String::new(), 1 => r#","credential_sets":[{"options":[["q"]]}]"#.into(), 2 => format!(r#","credential_sets":[{{"options":[["q","{s}"],["{s}"],["{s}","q"]]}},{{"options":[["q"]],"required":true}},{{"options":[["q"]],"required":false}}]"#), _ => format!(r#","credential_sets":[{{"options":[["q","{s}","q"],[]],"required":false}}]"#) });
        let Some(q) = parse(&w) else { check(false, "a well-formed query was not read"); return };
        cover("read");
        check(q.credentials().len() == n, "another number of credentials was read");
        for (i, c) in q.credentials().iter().enumerate() {
            let (cl, cs, ta, h, m, me) = want[i];
            check(eq(c.id(), if i == 1 { s.as_str() } else { "q" }) && (*c.format() == ClaimFormatDesignation::MsoMDoc) == (i == 0), "a credential was changed");
            check(c.claims().map_or(0, |l| l.len()) == if cl { 3 } else { 0 } && c.claim_sets().map_or(0, |l| l.len()) == if cs { 3 } else { 0 } && c.trusted_authorities().map_or(0, |l| l.len()) == if ta { 3 } else { 0 } && c.meta().len() == if me { 2 } else { 0 }, "a part of a credential was lost, or appeared from nowhere");
            check(c.require_cryptographic_holder_binding() != h && c.multiple() == m, "a switch of a credential is not as asked, or not as by default");
            if let Some(l) = c.claims() { check(l[0].path().len() == 3 && l[0].intent_to_retain().is_none() && l[0].id().is_none() && l[0].values().is_none() && l[1].intent_to_retain() == Some(false) && l[1].values().map_or(0, |v| v.len()) == 3 && same(l[1].id().map(|x| x.as_str()), Some("b")), "a claim was changed"); }
        }
        let req: &[bool] = match sets { 0 => &[], 1 => &[true], 2 => &[true, true, false], _ => &[false] };
        check(q.credential_sets().map_or(0, |l| l.len()) == req.len() && q.credential_sets().map_or(true, |l| l.iter().zip(req).all(|(a, b)| a.is_required() == *b)), "a credential set is not required by default, or not as asked");
        written(&q, &w);
    }
    // near misses of the names, which are other members
    c18_names {
        let kind = choose(5);
        cover("another name");
        if kind == 0 {
        let (n, v) = pick(&[("claims", r#"[{"path":["a"]}]"#), ("claim_sets", r#"[["a"]]"#), ("trusted_authorities", r#"[{"type":"aki","values":["x"]}]"#), ("require_cryptographic_holder_binding", "false"), ("multiple", "true")]);
        let k = match choose(6) { 4 => { let mut s = String::new(); let mut up = false; for c in n.chars() { if c == '_' { up = true } else { s.push(if up { c.to_ascii_uppercase() } else { c }); up = false; } } s } 5 => n.replace('_', "-"), 0 => n.to_uppercase(), 1 => n.replace('_', ""), 2 => format!("{n}s"), _ => n[..n.len() - 1].to_string() };
        assume(k != n);
        let q = parse(&one(&format!(r#","{k}":{v}"#)));
        check(q.map_or(true, |q| q == parse(&one("")).unwrap()), "a member of another name is read as one of the query's");
        } else if kind == 1 {
        let cl = |m: &str| parse(&one(&format!(r#","claims":[{{"path":["a"]{m}}}]"#)));
        let m = pick(&[r#","intentToRetain":true"#, r#","intent-to-retain":true"#, r#","intenttoretain":true"#, r#","retain":true"#, r#","Id":"x""#, r#","ID":"x""#, r#","value":["x"]"#, r#","Values":["x"]"#, r#","claim_id":"x""#]);
        check(cl(m).map_or(true, |q| q == cl("").unwrap()), "a member of another name is read as one of the claim's");
        } else if kind == 2 {
        let st = |m: &str| parse(&format!(r#"{{"credentials":[{{"id":"q","format":"f","meta":{{}}}}],"credential_sets":[{{"options":[["q"]]{m}}}]}}"#));
        let m = pick(&[r#","Required":false"#, r#","require":false"#, r#","is_required":false"#, r#","optional":true"#]);
        check(st(m).map_or(true, |q| q == st("").unwrap()), "a member of another name is read as one of the credential set's");
        } else if kind == 3 {
        let top = pick(&["credentialSets", "credential-sets", "credential_set", "CREDENTIAL_SETS", "credentialsets"]);
        check(parse(&format!(r#"{{"credentials":[{{"id":"q","format":"f","meta":{{}}}}],"{top}":[{{"options":[["q"]]}}]}}"#)).map_or(true, |q| q == parse(&one("")).unwrap()), "a member of another name is read as one of the query's");
        } else {
        let bad = pick(&[r#"{"Credentials":[{"id":"q","format":"f","meta":{}}]}"#, r#"{"credentials":[{"Id":"q","format":"f","meta":{}}]}"#, r#"{"credentials":[{"id":"q","fmt":"f","meta":{}}]}"#, r#"{"credentials":[{"id":"q","format":"f","claims":[{"paths":["a"]}]}]}"#, r#"{"credentials":[{"id":"q","format":"f","trusted_authorities":[{"type":"aki","value":["x"]}]}]}"#, r#"{"credentials":[{"id":"q","format":"f","trusted_authorities":[{"authority_type":"aki","values":["x"]}]}]}"#, r#"{"credentials":[{"id":"q","format":"f"}],"credential_sets":[{"option":[["q"]]}]}"#]);
        check(parse(bad).is_none(), "a query that lacks something required, or has an empty list where none may be, was read");
        }
    }
    // long texts, and characters beyond ASCII or to be escaped
    c18_texts {
        let kind = choose(5);
        let t = match kind { 4 => pick(&["null", "undefined", "None", "true", "0", "-1", "1e3", "{}", "[]", "*", "$", ".", "..", "/", "a.b", "$.a", "a/b", "%20", " ", "~1"]).to_string(), 0 => beyond(), 1 => format!("{}{}", filler(pick(&[300, bound(3000, 20000)])), string(1, CH)), 2 => crate::fx::any(), _ => String::new() };
        let k = choose(5);
        // (texts read into an open set of types are compared with each name of it: fewer of them)
        if k == 3 && kind == 2 && t.len() > 1 { assume(false); }
        let w = match k {
            0 => format!(r#"{{"credentials":[{{"id":"{t}","format":"f","meta":{{}}}}]}}"#),
            1 => format!(r#"{{"credentials":[{{"id":"q","format":"_{t}","meta":{{}}}}]}}"#),
            2 => one(&format!(r#","claims":[{{"id":"{t}","path":["{t}","b"],"values":["{t}"]}}],"claim_sets":[["{t}"]]"#)),
            3 => one(&format!(r#","trusted_authorities":[{{"type":"_{t}","values":["{t}"]}}]"#)),
            _ => format!(r#"{{"credentials":[{{"id":"q","format":"f","meta":{{"k":"{t}"}}}}],"credential_sets":[{{"options":[["{t}"]]}}]}}"#),
        };
        let Some(q) = parse(&w) else { check(false, "a well-formed query was not read"); return };
        cover("read");
        if let Some(l) = q.credentials()[0].claims() { check(same(l[0].namespace(), Some(t.as_str())) && same(l[0].element_identifier(), Some("b")) && same(l[0].claim_name(), Some("b")), "the names in a path were changed"); }
        written(&q, &w);
    }
}
