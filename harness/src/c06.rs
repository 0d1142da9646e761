//! What makes a request object well-formed, and where its response goes.
use crate::fx::*;
use crate::vsym::*;
use openid4vp::core::authorization_request::parameters::{ClientMetadata, ResponseMode, ResponseType};
use openid4vp::core::credential_format::ClaimFormatPayload;
use openid4vp::core::metadata::parameters::verifier::VpFormats;
use openid4vp::core::authorization_request::AuthorizationRequestObject;
use openid4vp::core::object::UntypedObject;

fn parse(s: &str) -> anyhow::Result<AuthorizationRequestObject> {
    let r = AuthorizationRequestObject::try_from(obj(s));
    outcome(&r);
    r
}
fn parse_both(s: &str) -> anyhow::Result<AuthorizationRequestObject> {
    let r = parse(s);
    // reading the same text through serde gives the same verdict
    let q = serde_json::from_str::<AuthorizationRequestObject>(s);
    check(q.is_ok() == r.is_ok(), "the two ways to read a request object disagree");
    r
}
const URLCH: &str = "abcxyz0189-_~";
#[derive(Clone, Copy, PartialEq)]
enum Uri { Absent, Good, Bad, NotText, Null, Empty }
fn uri(name: &str, k: Uri, path: &str) -> String {
    match k {
        Uri::Absent => String::new(),
        Uri::Good => format!(r#","{name}":"https://v.example/{path}""#),
        Uri::Bad => format!(r#","{name}":"//{path}""#),
        Uri::Null => format!(r#","{name}":null"#),
        Uri::Empty => format!(r#","{name}":"""#),
        Uri::NotText => format!(r#","{name}":["https://v.example/{path}"]"#),
    }
}
fn kind() -> Uri { pick(&[Uri::Absent, Uri::Good, Uri::Bad, Uri::NotText, Uri::Null, Uri::Empty]) }
fn matrix(mode: Option<&str>, direct: bool, dc: bool) {
    let (kr, ks) = (kind(), kind());
    let (pr, ps) = (string(bound(3, 8), URLCH), string(bound(3, 8), URLCH));
    let m = mode.map_or(String::new(), |m| format!(r#","response_mode":"{m}""#));
    let r = parse_both(&format!(r#"{{"nonce":"n","response_type":"vp_token"{m}{}{}}}"#, uri("redirect_uri", kr, &pr), uri("response_uri", ks, &ps)));
    let want = if direct { kr == Uri::Absent && ks == Uri::Good } else if dc { kr == Uri::Absent && ks == Uri::Absent } else { false };
    cover(if want { "well-formed" } else { "ill-formed" });
    check(r.is_ok() == want, if want { "a well-formed request object was rejected" } else { "a request object whose response target does not fit its response mode was accepted" });
    if let Ok(o) = &r {
        if direct { check(eq(o.return_uri().as_str(), format!("https://v.example/{ps}")), "the response goes elsewhere than the response_uri"); }
        check(eq(o.response_mode().to_string(), mode.unwrap_or("direct_post")), "the request object reports another response mode");
    }
}
crate::entries! {
    // the four modes and the default, against every combination of the two target parameters
    c06_targets {
        match choose(5) {
            0 => matrix(None, true, false),
            1 => matrix(Some("direct_post"), true, false),
            2 => matrix(Some("direct_post.jwt"), true, false),
            3 => matrix(Some("dc_api"), false, true),
            _ => matrix(Some("dc_api.jwt"), false, true),
        }
    }
    // targets of any shape: taken as the URL they are, query, fragment, port and all, or refused
    c06_uri {
        let c = string(bound(1, 2), "aZ0-._~");
        let u = match choose(3) {
            0 => format!("https://v.example{}{c}{}", pick(&["/", ":8443/a?x=", "/#", "/a/?b=c&d=", "?", "/a;b=c/"]), pick(&["", "#f", "?y", "/", "%2F%20+", "#!/a?b"])),
            1 => format!("{}{c}", pick(&["http://u:p@h/", "https://[::1]/", "https://127.0.0.1:80/", "openid4vp://x/", "eudi:", "https://xn--bcher-kva.example/", "HTTPS://V.Example/A/", "ftp://h/"])),
            _ => format!("{}{c}", pick(&["", "/", "v.example/", "https:", "://", "https//", "1https://", "?", "#", "https://v.example:x"])),
        };
        let m = pick(&["", r#""response_mode":"direct_post","#, r#""response_mode":"direct_post.jwt","#]);
        let r = parse_both(&format!(r#"{{{m}"nonce":"n","response_type":"vp_token","response_uri":"{u}"}}"#));
        match url::Url::parse(&u) {
            Ok(want) => {
                cover("a target");
                check(r.is_ok(), "a well-formed request object was rejected");
                if let Ok(o) = &r {
                    check(eq(o.return_uri().as_str(), want.as_str()), "the response goes elsewhere than the response_uri");
                    check(eq(serde_json::to_value(o).unwrap()["response_uri"].as_str().unwrap_or(""), &u), "writing a request object changes its response_uri");
                }
            }
            Err(_) => { cover("no target"); check(r.is_err(), "a request object whose response_uri is not a URL was accepted"); }
        }
    }
    // texts that JSON writes with escapes, and long ones, are kept as well
    c06_text {
        let t = |k: usize| match k { 0 => string(bound(1, 2), "\"\\/\n\t\x00\x1f\x7fa "), 1 => format!("x{}", beyond()), 2 => format!("{}{}", filler(600), string(1, IDCHARS)), 3 => String::new(), _ => word().to_string() };
        let k = choose(6);
        let w = t(k);
        let (n, st, id) = match k { 4 => (w.clone(), w, String::new()), 5 => (String::new(), w.clone(), w), _ => (w, t((k + 1) % 4), t((k + 2) % 4)) };
        let mut m = serde_json::Map::new();
        for (k, v) in [("nonce", &n), ("state", &st), ("client_id", &id), ("response_type", &"vp_token".to_string()), ("response_mode", &"dc_api".to_string()), ("extra", &n)] { m.insert(k.into(), serde_json::Value::String(v.clone())); }
        m.insert("expected_origins".into(), serde_json::json!([1, -2.5, null, true, {"a": {}}, []]));
        let want = serde_json::Value::Object(m.clone());
        let r = AuthorizationRequestObject::try_from(serde_json::from_value::<UntypedObject>(serde_json::Value::Object(m)).unwrap());
        check(r.is_ok(), "a well-formed request object was rejected");
        let Ok(o) = r else { return };
        cover("kept");
        check(eq(o.nonce().as_bytes(), &n), "the nonce is not the one sent");
        check(o.state().map_or(false, |x| x.map_or(false, |x| eq(&x.0, &st))), "the state is not the one sent");
        check(o.client_id().map_or(false, |x| eq(&x.0, &id)), "the client identifier is not the one sent");
        check(serde_json::to_value(&o).map_or(false, |v| same_json(&v, &want)), "writing a request object does not give back what was read");
    }
    // whatever else stands beside them, the parameters are the ones sent under their own names, and absent ones are absent
    c06_every {
        let dc = flag();
        let t = if dc { r#""response_mode":"dc_api","# } else { r#""response_uri":"https://v.example/r","# };
        let text = format!(r#"{{{t}"response_type":"vp_token","nonce":"n",{EVERY}}}"#);
        let r = parse_both(&text);
        check(r.is_ok(), "a well-formed request object was rejected");
        let Ok(o) = r else { return };
        cover("everything beside");
        check(o.client_id().is_none() && o.client_id_scheme().is_none(), "a client identifier appeared from nowhere");
        check(o.dcql_query().is_none() && o.client_metadata().is_err(), "a query or metadata appeared from nowhere");
        check(o.nonce().as_bytes() == b"n" && matches!(o.state(), Some(Ok(s)) if s.0 == "s"), "the nonce or the state is not the one sent");
        check(*o.response_mode() == if dc { ResponseMode::DcApi } else { ResponseMode::DirectPost } && o.is_id_token_requested() == Some(false), "the response mode or type is not the one sent");
        check(serde_json::to_value(&o).map_or(false, |v| v == json(&text)), "writing a request object does not give back what was read");
    }
    // any response_mode text
    c06_mode {
        let n = if thorough() { choose(40) } else { choose(25) };
        let m = string(n, IDCHARS);
        let dc = flag();
        let t = if dc { "" } else { r#","response_uri":"https://v.example/r""# };
        let r = parse(&format!(r#"{{"nonce":"n","response_type":"vp_token","response_mode":"{m}"{t}}}"#));
        let is = |x: &str| eq(&m, x);
        let want = if dc { is("dc_api") | is("dc_api.jwt") } else { is("direct_post") | is("direct_post.jwt") };
        cover(if want { "supported" } else { "unsupported" });
        check(r.is_ok() == want, if want { "a supported response mode was rejected" } else { "an unsupported response mode was accepted" });
        if let Ok(o) = &r {
            let jarm = o.response_mode().is_jarm();
            check(jarm.map_or(false, |j| j == (is("dc_api.jwt") | is("direct_post.jwt"))), "the encryption requirement of the response mode is wrong");
            let want = if is("direct_post") { ResponseMode::DirectPost } else if is("direct_post.jwt") { ResponseMode::DirectPostJwt } else if is("dc_api") { ResponseMode::DcApi } else { ResponseMode::DcApiJwt };
            check(*o.response_mode() == want, "the request object reports another response mode");
        }
    }
    // texts of any length in one place, whatever the place
    c06_any {
        let t = any();
        let at = choose(4);
        let v = |k: usize, d: &str| if at == k { t.clone() } else { d.to_string() };
        let (n, st, id, ty) = (v(0, "n"), v(1, "s"), v(2, "c"), v(3, "vp_token"));
        let r = parse(&format!(r#"{{"response_uri":"https://v.example/r","nonce":"{n}","state":"{st}","client_id":"{id}","response_type":"{ty}"}}"#));
        check(r.is_ok(), "a well-formed request object was rejected");
        let Ok(o) = r else { return };
        cover("kept");
        check(eq(o.nonce().as_bytes(), &n), "the nonce is not the one sent");
        check(o.state().map_or(false, |x| x.map_or(false, |x| eq(&x.0, &st))), "the state is not the one sent");
        check(o.client_id().map_or(false, |x| eq(&x.0, &id)), "the client identifier is not the one sent");
        let (vp, both) = (ty == "vp_token", ty == "vp_token id_token");
        check(o.is_id_token_requested() == if vp { Some(false) } else if both { Some(true) } else { None }, "whether an ID token is requested is wrong");
        check(match o.response_type() { ResponseType::VpToken => vp, ResponseType::VpTokenIdToken => both, ResponseType::Unsupported(s) => !vp && !both && eq(s, &ty) }, "the response type is not the one sent");
        check(eq(o.return_uri().as_str(), "https://v.example/r") && *o.response_mode() == ResponseMode::DirectPost, "the response goes elsewhere than the response_uri");
    }
    // response_mode that is not text
    c06_mode_not_text {
        let m = pick(&["null", "7", r#"["direct_post"]"#, r#"{"direct_post":"direct_post"}"#, "true"]);
        let t = if flag() { "" } else { r#","response_uri":"https://v.example/r""# };
        let r = parse_both(&format!(r#"{{"nonce":"n","response_type":"vp_token","response_mode":{m}{t}}}"#));
        cover("not text");
        check(r.is_err(), "a response mode that is not text was accepted");
    }
    // optional parameters that are not text are there, and unreadable
    c06_not_text {
        let v = pick(&["null", "7", "-1.5", "true", r#"["s"]"#, r#"{"s":"s"}"#]);
        let k = choose(3);
        let r = parse_both(&format!(r#"{{"nonce":"n","response_mode":"dc_api","response_type":"vp_token","{}":{v}}}"#, ["state", "client_id", "dcql_query"][k]));
        let Ok(o) = r else { check(k == 1, "a well-formed request object was rejected"); cover("rejected"); return };
        cover("not text");
        match k { 0 => check(matches!(o.state(), Some(Err(_))), "a state that is not text was read"), 1 => check(o.client_id().is_none(), "a client identifier that is not text was read"), _ => check(matches!(o.dcql_query(), Some(Err(_))), "a query that is none was read") }
    }
    // nonce, response_type, state: required or not, and kept as sent
    c06_fields {
        let nonce = string(choose(bound(4, 8)), IDCHARS);
        let n = match choose(4) { 0 => None, 1 => Some("7".to_string()), 2 => Some(r#"["n"]"#.into()), _ => Some(format!(r#""{nonce}""#)) };
        let good_nonce = n.as_ref().map_or(false, |x| x.starts_with('"'));
        let tlen = pick(&[0, 7, 8, 9, 16, 17, 18]);
        let ty = string(tlen, IDCHARS);
        let t = match choose(3) { 0 => None, 1 => Some("null".to_string()), _ => Some(format!(r#""{ty}""#)) };
        let good_type = t.as_ref().map_or(false, |x| x.starts_with('"'));
        let dc = flag();
        let m = if dc { r#""response_mode":"dc_api""# } else { r#""response_mode":"direct_post","response_uri":"https://v.example/r""# };
        let f = |k: &str, v: &Option<String>| v.as_ref().map_or(String::new(), |v| format!(r#","{k}":{v}"#));
        let r = parse_both(&format!("{{{m}{}{}}}", f("nonce", &n), f("response_type", &t)));
        let want = good_nonce && good_type;
        cover(if want { "complete" } else { "incomplete" });
        check(r.is_ok() == want, if want { "a complete request object was rejected" } else { "a request object without readable nonce and response type was accepted" });
        if let Ok(o) = &r {
            check(eq(o.nonce().as_bytes(), &nonce), "the nonce is not the one sent");
            let (vp, both) = (ty == "vp_token", ty == "vp_token id_token");
            check(o.is_id_token_requested() == if vp { Some(false) } else if both { Some(true) } else { None }, "whether an ID token is requested is wrong");
            check(match o.response_type() { ResponseType::VpToken => vp, ResponseType::VpTokenIdToken => both, ResponseType::Unsupported(s) => !vp && !both && eq(s, &ty) }, "the response type is not the one sent");
        }
    }
    // parameters survive reading and writing a request object unchanged
    c06_lossless {
        let s = string(bound(3, 6), IDCHARS);
        let st = string(bound(3, 6), IDCHARS);
        let text = format!(r#"{{"client_id":"c:{s}","nonce":"n","response_mode":"direct_post","response_type":"vp_token","response_uri":"https://V.example:443/a/../b","state":"{st}","x_{}":[1,{{"k":"{s}"}},null]}}"#, pick(&["a", "zz"]));
        let r = parse_both(&text);
        check(r.is_ok(), "a well-formed request object was rejected");
        let Ok(o) = r else { return };
        cover("kept");
        check(o.state().map_or(false, |x| x.map_or(false, |x| eq(&x.0, &st))), "the state is not the one sent");
        check(o.client_id().map_or(false, |x| eq(&x.0, format!("c:{s}"))), "the client identifier is not the one sent");
        check(o.client_id_scheme().map_or(false, |x| x.0 == "c"), "the client identifier prefix is not the one sent");
        check(eq(serde_json::to_string(&o).unwrap(), json(&text).to_string()), "writing a request object does not give back what was read");
        let u = UntypedObject::from(o);
        check(eq(serde_json::to_string(&u).unwrap(), json(&text).to_string()), "converting a request object does not give back what was read");
    }
    // the parts of a request object: the query, the verifier's metadata, its formats
    c06_parts {
        let s = string(bound(2, 4), IDCHARS);
        let q = format!(r#"{{"credentials":[{{"format":"mso_mdoc","id":"{s}","meta":{{"doctype_value":"d"}}}}]}}"#);
        let cq = choose(4);
        let q1 = match cq { 0 => String::new(), 1 => r#","dcql_query":{"credentials":[]}"#.into(), 2 => format!(r#","dcql_query":["{s}"]"#), _ => format!(r#","dcql_query":{q}"#) };
        let m = format!(r#"{{"client_name":"{s}","vp_formats_supported":{{"jwt_vc_json":{{"alg_values":["{s}"]}}}}}}"#);
        let cm = choose(5);
        let m1 = match cm { 0 => String::new(), 1 => r#","client_metadata":null"#.into(), 2 => format!(r#","client_metadata":{{"client_name":"{s}"}}"#), 3 => r#","client_metadata":{"vp_formats_supported":["jwt_vc_json"]}"#.into(), _ => format!(r#","client_metadata":{m}"#) };
        let r = parse_both(&format!(r#"{{"nonce":"n","response_mode":"dc_api","response_type":"vp_token","vp_formats_supported":{{"ldp_vc":{{}}}}{q1}{m1}}}"#));
        let Ok(o) = r else { check(false, "a well-formed request object was rejected"); return };
        cover("parts");
        check(match o.dcql_query() { None => cq == 0, Some(Err(_)) => cq == 1 || cq == 2, Some(Ok(d)) => cq == 3 && eq(serde_json::to_value(&d).unwrap().to_string(), json(&q).to_string()) }, "the request object reports another query than it has");
        let text = |c: &ClientMetadata| serde_json::to_string(&c.0).unwrap();
        check(match o.client_metadata() { Err(_) => cm < 2, Ok(c) => match cm { 2 => eq(text(&c), format!(r#"{{"client_name":"{s}"}}"#)), 3 => true, 4 => eq(text(&c), &m), _ => false } }, "the request object reports other metadata than it has");
        check(match ClientMetadata::resolve(&o) { Err(_) => cm == 1, Ok(c) => match cm { 0 => text(&c) == "{}", 1 => false, 2 => eq(text(&c), format!(r#"{{"client_name":"{s}"}}"#)), 3 => true, _ => eq(text(&c), &m) } }, "the verifier's metadata is taken from elsewhere than the request object");
        let right = |f: anyhow::Result<VpFormats>| match f { Err(_) => cm != 4, Ok(f) => cm == 4 && f.0.len() == 1 && matches!(f.0.get(&"jwt_vc_json".into()), Some(ClaimFormatPayload::AlgValues(l)) if l.len() == 1 && eq(&l[0], &s)) };
        check(right(o.vp_formats()) && (cm < 2 || right(o.client_metadata().unwrap().vp_formats())), "the request object reports other formats than the verifier's metadata has");
    }
}
