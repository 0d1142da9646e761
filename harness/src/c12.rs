//! Authorization requests survive their URL, and only the wallet's endpoint is served.
use crate::c11::{form, text, value};
use crate::fx::*;
use crate::vsym::*;
use openid4vp::core::authorization_request::{AuthorizationRequest, RequestIndirection};
use openid4vp::wallet::Wallet;
use url::Url;

const ENDPOINTS: &[&str] = &["openid4vp://", "https://w.example/authorize", "haip:", "https://w.example:8443/a/b", "openid4vp://cb/x"];
fn endpoint() -> Url { pick(ENDPOINTS).parse().unwrap() }
fn there_and_back(a: AuthorizationRequest) -> Option<(AuthorizationRequest, Vec<(Vec<u8>, Vec<u8>)>)> {
    let e = endpoint();
    let u = match a.to_url(e.clone()) { Ok(u) => u, Err(_) => { check(false, "a request has no URL"); return None } };
    let (s, es) = (u.as_str(), e.as_str());
    check(s.len() > es.len() && eq(&s[..es.len()], es) && s.as_bytes()[es.len()] == b'?', "the URL is not the endpoint with the request as its query");
    check(s.len() == es.len() + 1 + u.query().map_or(0, |q| q.len()), "the URL is more than the endpoint with the request as its query");
    let f = form(u.query().unwrap_or(""));
    let r = AuthorizationRequest::from_url(u.clone(), &e);
    outcome(&r);
    let q = AuthorizationRequest::from_query_params(u.query().unwrap_or(""));
    match (r, q) {
        (Ok(r), Ok(q)) => {
            check(match (&r.client_id, &q.client_id) { (Some(a), Some(b)) => eq(a, b), (None, None) => true, _ => false }, "the URL and its query are read differently");
            Some((r, f))
        }
        _ => { check(false, "a request cannot be read back from its URL"); None }
    }
}
fn same_id(a: &Option<String>, b: &Option<String>) { check(match (a, b) { (Some(a), Some(b)) => eq(a, b), (None, None) => true, _ => false }, "the client identifier was changed on the way"); }
fn wire(f: &[(Vec<u8>, Vec<u8>)], id: &Option<String>, k: &str, v: &str) {
    let n = id.is_some() as usize;
    check(f.len() == n + 1, "the query has other parameters than the request");
    if f.len() != n + 1 { return; }
    if let Some(id) = id { check(value(f, "client_id").map_or(false, |x| eq(x, id)), "the query does not carry the client identifier"); }
    check(value(f, k).map_or(false, |x| eq(x, v)), "the query does not carry the request as given");
}
fn read(q: &str) -> Option<AuthorizationRequest> {
    let r = AuthorizationRequest::from_query_params(q);
    outcome(&r);
    r.ok()
}
crate::entries! {
    c12_value {
        let k = choose(5);
        let t = if k == 4 { word().to_string() } else { text(bound(1, 2)) };
        let id = match k { 4 => Some("c".to_string()), 0 => None, 1 => Some("x509_san_dns:v.example".to_string()), 2 => Some(String::new()), _ => Some(string(1, "a&=+% :#?")) };
        let Some((r, f)) = there_and_back(AuthorizationRequest { client_id: id.clone(), request_indirection: RequestIndirection::ByValue { request: t.clone() } }) else { return };
        cover("by value");
        wire(&f, &id, "request", &t);
        same_id(&r.client_id, &id);
        match r.request_indirection { RequestIndirection::ByValue { request } => check(eq(&request, &t), "the request token was changed on the way"), _ => check(false, "a request by value is read as something else") }
    }
    c12_client {
        let id = if flag() { word().to_string() } else { text(bound(1, 2)) };
        let by_ref = flag();
        let ind = if by_ref { RequestIndirection::ByReference { request_uri: "https://v.example/r?a=b&c".parse().unwrap() } } else { RequestIndirection::ByValue { request: "a.b.c".into() } };
        let Some((r, f)) = there_and_back(AuthorizationRequest { client_id: Some(id.clone()), request_indirection: ind.clone() }) else { return };
        cover("client");
        let want = Some(id);
        wire(&f, &want, if by_ref { "request_uri" } else { "request" }, if by_ref { "https://v.example/r?a=b&c" } else { "a.b.c" });
        same_id(&r.client_id, &want);
        check(r.request_indirection == ind, "the request was changed on the way");
    }
    c12_reference {
        let p = string(bound(2, 3), "ab1-_.~%&=+?#/");
        let Ok(uri) = format!("https://v.example:8443/x{p}").parse::<Url>() else { return };
        let id = if flag() { Some("c".to_string()) } else { None };
        let s = uri.to_string();
        let Some((r, f)) = there_and_back(AuthorizationRequest { client_id: id.clone(), request_indirection: RequestIndirection::ByReference { request_uri: uri } }) else { return };
        cover("by reference");
        wire(&f, &id, "request_uri", &s);
        same_id(&r.client_id, &id);
        match r.request_indirection { RequestIndirection::ByReference { request_uri } => check(eq(request_uri.as_str(), &s), "the request URI was changed on the way"), _ => check(false, "a request by reference is read as something else") }
    }
    c12_direct {
        let v = text(bound(1, 2));
        let id = if flag() { Some("c".to_string()) } else { None };
        let k = pick(&["state", "nonce", "x y"]);
        let mut o = obj(r#"{"response_type":"vp_token"}"#);
        let _ = &mut o;
        let o = { let mut m: serde_json::Map<String, serde_json::Value> = serde_json::Map::new(); m.insert(k.into(), v.clone().into()); m.insert("response_type".into(), "vp_token".into()); serde_json::from_value(serde_json::Value::Object(m)).unwrap() };
        let Some((r, f)) = there_and_back(AuthorizationRequest { client_id: id.clone(), request_indirection: RequestIndirection::Direct(o) }) else { return };
        cover("direct");
        check(f.len() == 2 + id.is_some() as usize, "the query has other parameters than the request");
        same_id(&r.client_id, &id);
        match r.request_indirection {
            RequestIndirection::Direct(o) => {
                let j: serde_json::Value = o.into();
                let m = j.as_object().unwrap();
                check(m.len() == 2 && m.get("response_type").and_then(|x| x.as_str()) == Some("vp_token"), "the parameters were changed on the way");
                check(m.get(k).and_then(|x| x.as_str()).map_or(false, |x| eq(x, &v)), "a parameter was changed on the way");
            }
            _ => check(false, "an unwrapped request is read as something else"),
        }
    }
    // parameters in any order, with others among them
    c12_order {
        let t = string(2, "abc-");
        let mut l = vec![format!("request={t}"), "client_id=c%3Ad".to_string(), "x=y".into()];
        let i = choose(3); l.swap(0, i);
        let j = 1 + choose(2); l.swap(1, j);
        let by_ref = flag();
        if by_ref { for x in l.iter_mut() { if x.starts_with("request=") { *x = format!("request_uri=https%3A%2F%2Fv.example%2F{t}"); } } }
        let r = read(&l.join("&"));
        cover("order");
        let Some(r) = r else { check(false, "a request cannot be read in this order of parameters"); return };
        check(r.client_id.as_deref() == Some("c:d"), "the client identifier depends on the order of parameters");
        match r.request_indirection {
            RequestIndirection::ByValue { request } => check(!by_ref && eq(&request, &t), "the request token depends on the order of parameters"),
            RequestIndirection::ByReference { request_uri } => check(by_ref && eq(request_uri.as_str(), format!("https://v.example/{}", t)), "the reference depends on the order of parameters"),
            _ => check(false, "the request is lost in this order of parameters"),
        }
    }
    // a parameter counts under its own name only
    c12_names {
        let k = pick(&["request", "request_uri", "client_id"]);
        let c = string(1, "?;!#$/:@[] +Ra_-.");
        let n = match choose(3) { 0 => format!("{c}{k}"), 1 => format!("{k}{c}"), _ => format!("{}{}", k[..1].to_uppercase(), &k[1..]) };
        let rest = if k == "client_id" { "request=a.b.c" } else { "client_id=c" };
        let q = format!("{n}=https%3A%2F%2Fv.example%2F");
        let r = read(&if flag() { format!("{q}&{rest}") } else { format!("{rest}&{q}") });
        cover("another name");
        let Some(r) = r else { check(false, "a request with another parameter cannot be read"); return };
        if k == "client_id" { check(r.client_id.is_none(), "a parameter of another name was taken for the client identifier"); } else { check(matches!(r.request_indirection, RequestIndirection::Direct(_)), "a parameter of another name was taken for the request"); }
    }
    // authority and path have to be the endpoint's
    c12_endpoint {
        let base = pick(&["w.example", "w.example:8443", "u@w.example", ""]);
        let (sch, dflt) = if base.is_empty() { ("openid4vp", "") } else { ("https", "/") };
        let p = string(choose(bound(3, 5)), "ab/");
        let q = string(choose(bound(3, 5)), "aAb/");
        let sl = if base.is_empty() && flag() { "" } else { "/" };
        let e: Url = format!("{sch}://{base}{sl}{p}").parse().unwrap();
        let h = pick(&["w.example", "W.EXAMPLE", "w.example:8443", "w.example:443", "u@w.example", "x.example", "w.example.x", "w.example@x.example", ""]);
        let Ok(u) = format!("{sch}://{h}{sl}{q}?client_id=c&request=t").parse::<Url>() else { return };
        let r = AuthorizationRequest::from_url(u.clone(), &e);
        outcome(&r);
        // own reading of the two URLs
        let host = match h { "W.EXAMPLE" | "w.example:443" => if sch == "https" { "w.example" } else { h }, h => h };
        let norm = |s: &str| if s.is_empty() && !sl.is_empty() { "/".to_string() } else if sl.is_empty() { s.to_string() } else { format!("/{s}") };
        let _ = dflt;
        if base.is_empty() && (sl.is_empty() || !h.is_empty()) && h != base { cover("another place"); check(r.is_err(), "a request sent to another place than the wallet's endpoint was read"); return; }
        if sl.is_empty() { return; }
        let want = host == base && eq(norm(&p), norm(&q));
        cover(if want { "the wallet's endpoint" } else { "another place" });
        check(r.is_ok() == want, if want { "a request sent to the wallet's endpoint was not read" } else { "a request sent to another place than the wallet's endpoint was read" });
    }
    // through the wallet: the endpoint of its metadata, and nothing happens for others
    c12_wallet {
        let e = pick(&["openid4vp:", "https://w.example/authorize", "openid4vp://cb/x", "https://w.example/a/b%2Fc", "https://w.example/a/b"]);
        let o = pick(&["openid4vp:", "https://w.example/authorize", "openid4vp://cb/x", "https://w.example/authorise", "https://x.example/authorize", "openid4vp://cb/x/", "openid4vp://cb", "https://w.example", "openid4vp:x", "openid4vp:/x", "openid4vp:///x", "openid4vp:authorize", "https://w.example/a/b%2Fc", "https://w.example/a/b/c", "https://w.example/a%2Fb", "https://w.example/a/b", "https://w.example/a/b%2fc", "https://w.example/a//b", "https://w.example/a/b;v=1", "https://w.example/a/b/", "https://w.example/a/%62", "https://w.example/A/b", "https://w.example:8443/a/b", "https://w.example./a/b", "https://www.w.example/a/b", "https://w.example/a/b.html"]);
        let t = jwt(HDR, &format!(r#"{{"client_id":"c{}","nonce":"n","response_mode":"direct_post","response_type":"vp_token","response_uri":"https://v/r"}}"#, string(1, "ab")), "c2ln");
        let by_ref = flag();
        let mut u: Url = o.parse().unwrap();
        u.set_query(Some(&if by_ref { "request_uri=https%3A%2F%2Fv.example%2Fro".to_string() } else { format!("request={t}") }));
        let md = obj(&format!(r#"{{"authorization_endpoint":"{e}","vp_formats_supported":{{}}}}"#)).try_into().unwrap();
        let w = W::new(md, Http::answering(200, t.into_bytes()), true);
        let r = block_on(w.validate_request(u));
        outcome(&r);
        let want = e == o;
        cover(if want { "served" } else { "not served" });
        check(r.is_ok() == want, if want { "the wallet rejected a request sent to its endpoint" } else { "the wallet accepted a request sent to another endpoint" });
        check((w.calls.0.borrow().len() == 1) == want && (w.http.log.0.borrow().len() == (want && by_ref) as usize), "the wallet acted on a request sent to another endpoint");
    }
    // a URL without query is no request, whatever else it holds
    c12_empty {
        let mut e = endpoint();
        let u = e.clone();
        match choose(4) { 0 => (), 1 => e.set_fragment(Some("client_id=c&request=a.b.c")), 2 => e.set_fragment(Some("?client_id=c&request_uri=https://v.example/r")), _ => e.set_fragment(Some(&format!("request={}", string(2, "abc-")))) };
        let r = AuthorizationRequest::from_url(e, &u);
        outcome(&r);
        cover("no query");
        check(r.is_err(), "a URL without query was read as a request");
    }
    // a fragment is no part of the request
    c12_fragment {
        let e = endpoint();
        let mut u = e.clone();
        let t = string(2, "abc-");
        u.set_query(Some(&format!("client_id=c&request={t}")));
        u.set_fragment(Some(pick(&["client_id=evil&request=x.y.z", "?request=x.y.z", "&request_uri=https://evil.example", ""])));
        let r = AuthorizationRequest::from_url(u, &e);
        outcome(&r);
        cover("fragment");
        check(r.map_or(false, |r| r.client_id.as_deref() == Some("c") && matches!(r.request_indirection, RequestIndirection::ByValue { request } if eq(&request, &t))), "the fragment of the URL is read as a part of the request");
    }
    // long texts, and characters beyond ASCII, anywhere
    c12_long {
        let n = pick(&[40, 300, bound(1100, 9000)]);
        let t = match choose(3) { 0 => format!("{}{}{}", filler(n), string(1, "a&=+% .~"), filler(n)), 1 => format!("{}{}", filler(n), beyond_few()), _ => format!("{}{}", filler(n), string(2, "aA0-_.")) };
        let (mut id, mut ind) = (Some("x509_san_dns:v.example".to_string()), RequestIndirection::ByValue { request: "a.b.c".into() });
        let w = choose(3);
        match w {
            0 => id = Some(t.clone()),
            1 => ind = RequestIndirection::ByValue { request: t.clone() },
            _ => ind = RequestIndirection::Direct({ let mut m: serde_json::Map<String, serde_json::Value> = serde_json::Map::new(); m.insert("state".into(), t.clone().into()); serde_json::from_value(serde_json::Value::Object(m)).unwrap() }),
        }
        let Some((r, f)) = there_and_back(AuthorizationRequest { client_id: id.clone(), request_indirection: ind }) else { return };
        cover("long");
        same_id(&r.client_id, &id);
        match r.request_indirection {
            RequestIndirection::ByValue { request } => { check(w < 2 && eq(&request, if w == 1 { t.as_str() } else { "a.b.c" }), "the request token was changed on the way"); wire(&f, &id, "request", &request); }
            RequestIndirection::Direct(o) => { let j: serde_json::Value = o.into(); check(w == 2 && j.as_object().map_or(false, |m| m.len() == 1 && m.get("state").and_then(|x| x.as_str()).map_or(false, |x| eq(x, &t))), "a parameter was changed on the way"); }
            _ => check(false, "the request is read as something else"),
        }
    }
    // many parameters at once, and values that look like other things
    c12_many {
        let vals = ["", "null", "123", "true", "{}", "[1]", " a ", "\"q\"", "a=b&c=d", "%41", "+", "openid4vp://x?request=y"];
        let n = 1 + choose(6);
        let r0 = choose(vals.len());
        let mut m: serde_json::Map<String, serde_json::Value> = serde_json::Map::new();
        let keys = ["a", "nonce", "redirect_uri", "response_type", "scope", "state"];
        for i in 0..n { m.insert(keys[i].into(), vals[(i * 5 + r0) % vals.len()].into()); }
        let want = serde_json::Value::Object(m.clone());
        let id = if flag() { Some("c".to_string()) } else { None };
        let Some((r, f)) = there_and_back(AuthorizationRequest { client_id: id.clone(), request_indirection: RequestIndirection::Direct(serde_json::from_value(serde_json::Value::Object(m)).unwrap()) }) else { return };
        cover("many");
        check(f.len() == n + id.is_some() as usize, "the query has other parameters than the request");
        same_id(&r.client_id, &id);
        match r.request_indirection { RequestIndirection::Direct(o) => check(serde_json::Value::from(o) == want, "a parameter was changed on the way"), _ => check(false, "an unwrapped request is read as something else") }
    }
    // near misses of the endpoint
    c12_near {
        let (e, parts): (&str, [&str; 3]) = pick(&[("https://w.example/authorize", ["https://", "w.example", "/authorize"]), ("openid4vp://cb/x", ["openid4vp://", "cb", "/x"])]);
        let h = choose(2) == 0;
        let c = string(1, "abcdefghijklmnopqrstuvwxyz0123456789-");
        let t = parts[if h { 1 } else { 2 }];
        let i = choose(t.len() + 1).max(if h { 0 } else { 1 });
        let n = if flag() || i == t.len() { format!("{}{c}{}", &t[..i], &t[i..]) } else { format!("{}{c}{}", &t[..i], &t[i + 1..]) };
        let Ok(u) = (if h { format!("{}{n}{}", parts[0], parts[2]) } else { format!("{}{}{n}", parts[0], parts[1]) } + "?client_id=c&request=t").parse::<Url>() else { return };
        let r = AuthorizationRequest::from_url(u, &e.parse().unwrap());
        outcome(&r);
        let want = eq(&n, t);
        cover(if want { "the wallet's endpoint" } else { "another place" });
        check(r.is_ok() == want, if want { "a request sent to the wallet's endpoint was not read" } else { "a request sent to another place than the wallet's endpoint was read" });
    }
}
