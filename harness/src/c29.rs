//! The bundled HTTP client hands over the request it is given and the answer that comes back, unchanged.
use crate::fx::*;
use crate::rq::{Answer, BUILDS, NEXT, SENT};
use crate::util::{AsyncHttpClient, ReqwestClient};
use crate::vsym::*;
use http::{header::HeaderName, header::HeaderValue, Extensions, HeaderMap, Method, Request, Response, StatusCode, Version};

#[derive(Clone, PartialEq)]
struct Mark(usize);
#[derive(Clone, PartialEq)]
struct Other(String);
const VERSIONS: [Version; 5] = [Version::HTTP_09, Version::HTTP_10, Version::HTTP_11, Version::HTTP_2, Version::HTTP_3];
const NAMES: [&str; 12] = ["content-type", "set-cookie", "content-length", "transfer-encoding", "location", "prefer", "connection", "host", "authorization", "x-private", "content-encoding", "accept"];
/// Header values: visible, blank and opaque bytes.
fn value(n: usize) -> HeaderValue { HeaderValue::from_bytes(&bytes(n, b"a/ ;=Z\xe9\t")).unwrap() }
fn opaque(n: usize) -> Vec<u8> { bytes(n, if thorough() { b"" } else { b"\0\na{\x7f\x80\xff\xef" }) }
fn headers(n: usize) -> HeaderMap {
    let mut h = HeaderMap::new();
    // up to n fields, some of the same name
    for i in 0..n { let k = if i > 0 && flag() { NAMES[1] } else { pick(&NAMES[..bound(4, if i == 0 { 12 } else { 5 })]) }; h.append(HeaderName::from_static(k), value(if i == 0 { choose(3) } else { 1 })); }
    h
}
/// The same fields: the same names, and per name the same values in the same order, sensitive as before.
fn same_headers(a: &HeaderMap, b: &HeaderMap) -> bool {
    a.len() == b.len() && a.keys_len() == b.keys_len() && a.keys().fold(true, |ok, k| { let (x, y): (Vec<_>, Vec<_>) = (a.get_all(k).iter().collect(), b.get_all(k).iter().collect()); ok & (x.len() == y.len()) & x.iter().zip(&y).fold(true, |ok, (x, y)| ok & eq(x, y) & (x.is_sensitive() == y.is_sensitive())) })
}
fn answer() -> Answer { Answer { status: StatusCode::OK, version: Version::HTTP_11, headers: HeaderMap::new(), extensions: Extensions::new(), pieces: vec![], broken: false } }
fn ask(r: Request<Vec<u8>>) -> anyhow::Result<Response<Vec<u8>>> { block_on(ReqwestClient::new().unwrap().execute(r)) }
fn plain() -> Request<Vec<u8>> { Request::get("https://v.example/r").body(vec![]).unwrap() }
fn marked(i: usize) -> Extensions { let mut e = Extensions::new(); if i & 1 == 1 { e.insert(Mark(i)); } if i & 2 == 2 { e.insert(Other("o".into())); } e }
fn same_marks(a: &Extensions, b: &Extensions) -> bool { a.len() == b.len() && a.get::<Mark>() == b.get::<Mark>() && a.get::<Other>() == b.get::<Other>() }
fn sent(r: Request<Vec<u8>>, url: &str) {
    let (m, v, h, b, e) = (r.method().clone(), r.version(), r.headers().clone(), r.body().clone(), r.extensions().clone());
    *NEXT.0.borrow_mut() = Some(answer());
    let out = ask(r);
    check(out.is_ok(), "a request is not sent");
    let s = SENT.0.borrow();
    check(s.len() == 1, "a request is not sent exactly once");
    let s = &s[0];
    check(s.method == m, "another method is sent");
    check(s.version == v, "another protocol version is asked for");
    check(eq(s.url.as_str(), url), "the request goes elsewhere");
    check(same_headers(&s.headers, &h), "other headers are sent");
    check(s.body.as_ref().map_or(b.is_empty(), |x| eq(x, &b)), "another body is sent");
    check(same_marks(&s.extensions, &e), "extensions of the request are lost");
    check(!s.insecure, "the client does not check who it talks to");
}
fn received(a: Answer) {
    *NEXT.0.borrow_mut() = Some(a.clone());
    let out = ask(plain());
    check(SENT.0.borrow().len() == 1, "a request is not sent exactly once");
    let Ok(r) = out else { check(a.broken, "an answer is lost"); cover("broken off"); return };
    check(!a.broken, "part of an answer passes for the whole");
    cover("answered");
    check(r.status() == a.status, "the status is another");
    check(r.version() == a.version, "the protocol version is another");
    check(same_headers(r.headers(), &a.headers), "the headers are others");
    check(same_marks(r.extensions(), &a.extensions), "the extensions are others");
    check(eq(r.body(), a.pieces.concat()), "the body is another");
}
crate::entries! {
    // what is sent: method, version, headers and body
    c29_request {
        let m = if flag() { Method::from_bytes(pick(&["GET", "POST", "HEAD", "OPTIONS", "PUT", "DELETE", "PATCH", "get", "QUERY"]).as_bytes()).unwrap() } else { Method::from_bytes(&bytes(bound(2, 4), b"GEgx!")).unwrap() };
        let mut r = plain();
        *r.method_mut() = m;
        *r.version_mut() = VERSIONS[choose(5)];
        *r.body_mut() = opaque(choose(bound(3, 5)));
        cover("sent");
        sent(r, "https://v.example/r");
    }
    c29_headers {
        let mut r = plain();
        *r.headers_mut() = headers(choose(bound(3, 3)));
        if flag() { let mut v = value(2); v.set_sensitive(true); r.headers_mut().append("authorization", v); }
        *r.extensions_mut() = marked(pick(&[0, 3]));
        *r.body_mut() = opaque(1);
        cover("sent");
        sent(r, "https://v.example/r");
    }
    // where to: the address as written, its query included
    c29_url {
        let t = string(bound(2, 3), "a/?&=%#:@.");
        let u = format!("{}{t}", pick(&["https://v.example/", "http://v.example:8080/p?q=", "https://v.example/%41?a=%2F&b=+"]));
        let Ok(uri) = u.parse::<http::Uri>() else { return };
        let Ok(want) = url::Url::parse(&uri.to_string()) else { return };
        cover("sent");
        sent(Request::get(uri).body(opaque(1)).unwrap(), want.as_str());
    }
    // a request without a place to go to is an error, and nothing is sent
    c29_nowhere {
        let u = pick(&["/r", "v.example", "*", "/", "/r?x=https://v.example/"]);
        *NEXT.0.borrow_mut() = Some(answer());
        cover("nowhere");
        check(ask(Request::get(u).body(opaque(1)).unwrap()).is_err(), "a request without a place to go to is answered");
        check(SENT.0.borrow().is_empty(), "a request is sent somewhere");
    }
    // what comes back: every status, also those of errors and redirections
    c29_status {
        // 100 to 999
        let c = choose(9);
        let Ok(status) = StatusCode::from_u16(100 + c as u16 * 100 + sym(100) as u16) else { fail("no status") };
        let pieces = vec![opaque(choose(2))];
        cover(match c { 0..=1 => "status", 2 => "redirection", _ => "error status" });
        received(Answer { status, version: VERSIONS[choose(5)], pieces, ..answer() });
    }
    c29_fields {
        let headers = headers(choose(bound(4, 4)));
        if headers.keys_len() < headers.len() { cover("repeated"); }
        let (e, status) = pick(&[(0, StatusCode::OK), (3, StatusCode::BAD_REQUEST), (1, StatusCode::FOUND)]);
        received(Answer { headers, extensions: marked(e), status, ..answer() });
    }
    // a body in pieces, of any bytes, whole or broken off
    c29_body {
        let pieces = (0..choose(bound(3, 4))).map(|_| opaque(choose(bound(3, 4)))).collect();
        let mut h = HeaderMap::new();
        if flag() { h.insert("content-type", HeaderValue::from_static(pick(&["application/json", "text/plain; charset=iso-8859-1", "application/oauth-authz-req+jwt"]))); }
        if flag() { h.insert("content-length", HeaderValue::from_static(pick(&["0", "1", "9"]))); }
        received(Answer { pieces, headers: h, broken: flag(), status: pick(&[StatusCode::OK, StatusCode::NO_CONTENT, StatusCode::NOT_FOUND]), ..answer() });
    }
    // long bodies
    c29_long {
        let mut b = filler(bound(9000, 70000)).into_bytes();
        b.extend(opaque(2));
        if flag() {
            received(Answer { pieces: if flag() { vec![b.clone(), b] } else { vec![b] }, broken: flag(), ..answer() });
        } else {
            let mut r = plain();
            *r.body_mut() = b;
            *r.method_mut() = Method::POST;
            sent(r, "https://v.example/r");
        }
    }
    // an exchange that fails is an error, after one attempt
    c29_failure {
        *NEXT.0.borrow_mut() = None;
        let mut r = plain();
        *r.method_mut() = pick(&[Method::GET, Method::POST, Method::HEAD]);
        *r.body_mut() = opaque(1);
        cover("failed");
        check(ask(r).is_err(), "a failed exchange is answered");
        check(SENT.0.borrow().len() == 1, "a request is not sent exactly once");
    }
    // no client where none can be built; one that can be built works for many requests, each answered by its own answer
    c29_client {
        if flag() { *BUILDS.0.borrow_mut() = false; cover("cannot be built"); check(ReqwestClient::new().is_err(), "a client is made of nothing"); return; }
        let c = ReqwestClient::new().unwrap();
        let other = c.clone();
        let mut bodies = vec![];
        for i in 0..bound(3, 5) {
            let b = opaque(1);
            bodies.push(b.clone());
            let works = flag();
            *NEXT.0.borrow_mut() = if works { Some(Answer { pieces: vec![b.clone()], ..answer() }) } else { None };
            let out = block_on((if i % 2 == 0 { &c } else { &other }).execute(Request::post("https://v.example/r").body(b.clone()).unwrap()));
            check(match out { Ok(r) => works & eq(r.body(), &b), Err(_) => !works }, "an answer is that of another request");
        }
        cover("used again");
        let s = SENT.0.borrow();
        check((s.len() == bodies.len()) && s.iter().zip(&bodies).fold(true, |ok, (s, b)| ok & s.body.as_ref().map_or(false, |x| eq(x, b))), "another body is sent");
    }
}
