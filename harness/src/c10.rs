//! What the wallet sends where, and what it makes of the answer.
use crate::fx::*;
use crate::vsym::*;
use anyhow::Result;
use openid4vp::core::authorization_request::AuthorizationRequestObject;
use openid4vp::core::response::parameters::{State, VpToken, VpTokenItem};
use openid4vp::core::response::{AuthorizationResponse, JwtAuthorizationResponse, UnencodedAuthorizationResponse};
use openid4vp::wallet::Wallet;
use url::Url;

fn request(mode: &str, uri: &str) -> AuthorizationRequestObject {
    let m = if mode.is_empty() { String::new() } else { format!(r#","response_mode":"{mode}""#) };
    let u = if mode.starts_with("dc_api") { String::new() } else { format!(r#","response_uri":"{uri}""#) };
    obj(&format!(r#"{{"client_id":"c","nonce":"n","response_type":"vp_token"{m}{u}}}"#)).try_into().unwrap()
}
fn plain(item: &str, state: Option<&str>) -> AuthorizationResponse {
    let t = VpToken::with_credential("q", vec![VpTokenItem::String(item.to_string())]);
    AuthorizationResponse::Unencoded(match state { None => UnencodedAuthorizationResponse::new(t), Some(s) => UnencodedAuthorizationResponse::with_state(t, State(s.into())) })
}
fn token(s: &str) -> AuthorizationResponse { AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: s.into() }) }
fn submit(http: Http, r: AuthorizationRequestObject, a: AuthorizationResponse) -> (Result<Option<Url>>, Vec<Req>) {
    let w = W::new(metadata(""), http, true);
    let v = block_on(w.submit_response(r, a));
    outcome(&v);
    let l = std::mem::take(&mut *w.http.log.0.borrow_mut());
    (v, l)
}
const PATHCH: &str = "abcXYZ019-_.~";
const VALCH: &str = "abcXYZ019-_.";
fn well_formed(q: &Req, uri: &str) {
    check(q.method == "POST", "the response was not sent by POST");
    check(eq(&q.uri, uri), "the response was sent elsewhere than the request's response URI");
    let h = |n: &str| { let l: Vec<_> = q.headers.iter().filter(|(k, _)| k == n).collect(); if l.len() == 1 { l[0].1.clone() } else { String::new() } };
    check(h("content-type") == "application/x-www-form-urlencoded", "the response was not sent as a form");
    check(h("prefer") == "OID4VP-1.0.0", "the response was sent without the protocol version preference");
}
crate::entries! {
    // the request that goes out
    // what was decided before does not matter
    c10_again {
        let (a, b) = (choose(3), choose(3));
        for k in [a, b, a] {
            let v = string(2, VALCH);
            let uri = if k == 2 { "https://w.example/r" } else { "https://v.example/r" };
            let (r, l) = submit(Http::answering(if k == 1 { 500 } else { 200 }, vec![]), request("direct_post", uri), plain(&v, None));
            cover(if k == 1 { "again refused" } else { "again sent" });
            check(r.is_ok() == (k != 1), "a response is reported as delivered or not by what happened before");
            check(l.len() == 1, "the response was not sent exactly once");
            if l.len() != 1 { return; }
            well_formed(&l[0], uri);
            check(eq(&l[0].body, format!("vp_token=%7B%22q%22%3A%5B%22{v}%22%5D%7D")), "the response that was sent is not the one given");
        }
    }
    c10_sent {
        let uri = match choose(3) { 0 => format!("https://v.example/{}", string(bound(3, 8), PATHCH)), 1 => format!("https://v.example:8443/r/{}?s={}", string(bound(2, 4), "abXY01-_"), string(2, VALCH)), _ => "https://v.example/".to_string() };
        let v = string(bound(4, 10), VALCH);
        let s = if flag() { Some(string(bound(3, 8), VALCH)) } else { None };
        if flag() {
            let (r, l) = submit(Http::answering(200, vec![]), request(pick(&["direct_post", ""]), &uri), plain(&v, s.as_deref()));
            cover("plain sent");
            check(matches!(r, Ok(None)), "a delivered response was reported as failed");
            check(l.len() == 1, "the response was not sent exactly once");
            if l.len() != 1 { return; }
            well_formed(&l[0], &uri);
            let t = format!("vp_token=%7B%22q%22%3A%5B%22{v}%22%5D%7D");
            let same = match s { None => eq(&l[0].body, &t), Some(s) => eq(&l[0].body, format!("{t}&state={s}")) | eq(&l[0].body, format!("state={s}&{t}")) };
            check(same, "the response that was sent is not the one given");
        } else {
            let (r, l) = submit(Http::answering(200, vec![]), request("direct_post.jwt", &uri), token(&v));
            cover("token sent");
            check(matches!(r, Ok(None)), "a delivered response was reported as failed");
            check(l.len() == 1, "the response was not sent exactly once");
            if l.len() != 1 { return; }
            well_formed(&l[0], &uri);
            check(eq(&l[0].body, format!("response={v}")), "the response that was sent is not the one given");
        }
    }
    // responses of any content and size, to response URIs of any shape
    c10_shapes {
        let uri = pick(&["https://v.example/r?a=b&c=%2F+d", "http://v.example/r", "https://u:p@v.example/", "https://[::1]:8443/r", "https://v.example/a%20b/c;d=e/?", "https://v.example:443/", "https://V.EXAMPLE/R", "https://v.example/a/./b/../c", "https://v.example?x"]);
        let want = Url::parse(uri).unwrap();
        let v = match choose(3) { 0 => string(1, "a+ %&=\"\\/\n"), 1 => format!("{}{}", filler(9000), string(1, VALCH)), _ => format!("x{}", beyond_few()) };
        let s = match choose(3) { 0 => None, 1 => Some(String::new()), _ => Some("a &=+%\n".to_string()) };
        let jwt = flag();
        let a = if jwt { token(&v) } else {
            let mut t = VpToken::new();
            t.insert("q", vec![VpTokenItem::String(v.clone()), VpTokenItem::String("2".into()), VpTokenItem::String(v.clone())]);
            t.insert("r", vec![]);
            AuthorizationResponse::Unencoded(match &s { None => UnencodedAuthorizationResponse::new(t), Some(s) => UnencodedAuthorizationResponse::with_state(t, State(s.clone())) })
        };
        let (r, l) = submit(Http::answering(201, b" ".to_vec()), request(if jwt { "direct_post.jwt" } else { "direct_post" }, uri), a);
        cover(if jwt { "token sent" } else { "plain sent" });
        check(matches!(r, Ok(None)), "a delivered response was reported as failed");
        check(l.len() == 1, "the response was not sent exactly once");
        if l.len() != 1 { return; }
        well_formed(&l[0], want.as_str());
        let f = crate::c11::form(std::str::from_utf8(&l[0].body).unwrap_or(""));
        if jwt {
            check(f.len() == 1 && f[0].0 == b"response" && eq(&f[0].1, &v), "the response that was sent is not the one given");
        } else {
            check(f.len() == 1 + s.is_some() as usize, "the form has other members than the response");
            let q = crate::c20::quote(&v);
            let (a, b) = (format!(r#"{{"q":[{q},"2",{q}],"r":[]}}"#), format!(r#"{{"r":[],"q":[{q},"2",{q}]}}"#));
            check(crate::c11::value(&f, "vp_token").map_or(false, |x| eq(x, &a) | eq(x, &b)), "the response that was sent is not the one given");
            check(match (crate::c11::value(&f, "state"), &s) { (None, None) => true, (Some(x), Some(s)) => eq(x, s), _ => false }, "the state that was sent is not the one given");
        }
    }
    // kinds that do not fit the mode are not sent at all
    c10_kind {
        let v = string(3, VALCH);
        let m = pick(&["direct_post", "direct_post.jwt", "", "dc_api", "dc_api.jwt"]);
        // nor do empty ones fit another mode than their own
        let kind = choose(4);
        let jwt = kind >= 2;
        let a = match kind {
            0 => plain(&v, None),
            1 => AuthorizationResponse::Unencoded(match choose(3) { 0 => UnencodedAuthorizationResponse::new(VpToken::new()), 1 => UnencodedAuthorizationResponse::with_state(VpToken::new(), State(v.clone())), _ => UnencodedAuthorizationResponse::new(VpToken::with_credential("q", vec![])) }),
            2 => token(&v),
            _ => token(pick(&["", "{}", "a.b.c.d.e", r#"{"vp_token":{}}"#])),
        };
        let (r, l) = submit(Http::answering(200, vec![]), request(m, "https://v.example/r"), a);
        if m.starts_with("dc_api") {
            cover("left to the platform");
            check(matches!(r, Ok(None)) && l.is_empty(), "a response that belongs to the platform API was sent over the network");
        } else if jwt == (m == "direct_post.jwt") {
            cover("fits");
            check(r.is_ok() && l.len() == 1, "a response that fits its mode was not sent");
        } else {
            cover("does not fit");
            check(r.is_err(), "a response that does not fit the mode was reported as sent");
            check(l.is_empty(), "a response that does not fit the mode was sent");
        }
    }
    // the status of the answer
    c10_status {
        let b = bytes(2, &[]);
        let s = (b[0] as u16) << 8 | b[1] as u16;
        assume(s >= 100 && s < 1000);
        let body = pick(&["", r#"{"redirect_uri":"https://v.example/done"}"#, "ok"]);
        let (r, l) = if flag() { submit(Http::answering(s, body.into()), request("direct_post", "https://v.example/r"), plain("x", None)) } else { submit(Http::answering(s, body.into()), request("direct_post.jwt", "https://v.example/r"), token("x")) };
        check(l.len() == 1, "the response was not sent exactly once");
        let good = s >= 200 && s < 300;
        cover(if good { "success" } else { "failure" });
        let good = good && body != "ok";
        check(r.is_ok() == good, if good { "a delivered response was reported as failed" } else { "a response the verifier did not accept was reported as delivered" });
    }
    // the body of the answer
    c10_answer {
        let p = string(bound(3, 6), PATHCH);
        let uri = format!("https://v.example/{p}");
        let (app, full) = (format!("app:{p}"), format!("{uri}?a=b&c=%2F#{p}"));
        let place;
        let (body, want): (Vec<u8>, Option<Option<&str>>) = match choose(27) {
            26 => { place = format!("{}{p}", pick(&["http://v.example/", "https://w.example/", "http://w.example:81/", "http://127.0.0.1/", "wallet://done/", "urn:x:", "data:,", "https://v.example:444/", "https://u@v.example/", "file:///", "javascript:"])); (format!(r#"{{"redirect_uri":"{place}"}}"#).into_bytes(), Some(Some(&place))) }
            19 => (br#"{"redirect_uri":""}"#.to_vec(), None),
            20 => (format!(r#"{{"redirect_uri":"{uri}"}}{}"#, string(1, ";,.)]}\0a0")).into_bytes(), None),
            21 => (format!(r#"{}{{"redirect_uri":"{uri}"}}"#, string(1, ";,.([{a0)=")).into_bytes(), None),
            22 => (format!(")]}}'\n{{\"redirect_uri\":\"{uri}\"}}").into_bytes(), None),
            23 => (format!("\u{feff}{{\"redirect_uri\":\"{uri}\"}}").into_bytes(), None),
            24 => (format!(r#"{{'redirect_uri':'{uri}'}}"#).into_bytes(), None),
            25 => (format!(r#"{{"redirect_uri":"{uri}",}}"#).into_bytes(), None),
            11 => (format!(r#"{{"redirect_uri":"{}{p}"}}"#, "app:").into_bytes(), Some(Some(&app))),
            12 => (format!(r#"{{"redirect_uri":"{uri}?a=b&c=%2F#{p}"}}"#).into_bytes(), Some(Some(&full))),
            13 => (format!(r#"{{"redirect_uri":"https:\/\/v.example\/{p}"}}"#).into_bytes(), Some(Some(&uri))),
            14 => (format!(r#"{{"r":{{"redirect_uri":"{uri}"}}}}"#).into_bytes(), Some(None)),
            15 => (format!(r#"{{"Redirect_URI":"{uri}","redirect-uri":"{uri}","redirectUri":"{uri}","redirect_uri ":"{uri}","response_uri":"{uri}","location":"{uri}"}}"#).into_bytes(), Some(None)),
            16 => (format!(r#""{uri}""#).into_bytes(), Some(None)),
            17 => (format!("{uri}").into_bytes(), None),
            18 => (format!(r#"{{"redirect_uri":"{p}"}}"#).into_bytes(), None),
            0 => (string(choose(bound(4, 6)), " \n\t\r").into_bytes(), Some(None)),
            1 => (format!(r#"{{"redirect_uri":"{uri}"}}"#).into_bytes(), Some(Some(&uri))),
            2 => (format!(r#" {{"x":[1],"redirect_uri":"{uri}","y":null}} "#).into_bytes(), Some(Some(&uri))),
            3 => (format!(r#"{{"redirect_url":"{uri}"}}"#).into_bytes(), Some(None)),
            4 => (br#"{}"#.to_vec(), Some(None)),
            5 => (format!(r#"{{"redirect_uri":"/{p}"}}"#).into_bytes(), None),
            6 => (format!(r#"{{"redirect_uri":"{uri}""#).into_bytes(), None),
            7 => (format!(r#"<p>{p}</p>"#).into_bytes(), None),
            8 => { let mut v = br#"{"redirect_uri":"https://v.example/"#.to_vec(); v.push(pick(&[0x80, 0xc3, 0xff])); v.extend_from_slice(b"\"}"); (v, None) }
            9 => (format!(r#"{{"redirect_uri":"{uri}"}}{{"redirect_uri":"{uri}"}}"#).into_bytes(), None),
            _ => (format!(r#"{{"redirect_uri":"http://[{p}"}}"#).into_bytes(), None),
        };
        // any status of success
        let s = bytes(1, &[])[0];
        assume(s < 100);
        let s = 200 + s as u16;
        let (r, l) = if flag() { submit(Http::answering(s, body), request("direct_post", "https://v.example/r"), plain("x", None)) }
            else { submit(Http::answering(s, body), request("direct_post.jwt", "https://v.example/r"), token("x")) };
        check(l.len() == 1, "the response was not sent exactly once");
        match (want, &r) {
            (None, r) => { cover("unreadable"); check(r.is_err(), "an answer that cannot be read was taken for success"); }
            (Some(None), r) => { cover("no redirect"); check(matches!(r, Ok(None)), "an answer without redirect_uri was not taken as done"); }
            (Some(Some(u)), Ok(Some(x))) => { cover("redirect"); check(eq(x.as_str(), u), "the wallet was sent elsewhere than the answer's redirect_uri"); }
            _ => check(false, "the answer's redirect_uri was lost"),
        }
    }
    // no answer at all
    c10_no_answer {
        let (r, l) = if flag() { submit(Http::none(), request("direct_post", "https://v.example/r"), plain("x", None)) } else { submit(Http::none(), request("direct_post.jwt", "https://v.example/r"), token("x")) };
        cover("no answer");
        check(r.is_err() && l.len() == 1, "a response that could not be delivered was reported as delivered");
    }
}
