//! Requests passed by reference are what the reference yields, and nothing else.
use crate::fx::*;
use crate::vsym::*;
use openid4vp::core::authorization_request::{AuthorizationRequest, RequestIndirection};
use openid4vp::core::object::UntypedObject;

fn payload(id: &str, st: &str) -> String { format!(r#"{{"client_id":"{id}","nonce":"n","response_mode":"direct_post","response_type":"vp_token","response_uri":"https://v/r","state":"{st}"}}"#) }
fn go(uri: &str, http: Http) -> (bool, bool, W, Option<(UntypedObject, Option<String>)>) {
    let ar = AuthorizationRequest { client_id: if flag() { Some("c".into()) } else { None }, request_indirection: RequestIndirection::ByReference { request_uri: uri.parse().unwrap() } };
    let r = block_on(ar.resolve_request(&http));
    outcome(&r);
    let first = std::mem::take(&mut *http.log.0.borrow_mut());
    check(first.len() == 1 && first[0].method == "GET" && eq(&first[0].uri, uri) && first[0].body.is_empty(), "the reference was not fetched exactly once by GET");
    check(first.iter().all(|q| q.headers.iter().any(|(k, v)| k == "prefer" && v == "OID4VP-1.0.0")), "the reference was fetched without the protocol version preference");
    let w = W::new(metadata(""), http, true);
    let v = block_on(ar.validate(&w));
    outcome(&v);
    { let l = w.http.log.0.borrow(); check(l.len() == 1 && l[0].method == "GET" && eq(&l[0].uri, uri), "the reference was not fetched exactly once by GET"); }
    (r.is_ok(), v.is_ok(), w, r.ok().map(|(o, t)| (o.into(), t)))
}
crate::entries! {
    // the reference itself, and what it yields
    c13_fetched {
        let uri = match choose(3) { 0 => format!("https://v.example/{}", string(bound(3, 8), "abXY09-_.~")), 1 => format!("https://v.example:8443/r?id={}", string(bound(3, 8), "abXY09-_.~")), _ => "https://v.example/".to_string() };
        let st = string(bound(3, 6), "abcXYZ ~");
        let t = jwt(HDR, &payload("c", &st), &string(4, "abAB-_"));
        let (r, v, w, got) = go(&uri, Http::answering(200, t.clone().into_bytes()));
        cover("fetched");
        check(r && v, "a request by reference was rejected");
        let Some((o, tok)) = got else { return };
        check(eq(serde_json::to_string(&o).unwrap(), payload("c", &st)), "the resolved request is not the one fetched");
        check(tok.map_or(false, |x| eq(x, &t)), "the resolved token is not the one fetched");
        let c = w.calls.0.borrow();
        check(c.len() == 1 && c[0].jwt.as_ref().map_or(false, |x| eq(x, &t)), "the verifier was given another token than the one fetched");
    }
    // what was decided before does not matter
    c13_again {
        let uri = "https://v.example/r";
        let (a, b) = (choose(3), choose(3));
        for k in [a, b, a] {
            let st = string(1, "abc");
            let t = jwt(HDR, &payload("c", &st), "c2ln");
            let (r, v, w, got) = go(uri, if k == 2 { Http::answering(404, vec![]) } else { Http::answering(200, if k == 1 { b"x".to_vec() } else { t.clone().into_bytes() }) });
            check(r == (k == 0) && v == (k == 0), "what is fetched is judged by what was fetched before");
            cover(if k == 0 { "fetched" } else { "refused" });
            let Some((o, tok)) = got else { continue };
            check(eq(serde_json::to_string(&o).unwrap(), payload("c", &st)) && tok.map_or(false, |x| eq(x, &t)), "the resolved request is not the one fetched");
            let c = w.calls.0.borrow();
            check(c.len() == 1 && c[0].jwt.as_ref().map_or(false, |x| eq(x, &t)), "the verifier was given another token than the one fetched");
        }
    }
    // the status of the answer
    c13_status {
        let b = bytes(2, &[]);
        let s = (b[0] as u16) << 8 | b[1] as u16;
        assume(s >= 100 && s < 1000);
        let t = jwt(HDR, &payload("c", "s"), "c2ln");
        let http = Http::answering(s, t.into_bytes());
        let ar = AuthorizationRequest { client_id: Some("c".into()), request_indirection: RequestIndirection::ByReference { request_uri: "https://v.example/ro".parse().unwrap() } };
        let r = block_on(ar.resolve_request(&http));
        outcome(&r);
        let good = s >= 200 && s < 300;
        check(http.log.0.borrow().len() == 1, "the reference was not fetched exactly once by GET");
        cover(if good { "success" } else { "failure" });
        check(r.is_ok() == good, if good { "a request by reference was rejected" } else { "a request was taken from an unsuccessful answer" });
    }
    // answers that are no request object
    c13_unreadable {
        let mut t = jwt(HDR, &payload("c", "s"), "c2ln").into_bytes();
        match choose(6) {
            0 => { let n = t.len(); let i = pick(&[0usize, 5, 60, 61, n - 5, n - 2, n]); t.insert(i, 0x80 + sym(128) as u8); }
            1 => t.clear(),
            2 => t = payload("c", "s").into_bytes(),
            3 => t = format!("\"{}\"", jwt(HDR, &payload("c", "s"), "c2ln")).into_bytes(),
            4 => t = jwt(HDR, &string(3, "[]{}01"), "c2ln").into_bytes(),
            _ => t = jwt(HDR, &format!(r#"{{"client_id":"c","nonce":"n","response_type":"vp_token"{}"#, pick(&["", "}", r#","response_mode":"direct_post"}"#])), "c2ln").into_bytes(),
        }
        let (r, v, w, _) = go("https://v.example/ro", Http::answering(200, t));
        cover("unreadable");
        check(!r && !v && w.calls.0.borrow().is_empty(), "an answer that is no request object was processed as one");
    }
    c13_no_answer {
        let (r, v, w, _) = go("https://v.example/ro", Http::none());
        cover("no answer");
        check(!r && !v && w.calls.0.borrow().is_empty(), "a request was accepted although its reference could not be fetched");
    }
    // whatever is around the token: it is taken as it is, or not at all
    c13_around {
        let t = jwt(HDR, &payload("c", "s"), "c2ln");
        let x = match choose(3) { 0 => string(1, IDCHARS), 1 => pick(&["\n", "\r\n", "\t", "\0", "\n\n"]).to_string(), _ => beyond() };
        let n = t.len();
        let b = match choose(6) { 0 => format!("{x}{t}"), 1 => format!("{t}{x}"), 2 => format!("{}{x}{}", &t[..n - 2], &t[n - 2..]), 3 => format!("{}{x}{}", &t[..n - 4], &t[n - 4..]), 4 => format!("{}{x}", &t[..n - 1]), _ => format!("{x}{t}{x}") };
        let http = Http::answering(200, b.clone().into_bytes());
        let ar = AuthorizationRequest { client_id: Some("c".into()), request_indirection: RequestIndirection::ByReference { request_uri: "https://v.example/ro".parse().unwrap() } };
        let r = block_on(ar.resolve_request(&http));
        let w = W::new(metadata(""), http, true);
        let v = block_on(ar.validate(&w));
        cover("around");
        check(r.is_ok() == v.is_ok(), "resolving and validating disagree");
        if let Ok((_, tok)) = &r { check(tok.as_ref().map_or(false, |x| eq(x, &b)), "the resolved token is not the one fetched"); }
        for c in w.calls.0.borrow().iter() { check(c.jwt.as_ref().map_or(false, |x| eq(x, &b)), "the verifier was given another token than the one fetched"); }
    }
    // long references, references with every part, long answers
    c13_long {
        let n = pick(&[50, 400, bound(1200, 9000)]);
        let (uri, st) = if flag() { (format!("https://v.example/{}{}?x={}", filler(n), string(2, "abXY09-_.~"), filler(n)), "s".to_string()) } else { (pick(&["https://u:p@v.example:8443/a/b/?q=%41&r=%20#frag", "http://127.0.0.1:3000/r", "https://[::1]/r", "https://v.example/?request_uri=https://evil.example/x", "https://v.example/%7Eu/..;/r", "https://v.example/r?", "https://v.example/r/", "https://v.example/r?a=b&", "https://v.example//r//?#"]).to_string(), format!("{}{}", filler(n * 20), string(2, IDCHARS))) };
        let t = jwt(HDR, &payload("c", &st), "c2ln");
        let http = Http::answering(200, t.clone().into_bytes());
        let want: http::Uri = uri.parse().unwrap();
        let ar = AuthorizationRequest { client_id: Some("c".into()), request_indirection: RequestIndirection::ByReference { request_uri: uri.parse().unwrap() } };
        let r = block_on(ar.resolve_request(&http));
        cover("long");
        { let l = http.log.0.borrow(); check(l.len() == 1 && l[0].method == "GET" && eq(&l[0].uri, want.to_string()), "the reference was not fetched exactly once by GET"); }
        check(r.map_or(false, |(o, tok)| tok.map_or(false, |x| eq(x, &t)) && eq(serde_json::to_string(&UntypedObject::from(o)).unwrap(), payload("c", &st))), "the resolved request is not the one fetched");
    }
    // requests that are not by reference need no network
    c13_no_fetch {
        let st = string(2, "ab");
        let ind = if flag() { RequestIndirection::ByValue { request: jwt(HDR, &payload("c", &st), "c2ln") } } else { RequestIndirection::Direct(obj(&format!(r#"{{"request":"x","request_uri":"https://v.example/ro",{}{}"#, pick(&["", r#""client_metadata_uri":"https://v.example/md","jwks_uri":"https://v.example/jwks","registration_uri":"https://v.example/g","#, r#""presentation_definition_uri":"https://v.example/pd","dcql_query_uri":"https://v.example/q","client_metadata":{"jwks_uri":"https://v.example/jwks"},"#]), &payload("c", &st)[1..]))) };
        let w = W::new(metadata(""), Http::answering(200, jwt(HDR, &payload("c", "evil"), "c2ln").into_bytes()), true);
        let r = block_on(AuthorizationRequest { client_id: Some("c".into()), request_indirection: ind }.validate(&w));
        outcome(&r);
        cover("no fetch");
        check(w.http.log.0.borrow().is_empty(), "something was fetched for a request that is not by reference");
        check(r.as_ref().map_or(false, |o| o.state().map_or(false, |s| s.map_or(false, |s| eq(&s.0, &st)))), "a request that is not by reference was changed");
    }
}
