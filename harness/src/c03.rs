//! The outer request and the request object name the same client.
use crate::fx::*;
use crate::vsym::*;
use openid4vp::core::authorization_request::parameters::ClientId;
use openid4vp::core::authorization_request::{AuthorizationRequest, RequestIndirection};

const REST: &str = r#""nonce":"n","response_mode":"direct_post","response_type":"vp_token","response_uri":"https://v/r""#;
const ALL: &str = r#""client_id_prefixes_supported":["x509_hash","redirect_uri","x","x509_san_dns","decentralized_identifier","openid_federation","verifier_attestation","zz"]"#;

fn go(outer: Option<String>, inner_member: &str, by_ref: bool) -> (anyhow::Result<openid4vp::core::authorization_request::AuthorizationRequestObject>, W) {
    let sep = if inner_member.is_empty() { "" } else { "," };
    go_with(outer, &format!("{{{inner_member}{sep}{REST}}}"), by_ref)
}
fn go_with(outer: Option<String>, payload: &str, by_ref: bool) -> (anyhow::Result<openid4vp::core::authorization_request::AuthorizationRequestObject>, W) {
    let token = jwt(HDR, payload, "c2ln");
    let (ind, http) = if by_ref {
        (RequestIndirection::ByReference { request_uri: "https://v/ro".parse().unwrap() }, Http::answering(200, token.into_bytes()))
    } else { (RequestIndirection::ByValue { request: token }, Http::none()) };
    let w = W::new(metadata(ALL), http, true);
    let r = block_on(AuthorizationRequest { client_id: outer, request_indirection: ind }.validate(&w));
    outcome(&r);
    (r, w)
}
const CH: &str = IDCHARS;
crate::entries! {
    c03_agree {
        let n = choose(bound(6, 12));
        let m = match choose(3) { 0 => n, 1 => n + 1, _ => n.saturating_sub(1) };
        let pre = pick(&["", "x509_hash:", "redirect_uri:"]);
        let inner = format!("{pre}{}", string(n, IDCHARS_NOCOLON));
        let outer = format!("{}{}", if flag() { pre } else { "" }, string(m, IDCHARS));
        let (r, _) = go(Some(outer.clone()), &format!(r#""client_id":"{inner}""#), flag());
        let same = eq(&outer, &inner);
        match &r {
            Ok(o) => {
                cover("accepted");
                check(same, "a request whose outer and inner client identifiers differ was accepted");
                check(o.client_id().map_or(false, |c| eq(&c.0, &outer)), "the accepted request names another client than the outer request");
                check(o.get::<ClientId>().map_or(false, |c| c.map_or(false, |c| eq(&c.0, &outer))), "the accepted request's parameters name another client");
            }
            Err(_) => { cover("rejected"); check(!same, "a request whose client identifiers agree was rejected"); }
        }
    }
    // what was decided before does not matter
    c03_again {
        let ids = ["x509_hash:a".to_string(), format!("x509_hash:{}", string(1, IDCHARS))];
        let by_ref = flag();
        for _ in 0..2 {
            let (o, i) = (&ids[choose(2)], &ids[choose(2)]);
            let (r, _) = go(Some(o.clone()), &format!(r#""client_id":"{i}""#), by_ref);
            let same = eq(o, i);
            cover(if same { "accepted" } else { "rejected" });
            check(r.is_ok() == same, if same { "a request whose client identifiers agree was rejected" } else { "a request whose outer and inner client identifiers differ was accepted" });
        }
    }
    // any text against an identifier of any kind
    c03_any {
        let t = pick(&["client", "x509_hash:aBcD", "redirect_uri:https://v.ex/cb", "x509_san_dns:v.example", "decentralized_identifier:", "zz:a", ""]);
        let a = any();
        let (outer, inner) = if flag() { (a, t.to_string()) } else { (t.to_string(), a) };
        let (r, _) = go(Some(outer.clone()), &format!(r#""client_id":"{inner}""#), t.len() % 2 == 0);
        let same = eq(&outer, &inner);
        cover(if same { "accepted" } else { "rejected" });
        check(r.is_ok() == same, if same { "a request whose client identifiers agree was rejected" } else { "a request whose outer and inner client identifiers differ was accepted" });
    }
    // identifiers of any length and character that differ in one place, or in nothing
    c03_near {
        let t = match choose(3) {
            0 => pick(&["x509_hash:aBcD", "redirect_uri:https://v.example/cb", "client", "x509_san_dns:v.example", "decentralized_identifier:did:web:v", "openid_federation:https://v", "verifier_attestation:v.example", "zz:v.example"]).to_string(),
            1 => format!("x509_hash:{}", filler(pick(&[60, 300, 1100]))),
            _ => filler(pick(&[40, 130])),
        };
        let c = string(1, IDCHARS_NOCOLON);
        let (u, v) = (if flag() { string(1, IDCHARS_NOCOLON) } else { beyond() }, c);
        let first = t.find(':').map_or(0, |i| i + 1);
        let i = pick(&[first, (first + t.len()) / 2, t.len() - 1, t.len()]);
        let k = (i + choose(2)).min(t.len());
        let (a, b) = (format!("{}{u}{}", &t[..i], &t[k..]), format!("{}{v}{}", &t[..i], &t[i..]));
        let (outer, inner) = if flag() { (a, b) } else { (b, a) };
        let by_ref = flag();
        let (r, _) = go(Some(outer.clone()), &format!(r#""client_id":"{inner}""#), by_ref);
        let same = eq(&outer, &inner);
        cover(if same { "accepted" } else { "rejected" });
        check(r.is_ok() == same, if same { "a request whose client identifiers agree was rejected" } else { "a request whose outer and inner client identifiers differ was accepted" });
    }
    // whatever else the request says
    c03_beside {
        let (outer, inner) = (string(2, IDCHARS), string(2, IDCHARS_NOCOLON));
        let (r, _) = go_with(Some(outer.clone()), &format!(r#"{{"client_id":"{inner}",{REST}{}}}"#, beside()), flag());
        let same = eq(&outer, &inner);
        cover(if same { "accepted" } else { "rejected" });
        check(r.is_ok() == same, if same { "a request whose client identifiers agree was rejected" } else { "a request whose outer and inner client identifiers differ was accepted" });
    }
    c03_outer_absent {
        let inner = string(choose(bound(6, 12)), IDCHARS_NOCOLON);
        let (r, _) = go(None, &format!(r#""client_id":"{inner}""#), flag());
        cover("outer absent");
        check(r.is_ok(), "a request object that alone names the client was rejected");
        if let Ok(o) = &r { check(o.client_id().map_or(false, |c| eq(&c.0, &inner)), "the accepted request names another client than the request object"); }
    }
    c03_inner_absent {
        let n = choose(bound(4, 8));
        let outer = format!("{}{}", pick(&["", "x509_hash:", "redirect_uri:"]), string(n, CH));
        let rest = format!("{{{}{REST}{}}}", if flag() { format!(r#""Client_ID":"{outer}","sub":"{outer}","#) } else { String::new() }, beside());
        let (r, _) = go_with(Some(outer), &rest, flag());
        cover("inner absent");
        check(r.is_err(), "a request object without client identifier was accepted for the outer request's client");
    }
    c03_inner_not_text {
        let outer = string(choose(4), CH);
        let v = match choose(4) { 0 => "null".to_string(), 1 => "7".into(), 2 => format!(r#"["{outer}"]"#), _ => format!(r#"{{"v":"{outer}"}}"#) };
        let outer = if flag() { Some(outer) } else { None };
        let (r, w) = go(outer, &format!(r#""client_id":{v}"#), flag());
        cover("inner not text");
        check(r.is_err(), "a client identifier that is not text was accepted");
        check(w.calls.0.borrow().is_empty(), "a client identifier that is not text reached a verifier");
    }
    // a request that is not wrapped in a token: the outer identifier is the request's
    c03_direct {
        let outer = string(choose(bound(6, 12)), IDCHARS_NOCOLON);
        let inner = string(choose(3), "ab");
        let o = if flag() { obj(&format!(r#"{{"client_id":"{inner}",{REST}}}"#)) } else { obj(&format!("{{{REST}}}")) };
        let w = W::new(metadata(ALL), Http::none(), true);
        let r = block_on(AuthorizationRequest { client_id: Some(outer.clone()), request_indirection: RequestIndirection::Direct(o) }.validate(&w));
        outcome(&r);
        cover("direct");
        check(r.is_ok(), "an unwrapped request was rejected");
        if let Ok(o) = &r {
            check(o.client_id().map_or(false, |c| eq(&c.0, &outer)), "an unwrapped request names another client than the outer request");
            check(o.get::<ClientId>().map_or(false, |c| c.map_or(false, |c| eq(&c.0, &outer))), "an unwrapped request's parameters name another client");
        }
    }
}
