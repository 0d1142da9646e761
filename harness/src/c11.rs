//! Authorization responses survive the wire.
use crate::fx::*;
use crate::vsym::*;
use openid4vp::core::response::parameters::{State, VpToken, VpTokenItem};
use openid4vp::core::response::{AuthorizationResponse, JwtAuthorizationResponse, UnencodedAuthorizationResponse};

/// Text that needs every kind of escaping: ASCII of all classes, or two-byte characters.
pub fn text(n: usize) -> String {
    match choose(2) {
        0 => string(n, ALLCH),
        _ => { let mut s = String::from("x"); s.push(char::from_u32(0xa0 + sym(64) as u32).unwrap()); s.push_str(&string(n / 2, "a+& ")); s }
    }
}
const ALLCH: &str = "az09AZ-_.~*+ %&=;\"\\/{}[]<>'#?:,@!$^`|()\r\n\t\x00\x1f\x7f";
/// Own decoder of application/x-www-form-urlencoded.
pub fn form(s: &str) -> Vec<(Vec<u8>, Vec<u8>)> {
    let dec = |s: &[u8]| {
        let (mut o, mut i) = (vec![], 0);
        while i < s.len() {
            match s[i] {
                b'+' => { o.push(b' '); i += 1; }
                b'%' => { let h = |c: u8| (c as char).to_digit(16).unwrap_or(0) as u8; o.push(h(s[i + 1]) << 4 | h(s[i + 2])); i += 3; }
                c => { o.push(c); i += 1; }
            }
        }
        o
    };
    s.as_bytes().split(|c| *c == b'&').map(|p| { let k = p.iter().position(|c| *c == b'=').unwrap_or(p.len()); (dec(&p[..k]), dec(&p[(k + 1).min(p.len())..])) }).collect()
}
/// The value of a parameter that occurs once.
pub fn value<'a>(f: &'a [(Vec<u8>, Vec<u8>)], k: &str) -> Option<&'a Vec<u8>> {
    let mut l = f.iter().filter(|p| p.0 == k.as_bytes());
    match (l.next(), l.next()) { (Some(p), None) => Some(&p.1), _ => None }
}
fn item(n: usize) -> (VpTokenItem, String) {
    let t = if flag() { word().to_string() } else { text(n) };
    if flag() { (VpTokenItem::String(t.clone()), t) } else {
        let mut m = serde_json::Map::new();
        m.insert("k".into(), serde_json::Value::String(t.clone()));
        m.insert("n".into(), serde_json::Value::Null);
        (VpTokenItem::JsonObject(m), t)
    }
}
fn same(a: &VpTokenItem, b: &(VpTokenItem, String)) -> bool {
    match (a, &b.0) {
        (VpTokenItem::String(x), VpTokenItem::String(_)) => eq(x, &b.1),
        (VpTokenItem::JsonObject(m), VpTokenItem::JsonObject(_)) => m.len() == 2 && m.get("n") == Some(&serde_json::Value::Null) && m.get("k").and_then(|v| v.as_str()).map_or(false, |s| eq(s, &b.1)),
        _ => false,
    }
}
crate::entries! {
    // one presentation, state or not
    c11_unencoded {
        let it = item(bound(2, 3));
        let mut l = vec![it.0.clone()];
        let second = flag();
        // another presentation, or the same one again
        let again = second && flag();
        let other = if again { it.0.clone() } else { VpTokenItem::String("x~y".into()) };
        if second { l.push(other.clone()); }
        let t = VpToken::with_credential("q 1&", l);
        let r = UnencodedAuthorizationResponse::new(t);
        let wire = r.into_x_www_form_urlencoded().unwrap();
        let back = AuthorizationResponse::from_x_www_form_urlencoded(wire.as_bytes());
        outcome(&back);
        cover("unencoded");
        let Ok(AuthorizationResponse::Unencoded(u)) = back else { check(false, "a response does not survive the wire"); return };
        check(u.state().is_none(), "a state appeared from nowhere");
        check(u.vp_token().len() == 1 && !u.vp_token().is_empty(), "the response answers other queries than the one sent");
        let Some(got) = u.vp_token().get("q 1&") else { check(false, "the response lost the query it answers"); return };
        check(got.len() == 1 + second as usize, "the response has another number of presentations");
        check(same(&got[0], &it), "a presentation was changed on the wire");
        if second { check(if again { same(&got[1], &it) } else { got[1] == other }, "a presentation was changed on the wire"); }
    }
    c11_state {
        let s = match choose(3) {
            0 => word().to_string(),
            1 => format!("{}{}", filler(pick(&[300, 10000])), string(1, "a+")),
            _ => text(bound(2, 3)),
        };
        let r = UnencodedAuthorizationResponse::with_state(VpToken::with_credential("q", vec![VpTokenItem::String("p".into())]), State(s.clone()));
        check(r.state().map_or(false, |x| eq(&x.0, &s)), "the response has another state than given");
        let wire = r.into_x_www_form_urlencoded().unwrap();
        let f = form(&wire);
        let (vt, vs) = (value(&f, "vp_token"), value(&f, "state"));
        check(f.len() == 2 && vt.is_some() && vs.is_some(), "the form does not consist of vp_token and state");
        let (Some(vt), Some(vs)) = (vt, vs) else { return };
        check(eq(vt, r#"{"q":["p"]}"#) & eq(vs, &s), "the form does not carry the token and the state as given");
        let back = AuthorizationResponse::from_x_www_form_urlencoded(wire.as_bytes());
        outcome(&back);
        cover("state");
        let Ok(AuthorizationResponse::Unencoded(u)) = back else { check(false, "a response does not survive the wire"); return };
        check(u.state().map_or(false, |x| eq(&x.0, &s)), "the state was changed on the wire");
        check(u.vp_token().get("q").map_or(false, |l| l.len() == 1 && l[0] == VpTokenItem::String("p".into())), "the presentation was changed on the wire");
    }
    // long presentations and states, and characters of every width
    c11_long {
        let n = pick(&[2, 12]);
        let p = match choose(3) { 0 => format!("{}{}", string(1, "a+ %\""), filler(6000 / n / n)), 1 => format!("{}~{}", beyond_few(), beyond_few()), _ => string(1, "a+ %\"\\&\n") };
        // in no particular order, some more than once
        let name = |i: usize| format!("{p}{}", [3, 3, 0, 4, 1, 1, 1, 0, 3, 2, 4, 4][i]);
        let items: Vec<_> = (0..n).map(|i| VpTokenItem::String(name(i))).collect();
        let s = match choose(3) { 0 => None, 1 => Some(p.clone()), _ => Some(String::new()) };
        let mut t = VpToken::new();
        let k = pick(&[1, 8]);
        for i in 0..k { t.insert(format!("q{i}"), items.clone()); }
        // a query that is answered with nothing is answered all the same
        let none = flag();
        if none { t.insert("none", vec![]); }
        let r = match &s { None => UnencodedAuthorizationResponse::new(t), Some(s) => UnencodedAuthorizationResponse::with_state(t, State(s.clone())) };
        let wire = r.into_x_www_form_urlencoded().unwrap();
        let back = AuthorizationResponse::from_x_www_form_urlencoded(wire.as_bytes());
        outcome(&back);
        cover("long");
        let Ok(AuthorizationResponse::Unencoded(u)) = back else { check(false, "a response does not survive the wire"); return };
        check(match (u.state(), &s) { (None, None) => true, (Some(x), Some(s)) => eq(&x.0, s), _ => false }, "the state was changed on the wire");
        check(u.vp_token().len() == k + none as usize, "the response answers another number of queries");
        check(u.vp_token().get("none").map_or(!none, |l| none && l.is_empty()), "a query answered with nothing was changed on the wire");
        for i in 0..k {
            let Some(l) = u.vp_token().get(&format!("q{i}")) else { check(false, "the response lost the query it answers"); return };
            check(l.len() == n && l.iter().enumerate().fold(true, |r, (j, x)| r & matches!(x, VpTokenItem::String(x) if eq(x, name(j)))), "a presentation was changed on the wire");
        }
    }
    // tokens as long as they get
    c11_long_token {
        let p = format!("{}{}{}", string(1, "a+ %&="), filler(pick(&[100, 5000])), if flag() { beyond_few().to_string() } else { string(1, "a+ %&=") });
        let wire = JwtAuthorizationResponse { response: p.clone() }.into_x_www_form_urlencoded().unwrap();
        // whoever sends the form may order and extend it as they like
        let wire = match choose(3) { 0 => wire, 1 => format!("state=s&{wire}"), _ => format!("{wire}&iss=x&expires_in=5") };
        let back = AuthorizationResponse::from_x_www_form_urlencoded(wire.as_bytes());
        outcome(&back);
        cover("token");
        match back { Ok(AuthorizationResponse::Jwt(j)) => check(eq(&j.response, &p), "the token was changed on the wire"), _ => check(false, "an encrypted response does not survive the wire") }
    }
    // several queries
    c11_queries {
        let names = ["a", "b", "a b", ""];
        let k = choose(bound(3, 4));
        let mut t = VpToken::new();
        check(t.is_empty() && t.len() == 0, "a new token is not empty");
        let mut vals = vec![];
        for i in 0..k { let v = string(2, "abc\"%"); t.insert(names[i], vec![VpTokenItem::String(v.clone())]); vals.push(v); }
        // answering a query again replaces the answer
        if k > 0 && flag() { let v = string(2, "xyz"); t.insert(names[0], vec![VpTokenItem::String(v.clone()), VpTokenItem::String("2".into())]); vals[0] = v; }
        let s = string(1, "st&");
        let r = UnencodedAuthorizationResponse::with_state(t.clone(), State(s.clone()));
        let wire = r.into_x_www_form_urlencoded().unwrap();
        let back = AuthorizationResponse::from_x_www_form_urlencoded(wire.as_bytes());
        outcome(&back);
        cover("queries");
        let Ok(AuthorizationResponse::Unencoded(u)) = back else { check(false, "a response does not survive the wire"); return };
        check(u.vp_token().len() == k, "the response answers another number of queries");
        for i in 0..k {
            check(u.vp_token().get(names[i]).map_or(false, |l| match l.first() { Some(VpTokenItem::String(x)) => eq(x, &vals[i]), _ => false }), "an answer was changed on the wire");
        }
        check(u.vp_token() == &t, "the token was changed on the wire");
        check(u.state().map_or(false, |x| eq(&x.0, &s)), "the state was changed on the wire");
    }
    c11_token {
        let s = if flag() { text(bound(2, 3)) } else { String::new() };
        let wire = JwtAuthorizationResponse { response: s.clone() }.into_x_www_form_urlencoded().unwrap();
        let f = form(&wire);
        check(f.len() == 1 && f[0].0 == b"response" && eq(&f[0].1, &s), "the form does not carry the token as given");
        let back = AuthorizationResponse::from_x_www_form_urlencoded(wire.as_bytes());
        outcome(&back);
        cover("token");
        match back { Ok(AuthorizationResponse::Jwt(j)) => check(eq(&j.response, &s), "the token was changed on the wire"), _ => check(false, "an encrypted response does not survive the wire") }
    }
    // forms that carry no response
    c11_malformed {
        let x = string(bound(2, 3), "abn1tu{}[]");
        let (f, want) = match choose(11) {
            9 => (format!("vp_token={}&state={x}", pick(&["%EF%BB%BF%7B%7D", "%7B%7D%3B", "%7B%7D%2C", "%28%7B%7D%29", "%22%7B%7D%22", "e30", "%7B%2C%7D", "%7B%22q%22%3A%5B%22p%22%2C%5D%7D", "%7B%7D%00", "%7B%27q%27%3A%5B%5D%7D", "%7Bq%3A%5B%5D%7D", "%5B%7B%7D%5D", "null", "%2F%2F%0A%7B%7D", "", "%257B%257D"])), false),
            0 => (format!("vp_toke={x}"), false), 1 => (String::new(), false), 2 => (format!("state={x}"), false),
            3 => (format!("vp_token=%5B%22{x}%22%5D"), false),
            4 => (format!("vp_token={x}"), eq(&x, "{}")),
            5 => (format!("vp_token=%7B%22q%22%3A%22p%22%7D&state={x}"), false),
            6 => (format!("vp_token=%7B%22q%22%3A%5B1%5D%7D&state={x}"), false),
            7 => (format!("vp_token=%7B%22q%22%3A%5B%5D%7D&state={x}"), true),
            8 => (format!("VP_TOKEN=%7B%7D&state={x}"), false),
            _ => (format!("vp_token=%7B%7D%7B%7D&state={x}"), false),
        };
        let r = AuthorizationResponse::from_x_www_form_urlencoded(f.as_bytes());
        outcome(&r);
        cover(if want { "readable" } else { "unreadable" });
        check(r.is_ok() == want, "a form that carries no response was read as one, or a readable one was not");
    }
    // responses that arrive as an object
    c11_object {
        let s = string(bound(2, 3), "ab\"\\ &");
        let q = crate::c20::quote(&s);
        let (t, want) = match choose(7) {
            0 => (format!(r#"{{"vp_token":{{"q":[{q},{{"k":{q}}}]}},"state":{q}}}"#), true),
            1 => (format!(r#"{{"vp_token":{{"q":[{q},{{"k":{q}}}]}}}}"#), true),
            2 => (format!(r#"{{"state":{q}}}"#), false),
            3 => (format!(r#"{{"vp_token":{q}}}"#), false),
            4 => (format!(r#"{{"vp_token":{{"q":{q}}}}}"#), false),
            5 => (r#"{"vp_token":{},"state":[7]}"#.to_string(), false),
            _ => (r#"{"vp_token":null}"#.to_string(), false),
        };
        let r = UnencodedAuthorizationResponse::try_from(obj(&t));
        cover(if want { "readable" } else { "unreadable" });
        check(r.is_ok() == want, "an object that is no response was read as one, or a response was not");
        let Ok(r) = r else { return };
        let stated = t.ends_with('}') && t.contains("\"state\":");
        check(match r.state() { Some(x) => stated && eq(&x.0, &s), None => !stated }, "the response has another state than the object");
        check(r.vp_token().len() == 1 && r.vp_token().get("q").map_or(false, |l| l.len() == 2 && matches!(&l[0], VpTokenItem::String(x) if eq(x, &s)) && matches!(&l[1], VpTokenItem::JsonObject(m) if m.len() == 1 && m.get("k").and_then(|k| k.as_str()).map_or(false, |k| eq(k, &s)))), "the response has other presentations than the object");
    }
}
