//! Session statuses: their order and their form on the wire.
use crate::fx::*;
use crate::vsym::*;
use openid4vp::verifier::session::{Outcome, Status};
use std::cmp::Ordering;

/// One of six statuses in the order of a session's life; the completed ones with a text.
fn status(k: usize, t: &str) -> Status {
    match k {
        0 => Status::SentRequestByReference, 1 => Status::SentRequest, 2 => Status::ReceivedResponse,
        3 => Status::Complete(Outcome::Error { cause: t.into() }), 4 => Status::Complete(Outcome::Failure { reason: t.into() }), _ => Status::Complete(Outcome::Success { info: serde_json::Value::String(t.into()) }),
    }
}
/// The expected form on the wire, written by hand; `t` needs no escaping.
fn wire(k: usize, t: &str) -> String {
    match k {
        0 => r#""SentRequestByReference""#.into(), 1 => r#""SentRequest""#.into(), 2 => r#""ReceivedResponse""#.into(),
        3 => format!(r#"{{"Complete":{{"Error":{{"cause":"{t}"}}}}}}"#), 4 => format!(r#"{{"Complete":{{"Failure":{{"reason":"{t}"}}}}}}"#), _ => format!(r#"{{"Complete":{{"Success":{{"info":"{t}"}}}}}}"#),
    }
}
fn text_of(s: &Status) -> Option<&str> {
    match s { Status::Complete(Outcome::Error { cause: x }) | Status::Complete(Outcome::Failure { reason: x }) => Some(x), Status::Complete(Outcome::Success { info }) => info.as_str(), _ => None }
}
fn class(s: &Status) -> usize {
    match s { Status::SentRequestByReference => 0, Status::SentRequest => 1, Status::ReceivedResponse => 2, Status::Complete(Outcome::Error { .. }) => 3, Status::Complete(Outcome::Failure { .. }) => 4, Status::Complete(Outcome::Success { .. }) => 5 }
}
crate::entries! {
    // the order is the order of a session's life, whatever the details of the outcome
    c17_order {
        let (i, j) = (choose(6), choose(6));
        let (t, u) = (string(choose(3), IDCHARS), string(choose(3), IDCHARS));
        let (a, b) = (status(i, &t), status(j, &u));
        cover(if i == j { "same" } else { "different" });
        check(a.partial_cmp(&b) == Some(i.cmp(&j)), "statuses are not ordered as a session's life is");
        check((a == b) == (i == j) && (a != b) == (i != j), "equality of statuses does not agree with their order");
        check((a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j) && (a >= b) == (i >= j), "the comparisons of statuses do not agree");
        check(b.partial_cmp(&a) == a.partial_cmp(&b).map(Ordering::reverse), "the order of statuses is not antisymmetric");
    }
    c17_outcome {
        let (i, j) = (choose(3), choose(3));
        let (t, u) = (string(2, IDCHARS), string(2, IDCHARS));
        let o = |k: usize, t: &str| match status(3 + k, t) { Status::Complete(o) => o, _ => unreachable!() };
        let (a, b) = (o(i, &t), o(j, &u));
        cover(if i == j { "same" } else { "different" });
        check(a.partial_cmp(&b) == Some(i.cmp(&j)) && (a == b) == (i == j), "outcomes are not ordered error, failure, success");
    }
    // what the backend writes, the frontend reads
    c17_wire {
        let k = choose(6);
        let t = match choose(3) { 0 => any(), 1 => format!("{}{}", string(1, IDCHARS), beyond()), _ => format!("{}{}", filler(pick(&[0, 300, 5000])), string(1, IDCHARS)) };
        let s = status(k, &t);
        let w = serde_json::to_string(&s).unwrap();
        cover("written");
        check(eq(&w, wire(k, &t)), "a status has another form on the wire");
        let r: Result<Status, _> = serde_json::from_str(&wire(k, &t));
        match r { Ok(x) => { check(class(&x) == k, "a status is read as another one"); if k > 2 { check(text_of(&x).map_or(false, |x| eq(x, &t)), "the details of an outcome were changed on the wire"); } } Err(_) => check(false, "a status cannot be read") }
    }
    // details that need escaping, or mean something elsewhere
    c17_escapes {
        let k = 3 + choose(3);
        let t = if flag() { word().to_string() } else { string(bound(2, 3), "a\"\\/\n\t\r\x00\x1f\x7f\u{8}\u{c}") };
        let w = serde_json::to_string(&status(k, &t)).unwrap();
        cover("escaped");
        match serde_json::from_str::<Status>(&w) { Ok(x) => check(class(&x) == k && text_of(&x).map_or(false, |x| eq(x, &t)), "the details of an outcome were changed on the wire"), Err(_) => check(false, "a status does not survive the wire") }
    }
    // structured details of a success
    c17_info {
        let t = string(2, "abc");
        let info = match choose(5) { 0 => json("null"), 1 => json("[1,{\"a\":true}]"), 2 => json(&format!(r#"{{"k":"{t}","n":-1.5,"l":[]}}"#)), 3 => json("18446744073709551615"), _ => json("false") };
        let s = Status::Complete(Outcome::Success { info: info.clone() });
        cover("info");
        match serde_json::from_str(&serde_json::to_string(&s).unwrap()) { Ok(Status::Complete(Outcome::Success { info: x })) => check(x == info, "the details of an outcome were changed on the wire"), _ => check(false, "a status does not survive the wire") }
    }
    // texts that are no status
    c17_foreign {
        let t = string(pick(&[10, 11, 12, 16]), "SentRqusxivdopcC");
        let r: Result<Status, _> = serde_json::from_str(&match choose(4) { 0 => format!("\"{t}\""), 1 => r#"{"Complete":{"Success":{}}}"#.into(), 2 => r#""Complete""#.into(), _ => r#"{"SentRequest":{"x":1}}"#.into() });
        let known = eq(&t, "SentRequest") | eq(&t, "ReceivedResponse") | eq(&t, "SentRequestByReference");
        match r { Ok(_) => { cover("read"); check(known, "a text that is no status was read as one") } Err(_) => cover("not read") }
    }
    // the form of a success, whatever its details
    c17_info_wire {
        let i = pick(&["null", "{}", "[]", "0", "\"\"", "false", "{\"a\":null,\"b\":[null,\"\"]}", "{\"Complete\":{\"Error\":{\"cause\":\"x\"}}}"]);
        let s = Status::Complete(Outcome::Success { info: json(i) });
        cover("info");
        check(serde_json::to_string(&s).map_or(false, |w| w == format!(r#"{{"Complete":{{"Success":{{"info":{i}}}}}}}"#)), "a status has another form on the wire");
    }
    // near misses of the names on the wire
    c17_near {
        let k = choose(6);
        let w = wire(k, "t");
        let names: &[&str] = match k { 0 => &["SentRequestByReference"], 1 => &["SentRequest"], 2 => &["ReceivedResponse"], 3 => &["Complete", "Error", "cause"], 4 => &["Complete", "Failure", "reason"], _ => &["Complete", "Success", "info"] };
        let n = names[choose(names.len())];
        let r = match choose(6) { 0 => n.to_lowercase(), 3 => n[..choose(n.len())].to_string(), 4 => n[choose(n.len())..].to_string(), 5 => { let mut s = String::new(); for (i, c) in n.chars().enumerate() { if c.is_uppercase() && i > 0 { s.push(if n.len() % 2 == 0 { '_' } else { '-' }); } s.extend(c.to_lowercase()); } s } 1 => pick(&["Error", "Failure", "Success", "cause", "reason", "info", "SentRequest", "ReceivedResponse", "message", "Complete", ""]).to_string(), _ => near_tail(n) };
        let x: Result<Status, _> = serde_json::from_str(&w.replacen(&format!("\"{n}\""), &format!("\"{r}\""), 1));
        if r.len() == n.len() && eq(&r, n) { cover("read"); check(x.map_or(false, |x| class(&x) == k), "a status cannot be read, or is read as another one"); return; }
        match x {
            // another status' own name
            Ok(x) => { cover("not read"); check(k < 3 && class(&x) < 3 && r == ["SentRequestByReference", "SentRequest", "ReceivedResponse"][class(&x)], "a text that is no status was read as one"); }
            Err(_) => cover("not read"),
        }
    }
}
