//! The memory store is a map from identifiers to sessions, shared by its clones.
use crate::fx::*;
use crate::vf::*;
use crate::vsym::*;
use openid4vp::verifier::session::{MemoryStore, Outcome, Session, SessionStore, Status};
use uuid::Uuid;

fn status(k: usize, t: &str) -> Status {
    match k { 0 => Status::SentRequestByReference, 1 => Status::SentRequest, 2 => Status::ReceivedResponse, 4 => Status::Complete(Outcome::Error { cause: t.into() }), 5 => Status::Complete(Outcome::Success { info: serde_json::json!({"a": [t, null]}) }), 6 => Status::Complete(Outcome::Success { info: serde_json::Value::Null }), _ => Status::Complete(Outcome::Failure { reason: t.into() }) }
}
fn same(s: &Status, k: usize, t: &str) -> bool {
    match (s, k) { (Status::SentRequestByReference, 0) | (Status::SentRequest, 1) | (Status::ReceivedResponse, 2) => true, (Status::Complete(Outcome::Failure { reason }), 3) => eq(reason, t), (Status::Complete(Outcome::Error { cause }), 4) => eq(cause, t), (Status::Complete(Outcome::Success { info }), 5) => same_json(info, &serde_json::json!({"a": [t, null]})), (Status::Complete(Outcome::Success { info: serde_json::Value::Null }), 6) => true, _ => false }
}
struct Row { id: Uuid, k: usize, txt: String, tok: String }
/// Own model: an association list.
struct Model(Vec<Row>);
impl Model { fn find(&self, u: &Uuid) -> Option<usize> { self.0.iter().position(|r| r.id.as_bytes() == u.as_bytes()) } }
fn id(n: usize) -> Uuid { let mut x = [0x11u8; 16]; let b = bytes(n, &[]); for (i, c) in b.iter().enumerate() { x[(i * 15) % 16] = *c; } Uuid::from_bytes(x) }
fn full(s: &Session, r: &Row) -> bool {
    eq(s.uuid.as_bytes(), r.id.as_bytes()) && same(&s.status, r.k, &r.txt) && eq(&s.authorization_request_jwt, &r.tok) && s.dcql_query == query() && serde_json::to_value(&s.authorization_request_object).ok() == serde_json::to_value(aro("")).ok()
}
fn run(ids: Vec<Uuid>, steps: usize, clones: bool) {
    let s = MemoryStore::default();
    let c = s.clone();
    let mut m = Model(vec![]);
    for n in 0..steps {
        let st = if clones && flag() { &s } else { &c };
        let u = ids[if n == 0 { 0 } else { choose(ids.len()) }];
        let at = m.find(&u);
        // the first step puts something in
        match if n == 0 { 0 } else { choose(4) } {
            0 => {
                let (k, txt, tok) = (choose(bound(2, 4)), string(1, IDCHARS), string(1, IDCHARS));
                let r = block_on(st.initiate(session(u, status(k, &txt), &tok)));
                check(r.is_ok(), "a session could not be stored");
                let row = Row { id: u, k, txt, tok };
                match at { Some(i) => { cover("replaced"); m.0[i] = row } None => { cover("stored"); m.0.push(row) } }
            }
            1 => {
                let (k, txt) = (pick(&[1, 3]), string(1, IDCHARS));
                let r = block_on(st.update_status(u, status(k, &txt)));
                outcome(&r);
                match at { Some(i) => { cover("updated"); check(r.is_ok(), "the status of a stored session could not be updated"); m.0[i].k = k; m.0[i].txt = txt; } None => { cover("absent"); check(r.is_err(), "the status of a session that does not exist was updated") } }
            }
            2 => {
                let r = block_on(st.remove_session(u));
                outcome(&r);
                match at { Some(i) => { cover("removed"); check(r.is_ok(), "a stored session could not be removed"); m.0.remove(i); } None => { cover("absent"); check(r.is_err(), "a session that does not exist was removed") } }
            }
            _ => {
                let r = block_on(st.get_session(u));
                outcome(&r);
                match (at, r) { (Some(i), Ok(x)) => { cover("found"); check(full(&x, &m.0[i]), "another session was found than the one stored") } (None, Err(_)) => cover("absent"), _ => check(false, "a stored session was not found, or one that is not stored was") }
            }
        }
    }
    for u in &ids {
        for st in [&s, &c] {
            match (m.find(u), block_on(st.get_session(*u))) {
                (Some(i), Ok(x)) => check(full(&x, &m.0[i]), "a stored session was changed by something else than an operation on it"),
                (None, Err(_)) => (),
                (Some(_), _) => check(false, "a stored session was lost"),
                _ => check(false, "a session exists that was not stored, or was removed"),
            }
        }
    }
}
crate::entries! {
    // three identifiers of any value, equal or not
    c16_identifiers { run((0..bound(2, 3)).map(|_| id(bound(2, 16))).collect(), 3, false) }
    // longer histories over fixed identifiers
    c16_history { run(vec![Uuid::from_u128(1), Uuid::from_u128(1 << 64), Uuid::from_u128(u128::MAX)], bound(3, 4), true) }
    // many sessions: none is lost, changed or confused with another
    c16_many {
        let s = MemoryStore::default();
        let n = pick(&[5, 40, bound(1100, 5000)]);
        let k = choose(4);
        let base = session(Uuid::nil(), Status::SentRequest, "t");
        let mk = |i: usize| Uuid::from_u128((i as u128).wrapping_mul(0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c835));
        for i in 0..n { let mut x = base.clone(); x.uuid = mk(i); x.authorization_request_jwt = format!("t{i}"); x.status = status((k + i) % 4, "r"); check(block_on(s.initiate(x)).is_ok(), "a session could not be stored"); }
        cover("many");
        let gone = pick(&[0, n / 2, n - 1]);
        check(block_on(s.remove_session(mk(gone))).is_ok(), "a stored session could not be removed");
        let upd = pick(&[1, n - 2]);
        let txt = string(2, IDCHARS);
        check(block_on(s.clone().update_status(mk(upd), status(3, &txt))).is_ok(), "the status of a stored session could not be updated");
        for i in 0..n {
            match block_on(s.get_session(mk(i))) {
                Ok(x) => check(i != gone && x.uuid == mk(i) && x.authorization_request_jwt == format!("t{i}") && if i == upd { same(&x.status, 3, &txt) } else { same(&x.status, (k + i) % 4, "r") }, "a stored session was changed by something else than an operation on it"),
                Err(_) => check(i == gone, "a stored session was lost"),
            }
        }
        check(block_on(s.get_session(mk(n))).is_err() && block_on(s.update_status(mk(n), Status::SentRequest)).is_err() && block_on(s.remove_session(mk(gone))).is_err(), "a session exists that was not stored, or was removed");
    }
    // every change of status is recorded as given, forwards or backwards
    c16_statuses {
        let s = MemoryStore::default();
        let u = if flag() { Uuid::nil() } else { Uuid::max() };
        let mut t = string(2, IDCHARS);
        let mut k = choose(7);
        check(block_on(s.remove_session(u)).is_err() && block_on(s.get_session(u)).is_err(), "a session exists that was not stored, or was removed");
        block_on(s.initiate(session(u, status(k, &t), "tok"))).unwrap();
        for _ in 0..2 {
            k = choose(7); t = string(pick(&[0, 2]), IDCHARS);
            check(block_on(s.update_status(u, status(k, &t))).is_ok(), "the status of a stored session could not be updated");
            cover("changed");
            check(block_on(s.get_session(u)).map_or(false, |x| full(&x, &Row { id: u, k, txt: t.clone(), tok: "tok".into() })), "another session was found than the one stored");
        }
    }
}
