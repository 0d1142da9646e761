//! The life of a session under every history, schedule, cancellation and store failure.
use crate::fx::*;
use crate::vf::*;
use crate::vsym::*;
use anyhow::{bail, Result};
use openid4vp::core::response::parameters::{VpToken, VpTokenItem};
use openid4vp::core::response::{AuthorizationResponse, JwtAuthorizationResponse, UnencodedAuthorizationResponse};
use openid4vp::verifier::session::{MemoryStore, Outcome, Session, SessionStore, Status};
use openid4vp::verifier::Verifier;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use uuid::Uuid;

fn verifier(s: Arc<dyn SessionStore + Send + Sync>) -> Verifier {
    block_on(Verifier::builder().with_client(Cl::new("p:x", "p")).with_session_store(s).with_submission_endpoint("https://v.example".parse().unwrap()).build()).unwrap()
}
fn outcome_of(k: usize, t: &str) -> Outcome {
    match k { 0 => Outcome::Error { cause: t.into() }, 1 => Outcome::Failure { reason: t.into() }, _ => Outcome::Success { info: serde_json::Value::String(t.into()) } }
}
/// One of the six classes of status; the completed ones with a text.
fn status(k: usize, t: &str) -> Status {
    match k { 0 => Status::SentRequestByReference, 1 => Status::SentRequest, 2 => Status::ReceivedResponse, k => Status::Complete(outcome_of(k - 3, t)) }
}
fn is(s: &Status, k: usize, t: &str) -> bool {
    match (s, k) {
        (Status::SentRequestByReference, 0) | (Status::SentRequest, 1) | (Status::ReceivedResponse, 2) => true,
        (Status::Complete(Outcome::Error { cause: x }), 3) | (Status::Complete(Outcome::Failure { reason: x }), 4) => eq(x, t),
        (Status::Complete(Outcome::Success { info: serde_json::Value::String(x) }), 5) => eq(x, t),
        _ => false,
    }
}
fn id(n: u8) -> Uuid { let mut b = [7u8; 16]; b[15] = n; Uuid::from_bytes(b) }

/// Suspends once.
struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { if self.0 { Poll::Ready(()) } else { self.0 = true; Poll::Pending } }
}
/// A store for one session, each operation of which is atomic, may suspend before it takes effect, and may fail.
#[derive(Debug)]
struct Slow { s: Cellx<Vec<Session>>, yields: bool, fail: Cellx<(bool, bool)>, log: Cellx<Vec<(char, Uuid)>> }
impl Slow {
    fn new(l: Vec<Session>, yields: bool) -> Arc<Slow> { Arc::new(Slow { s: Cellx(std::cell::RefCell::new(l)), yields, fail: Default::default(), log: Default::default() }) }
    async fn op(&self, c: char, u: Uuid) -> Result<()> {
        if self.yields { Yield(false).await; }
        self.log.0.borrow_mut().push((c, u));
        let f = *self.fail.0.borrow();
        if if c == 'g' { f.0 } else { f.1 } { bail!("the store is down") }
        Ok(())
    }
    fn at(&self, u: Uuid) -> Status { self.s.0.borrow().iter().find(|x| x.uuid == u).unwrap().status.clone() }
}
#[async_trait::async_trait]
impl SessionStore for Slow {
    async fn initiate(&self, _: Session) -> Result<()> { fail("a session was created") }
    async fn update_status(&self, u: Uuid, st: Status) -> Result<()> {
        self.op('u', u).await?;
        for s in self.s.0.borrow_mut().iter_mut() { if s.uuid == u { s.status = st; return Ok(()); } }
        bail!("no such session")
    }
    async fn get_session(&self, u: Uuid) -> Result<Session> {
        self.op('g', u).await?;
        for s in self.s.0.borrow().iter() { if s.uuid == u { return Ok(s.clone()); } }
        bail!("no such session")
    }
    async fn remove_session(&self, _: Uuid) -> Result<()> { fail("a session was removed") }
}
fn ready<T>(f: &mut Pin<Box<dyn Future<Output = T> + '_>>) -> Option<T> {
    use std::task::{RawWaker, RawWakerVTable, Waker};
    const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), |_| {}, |_| {}, |_| {});
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) };
    match f.as_mut().poll(&mut Context::from_waker(&w)) { Poll::Ready(r) => Some(r), Poll::Pending => None }
}
fn response(t: &str) -> AuthorizationResponse {
    if flag() { AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: t.into() }) } else { AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::new(VpToken::with_credential("q", vec![VpTokenItem::String(t.into())]))) }
}
fn carries(r: &AuthorizationResponse, t: &str) -> bool {
    match r {
        AuthorizationResponse::Jwt(j) => eq(&j.response, t),
        AuthorizationResponse::Unencoded(u) => match u.vp_token().get("q").map(|l| &l[..]) { Some([VpTokenItem::String(x)]) => eq(x, t), _ => false },
    }
}
/// What a concurrent operation reports when it is done.
enum Done { Token(Result<String>), Stored(Result<()>), Status(Result<Status>) }
fn start<'a>(v: &'a Verifier, k: usize, u: Uuid, o: usize, txt: String) -> Pin<Box<dyn Future<Output = Done> + 'a>> {
    match k {
        0 => Box::pin(async move { Done::Token(v.retrieve_authorization_request(u).await) }),
        1 => Box::pin(async move { Done::Stored(v.verify_response(u, AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: "r".into() }), |_, _| Box::pin(async move { Yield(false).await; outcome_of(o, &txt) })).await) }),
        _ => Box::pin(async move { Done::Status(v.poll_status(u).await) }),
    }
}
crate::entries! {
    // sequences of operations on a memory store with two sessions, against a model
    c15_history {
        let (a, b, none) = (id(1), id(2), id(3));
        let st: Vec<usize> = vec![choose(6), pick(&[0, 1])];
        let toks = [string(2, IDCHARS), string(2, IDCHARS)];
        let mut model: Vec<(usize, String)> = st.iter().map(|k| (*k, "old".to_string())).collect();
        let s = MemoryStore::default();
        for (i, u) in [a, b].iter().enumerate() { block_on(s.initiate(session(*u, status(st[i], "old"), &toks[i]))).unwrap(); }
        let v = verifier(Arc::new(s.clone()));
        for _ in 0..bound(2, 3) {
            let i = choose(3);
            let u = [a, b, none][i];
            match choose(3) {
                0 => {
                    let r = block_on(v.poll_status(u));
                    outcome(&r);
                    match r { Ok(x) => { cover("polled"); check(i < 2 && is(&x, model[i].0, &model[i].1), "another status was reported than the session has"); } Err(_) => { cover("unknown"); check(i == 2, "the status of an existing session could not be read") } }
                }
                1 => {
                    let r = block_on(v.retrieve_authorization_request(u));
                    outcome(&r);
                    match r {
                        Ok(t) => { cover("retrieved"); check(i < 2 && eq(&t, &toks[i]), "another request was handed out than the session's"); if i < 2 && model[i].0 == 0 { model[i].0 = 1; } }
                        Err(_) => { cover("unknown"); check(i == 2, "the request of an existing session could not be retrieved") }
                    }
                }
                _ => {
                    let k = choose(3);
                    let txt = string(1, IDCHARS);
                    let t2 = txt.clone();
                    let mut calls = 0;
                    let c = &mut calls;
                    let (mu, mt) = (u, if i < 2 { toks[i].clone() } else { String::new() });
                    let ms = if i < 2 { model[i].clone() } else { (0, String::new()) };
                    let r = block_on(v.verify_response(u, response("resp"), move |x: Session, resp| {
                        *c += 1;
                        check(x.uuid == mu && eq(&x.authorization_request_jwt, &mt) && is(&x.status, ms.0, &ms.1), "the response is judged in another session than the one it was sent to");
                        check(x.dcql_query == query() && carries(&resp, "resp"), "another response or query is judged than the one received");
                        Box::pin(async move { outcome_of(k, &t2) })
                    }));
                    outcome(&r);
                    check(calls == (i < 2) as usize, "a response is not judged exactly once, or judged without a session");
                    match r { Ok(()) => { cover("answered"); check(i < 2, "a response without session was taken"); if i < 2 { model[i] = (3 + k, txt); } } Err(_) => { cover("unknown"); check(i == 2, "a response to an existing session was not recorded") } }
                }
            }
        }
        for (i, u) in [a, b].iter().enumerate() {
            let x = block_on(s.get_session(*u)).unwrap();
            check(is(&x.status, model[i].0, &model[i].1) && eq(&x.authorization_request_jwt, &toks[i]), "a session ended in another state than its operations imply");
        }
        check(block_on(s.get_session(none)).is_err(), "a session appeared from nowhere");
    }
    // outcomes of any content are recorded as they are, whatever was received and whatever was recorded before
    c15_outcomes {
        let vary = choose(3);
        let t = match if vary == 0 { choose(3) } else { 0 } { 0 => if vary == 0 { any() } else { string(1, IDCHARS) }, 1 => word().to_string(), _ => format!("{}{}", filler(3000), string(1, IDCHARS)) };
        let k = choose(7);
        let text = serde_json::Value::String(t.clone());
        let o = match k { 0 => Outcome::Error { cause: t }, 1 => Outcome::Failure { reason: t }, 2 => Outcome::Success { info: text.clone() }, 3 => Outcome::Success { info: serde_json::Value::Null }, 4 => Outcome::Success { info: serde_json::json!({}) }, 5 => Outcome::Success { info: serde_json::json!([]) }, _ => Outcome::Success { info: serde_json::json!({"a": [text.clone(), null, 0, false], "": {"b": text.clone()}}) } };
        let want = serde_json::to_value(Status::Complete(o.clone())).unwrap();
        let mem = vary != 1 || flag();
        let u = id(1);
        let first = session(u, status(if vary == 1 { choose(6) } else { 0 }, ""), "tok");
        let s = Slow::new(vec![first.clone()], false);
        let m = MemoryStore::default();
        block_on(m.initiate(first)).unwrap();
        let v = if mem { verifier(Arc::new(m)) } else { verifier(s.clone()) };
        let r = match if vary == 2 { choose(5) } else { 4 } { 0 => AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: "".into() }), 1 => AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::new(VpToken::new())), 2 => AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::new(VpToken::with_credential("other", vec![]))), 3 => AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::with_state(VpToken::with_credential("q", vec![VpTokenItem::String("".into())]), openid4vp::core::response::parameters::State("s".into()))), _ => AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: "a.b.c.d.e".into() }) };
        let mut calls = 0;
        let c = &mut calls;
        let r = block_on(v.verify_response(u, r, move |_, _| { *c += 1; Box::pin(async move { o }) }));
        outcome(&r);
        cover("recorded");
        check(r.is_ok() && calls == 1, "a response to an existing session was not judged once and recorded");
        let st = block_on(v.poll_status(u));
        check(st.map_or(false, |x| same_json(&serde_json::to_value(&x).unwrap(), &want)), "the outcome is not recorded as it is");
    }
    // any identifiers: an operation on one session reaches that session only
    c15_identity {
        let mk = || { let mut x = [7u8; 16]; let b = bytes(bound(4, 16), &[]); for (i, c) in b.iter().enumerate() { x[(i * 5) % 16] = *c; } Uuid::from_bytes(x) };
        let (a, b) = (mk(), mk());
        assume(!eq(a.as_bytes(), b.as_bytes()));
        let s = MemoryStore::default();
        block_on(s.initiate(session(a, Status::SentRequestByReference, "ta"))).unwrap();
        block_on(s.initiate(session(b, Status::SentRequestByReference, "tb"))).unwrap();
        let v = verifier(Arc::new(s.clone()));
        let (u, o, t) = if flag() { (a, b, "ta") } else { (b, a, "tb") };
        cover("one of two");
        if flag() {
            let r = block_on(v.retrieve_authorization_request(u));
            check(r.map_or(false, |x| x == t), "another request was handed out than the session's");
            check(matches!(block_on(v.poll_status(u)), Ok(Status::SentRequest)), "a retrieved request does not count as sent");
        } else {
            let r = block_on(v.verify_response(u, response("r"), move |x: Session, _| { check(eq(x.uuid.as_bytes(), u.as_bytes()), "the response is judged in another session"); Box::pin(async { outcome_of(2, "ok") }) }));
            check(r.is_ok(), "a response to an existing session was not recorded");
            check(block_on(v.poll_status(u)).map_or(false, |x| is(&x, 5, "ok")), "the outcome was not recorded");
        }
        check(matches!(block_on(v.poll_status(o)), Ok(Status::SentRequestByReference)), "an operation on one session changed another");
    }
    // two or three operations at once, in every order of their steps
    c15_schedule {
        let u = id(1);
        let init = choose(6);
        let n = bound(2, 3);
        let s = Slow::new(vec![session(u, status(init, "old"), "tok"), session(id(2), Status::SentRequestByReference, "tok2")], true);
        let v = verifier(s.clone());
        let texts = [string(2, IDCHARS), string(2, IDCHARS), string(2, IDCHARS)];
        let kinds: Vec<(usize, usize)> = (0..n).map(|_| (choose(3), choose(2) * 2)).collect();
        if kinds.iter().any(|k| k.0 != 1 && k.1 != 0) { return; }
        let mut fs: Vec<_> = (0..n).map(|i| start(&v, kinds[i].0, u, kinds[i].1, texts[i].clone())).collect();
        let mut live: Vec<usize> = (0..n).collect();
        let mut ends: Vec<(usize, Done)> = vec![];
        // when each retrieval read the session, and when a response was recorded
        let (mut complete_at, mut last) = (None, None);
        let mut step = 0;
        let mut read_at = vec![None; n];
        let mut wrote = vec![0; n];
        while !live.is_empty() {
            let j = choose(live.len());
            let i = live[j];
            let before = s.log.0.borrow().len();
            let r = ready(&mut fs[i]);
            step += 1;
            for (c, x) in &s.log.0.borrow()[before..] {
                check(*x == u, "another session was touched");
                if *c == 'g' { read_at[i] = Some(step); }
                if *c == 'u' { wrote[i] += 1; }
                if *c == 'u' && kinds[i].0 == 1 { complete_at = Some(step); last = Some(i); }
            }
            if let Some(r) = r { live.remove(j); ends.push((i, r)); }
            if step > 40 { fail("the operations never end"); }
        }
        for (i, r) in &ends {
            match r {
                Done::Token(t) => check(matches!(t, Ok(t) if t == "tok"), "a request was not handed out, or another one"),
                Done::Stored(r) => check(r.is_ok() && wrote[*i] > 0, "a response was not recorded"),
                Done::Status(r) => check(r.is_ok(), "the status could not be read"),
            }
        }
        let fin = s.at(u);
        check(matches!(s.at(id(2)), Status::SentRequestByReference), "another session was touched");
        match last {
            Some(i) => {
                // the answer that was recorded last stays
                let good = is(&fin, 3 + kinds[i].1, &texts[i]);
                let raced = init == 0 && matches!(fin, Status::SentRequest) && (0..n).any(|r| kinds[r].0 == 0 && read_at[r].map_or(false, |t| Some(t) < complete_at));
                if raced { cover("FINDING: completed session overwritten by a concurrent retrieval"); } else { cover("answered"); check(good, "a recorded outcome was lost"); }
            }
            None => {
                let retrieved = kinds.iter().any(|k| k.0 == 0);
                cover("not answered");
                check(if init == 0 && retrieved { matches!(fin, Status::SentRequest) } else { is(&fin, init, "old") }, "a session went backwards, or did not record that the request was retrieved");
            }
        }
    }
    // an operation abandoned at any point leaves the session as it was, or as if the operation had been done
    c15_abandoned {
        let u = id(1);
        let init = choose(6);
        let s = Slow::new(vec![session(u, status(init, "old"), "tok")], true);
        let v = verifier(s.clone());
        let k = choose(3);
        let o = choose(3);
        let new = string(2, IDCHARS);
        let mut f = start(&v, k, u, o, new.clone());
        let mut done = None;
        for _ in 0..choose(5) { if done.is_none() { done = ready(&mut f); } }
        drop(f);
        let fin = s.at(u);
        let effect = match k { 0 if init == 0 => is(&fin, 1, ""), 1 => is(&fin, 3 + o, &new), _ => is(&fin, init, "old") };
        if done.is_some() { cover("finished"); check(effect, "a finished operation has not taken effect"); } else {
            cover("abandoned");
            check(is(&fin, init, "old") || effect, "an abandoned operation left the session in a state of its own");
        }
    }
    // the store failing at any operation
    c15_failures {
        let u = id(1);
        let init = choose(6);
        let s = Slow::new(vec![session(u, status(init, "old"), "tok")], false);
        // reading fails, writing fails
        let fs = [flag(), flag()];
        *s.fail.0.borrow_mut() = (fs[0], fs[1]);
        let v = verifier(s.clone());
        match choose(3) {
            0 => {
                let r = block_on(v.retrieve_authorization_request(u));
                outcome(&r);
                let down = fs[0] || (init == 0 && fs[1]);
                cover(if down { "down" } else { "up" });
                check(r.is_err() == down, "a request was handed out without being recorded as sent, or not handed out");
                check(if init == 0 && !down { matches!(s.at(u), Status::SentRequest) } else { is(&s.at(u), init, "old") }, "the session's status is not what was recorded");
            }
            1 => {
                let mut n = 0;
                let c = &mut n;
                let r = block_on(v.verify_response(u, response("r"), move |_, _| { *c += 1; Box::pin(async { outcome_of(2, "new") }) }));
                outcome(&r);
                let down = fs[0] || fs[1];
                cover(if down { "down" } else { "up" });
                check(r.is_err() == down, "a response counts as processed although its outcome was not recorded, or the reverse");
                check(n == !fs[0] as usize, "a response was judged without its session, or not judged");
                check(if down { is(&s.at(u), init, "old") } else { is(&s.at(u), 5, "new") }, "the session's status is not what was recorded");
            }
            _ => {
                let r = block_on(v.poll_status(u));
                outcome(&r.as_ref().map(|_| ()).map_err(|e| anyhow::anyhow!("{e:#}")));
                cover(if fs[0] { "down" } else { "up" });
                check(match r { Ok(x) => !fs[0] && is(&x, init, "old"), Err(_) => fs[0] }, "a status was reported that is not the session's");
            }
        }
    }
}
