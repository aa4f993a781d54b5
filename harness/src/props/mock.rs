//! C33 the mock service of tower-test.
use crate::core::*;
use crate::ensure;
use crate::probe::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use tower_service::Service;
use tower_test::assert_request_eq;
use tower_test::mock::{self, error::Closed, Handle, Mock, SendResponse, Spawn};

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum KOp {
    Poll(u8),
    Call(u8),
    Send(u8),
    Clone(u8),
    DropMock(u8),
    Allow(u64),
    SendError,
    /// receive a request: 0 poll_request, 1 next_request, 2 assert_request_eq, 3 assert_request_eq with another value
    Receive(u8),
    /// await the next request, then send one from a ready mock
    Await(u8),
    Respond(u8),
    RespondErr(u8),
    DropResponder(u8),
    PollFut(u8),
    DropFut(u8),
    DropHandle,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct KCase {
    kind: u8,
    /// at the end, call a mock that has not reported ready
    #[serde(default)]
    misuse: bool,
    ops: Vec<KOp>,
}
fn arb() -> impl Strategy<Value = KCase> {
    let h = prop_oneof![5 => 0u8..4, 2 => 0u8..12].boxed();
    let i = 0u8..8;
    let op = prop_oneof![
        16 => h.clone().prop_map(KOp::Poll),
        8 => h.clone().prop_map(KOp::Call),
        30 => h.clone().prop_map(KOp::Send),
        5 => h.clone().prop_map(KOp::Clone),
        2 => h.clone().prop_map(KOp::DropMock),
        10 => prop_oneof![3 => Just(0u64), 10 => 1u64..5, 1 => 5u64..60, 1 => Just(u64::MAX)].prop_map(KOp::Allow),
        4 => Just(KOp::SendError),
        20 => (0u8..4).prop_map(KOp::Receive),
        4 => h.prop_map(KOp::Await),
        14 => i.clone().prop_map(KOp::Respond),
        8 => i.clone().prop_map(KOp::RespondErr),
        4 => i.clone().prop_map(KOp::DropResponder),
        24 => i.clone().prop_map(KOp::PollFut),
        3 => i.prop_map(KOp::DropFut),
        1 => Just(KOp::DropHandle),
    ];
    (0u8..4, (0u8..24).prop_map(|x| x == 0), hist(op, 60)).prop_map(|(kind, misuse, ops)| KCase { kind, misuse, ops })
}

/// A service around the mock.
#[derive(Clone, Debug)]
struct Wrap<S>(S);
impl<S: Service<Req>> Service<Req> for Wrap<S> {
    type Response = S::Response;
    type Error = S::Error;
    type Future = S::Future;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), S::Error>> {
        self.0.poll_ready(cx)
    }
    fn call(&mut self, r: Req) -> S::Future {
        self.0.call(Req { val: r.val + 1000, ..r })
    }
}
type Mk = Mock<Req, u64>;
type Out = Result<u64, BoxError>;
#[derive(Clone)]
enum M {
    Raw(Mk),
    Sp(Spawn<Mk>),
    Wr(Spawn<Wrap<Mk>>),
}
impl M {
    fn poll(&mut self) -> (Poll<Result<(), BoxError>>, Option<Arc<Flag>>) {
        match self {
            M::Raw(m) => {
                let (r, f) = with_waker(|cx| m.poll_ready(cx));
                (r, Some(f))
            }
            M::Sp(s) => (s.poll_ready(), None),
            M::Wr(s) => (s.poll_ready(), None),
        }
    }
    fn call(&mut self, r: Req) -> Pin<Box<dyn Future<Output = Out>>> {
        match self {
            M::Raw(m) => Box::pin(m.call(r)),
            M::Sp(m) => Box::pin(m.call(r)),
            M::Wr(m) => Box::pin(m.call(r)),
        }
    }
    fn woken(&self, f: &Option<Arc<Flag>>) -> bool {
        match self {
            M::Raw(_) => f.as_ref().map_or(false, |f| f.woken()),
            M::Sp(s) => s.is_woken(),
            M::Wr(s) => s.is_woken(),
        }
    }
    fn sent(&self, id: u64) -> Req {
        Req { id, val: id + if matches!(self, M::Wr(_)) { 1000 } else { 0 }, hold: Hold::default() }
    }
}
struct Mo {
    m: Option<M>,
    can: bool,
    waiting: bool,
    flag: Option<Arc<Flag>>,
    /// something happened since that must wake it
    due: bool,
}
#[derive(Debug, Clone, PartialEq)]
enum Ans {
    None,
    Ok(u64),
    Err(u64),
    Closed,
}
struct Fu {
    f: Option<Pin<Box<dyn Future<Output = Out>>>>,
    ans: Ans,
    flag: Option<Arc<Flag>>,
}
fn is(e: &BoxError, a: &Ans) -> bool {
    match a {
        Ans::Err(x) => e.downcast_ref::<PErr>() == Some(&PErr(*x)),
        Ans::Closed => e.downcast_ref::<Closed>().is_some(),
        _ => false,
    }
}

fn history(c: &KCase, cov: &mut Cov) -> R {
    let (m, handle): (M, Handle<Req, u64>) = match c.kind {
        0 => {
            let (m, h) = mock::pair();
            (M::Raw(m), h)
        }
        1 => {
            let (m, h) = mock::spawn();
            (M::Sp(m), h)
        }
        2 => {
            let (m, h) = mock::spawn_with(Wrap);
            (M::Wr(m), h)
        }
        _ => {
            let (m, h) = mock::spawn_layer(tower_layer::layer_fn(Wrap));
            (M::Wr(m), h)
        }
    };
    let mut handle = Some(handle);
    let mut ms = vec![Mo { m: Some(m), can: false, waiting: false, flag: None, due: false }];
    // model
    let mut rem = u64::MAX;
    let mut err: Option<u64> = None;
    let mut queue: VecDeque<(Req, usize)> = VecDeque::new();
    let mut fs: Vec<Fu> = vec![];
    let mut resp: Vec<(SendResponse<u64>, usize)> = vec![];
    let mut next = 1u64;
    let (mut answered, mut received, mut errors, mut waits, mut clones) = (0, 0, 0, 0, 0);
    macro_rules! wake_all {
        () => {
            for m in &mut ms {
                m.due |= m.waiting;
            }
        };
    }
    macro_rules! got {
        ($r:expr, $why:expr) => {{
            let (r, s): (Req, SendResponse<u64>) = $r;
            match queue.pop_front() {
                Some((q, f)) => {
                    ensure!(r == q, "{} gave {:?}, sent was {:?}", $why, r, q);
                    received += 1;
                    resp.push((s, f));
                }
                None => return Err(format!("{} gave {:?}, nothing was sent", $why, r)),
            }
        }};
    }
    macro_rules! call {
        ($k:expr) => {{
            let mo = &mut ms[$k];
            let m = mo.m.as_mut().unwrap();
            let sent = m.sent(next);
            let f = m.call(req(next));
            next += 1;
            if handle.is_some() {
                mo.can = false;
                rem = rem.saturating_sub(1);
                queue.push_back((sent, fs.len()));
                fs.push(Fu { f: Some(f), ans: Ans::None, flag: None });
            } else {
                fs.push(Fu { f: Some(f), ans: Ans::Closed, flag: None });
            }
        }};
    }
    for &op in &c.ops {
        match op {
            KOp::Poll(i) | KOp::Call(i) | KOp::Send(i) => {
                let k = i as usize % ms.len();
                let mo = &mut ms[k];
                let Some(m) = mo.m.as_mut() else { continue };
                if !matches!(op, KOp::Call(_)) {
                    let (r, fl) = m.poll();
                    mo.waiting = false;
                    mo.due = false;
                    mo.flag = None;
                    let expect = if handle.is_none() {
                        Some(Ans::Closed)
                    } else if let Some(e) = err.take() {
                        Some(Ans::Err(e))
                    } else {
                        None
                    };
                    match (r, expect) {
                        (Poll::Ready(Err(e)), Some(a)) => {
                            ensure!(is(&e, &a), "readiness failed with {e:?} instead of {a:?}");
                            errors += 1;
                        }
                        (Poll::Ready(Ok(())), None) => {
                            ensure!(mo.can || rem > 0, "ready although nothing is allowed");
                            mo.can = true;
                        }
                        (Poll::Pending, None) => {
                            ensure!(!mo.can && rem == 0, "pending although {}", if mo.can { "it was ready and not called" } else { "requests are allowed" });
                            mo.waiting = true;
                            mo.flag = fl;
                            waits += 1;
                        }
                        (r, a) => return Err(format!("readiness is {r:?}, expected {a:?}")),
                    }
                }
                if !matches!(op, KOp::Poll(_)) && (ms[k].can || handle.is_none()) {
                    call!(k);
                }
            }
            KOp::Clone(i) => {
                let k = i as usize % ms.len();
                if ms.len() < 12 {
                    if let Some(m) = &ms[k].m {
                        let m = m.clone();
                        ms.push(Mo { m: Some(m), can: false, waiting: false, flag: None, due: false });
                        clones += 1;
                    }
                }
            }
            KOp::DropMock(i) => {
                let k = i as usize % ms.len();
                ms[k].m = None;
                ms[k].waiting = false;
                ms[k].can = false;
            }
            KOp::Allow(n) => {
                if let Some(h) = handle.as_mut() {
                    h.allow(n);
                    rem = n;
                    if n > 0 {
                        wake_all!();
                    }
                }
            }
            KOp::SendError => {
                if let Some(h) = handle.as_mut() {
                    h.send_error(PErr(next));
                    err = Some(next);
                    next += 1;
                    wake_all!();
                }
            }
            KOp::Receive(k) => {
                let Some(h) = handle.as_mut() else { continue };
                let any = ms.iter().any(|m| m.m.is_some());
                match k {
                    0 | 1 => {
                        let r = match k {
                            0 => h.poll_request(),
                            _ => poll_fut(Box::pin(h.next_request()).as_mut()).0,
                        };
                        match r {
                            Poll::Ready(Some(r)) => got!(r, "receiving"),
                            Poll::Ready(None) => ensure!(!any && queue.is_empty(), "receiving ended although mocks or requests are left"),
                            Poll::Pending => ensure!(any && queue.is_empty(), "receiving is pending although {} requests were sent ({} mocks)", queue.len(), ms.len()),
                        }
                    }
                    _ => {
                        let Some((want, f)) = queue.front().cloned() else { continue };
                        let wrong = k == 3;
                        let expect = if wrong { Req { val: want.val + 1, ..want.clone() } } else { want.clone() };
                        if wrong && next % 4 != 0 {
                            continue; // rarely: it costs a panic
                        }
                        let r = std::panic::catch_unwind(AssertUnwindSafe(|| {
                            poll_fut(Box::pin(async { assert_request_eq!(h, expect) }).as_mut()).0
                        }));
                        if r.is_err() {
                            take_panic();
                        }
                        match r {
                            Ok(Poll::Ready(s)) => {
                                ensure!(!wrong, "the assertion accepted another request");
                                queue.pop_front();
                                received += 1;
                                resp.push((s, f));
                            }
                            Ok(Poll::Pending) => return Err("the assertion waits although a request was sent".into()),
                            Err(_) => {
                                ensure!(wrong, "the assertion rejected the request that was sent");
                                queue.pop_front();
                                fs[f].ans = Ans::Closed; // its responder is gone
                            }
                        }
                    }
                }
            }
            KOp::Await(i) => {
                let k = i as usize % ms.len();
                if !queue.is_empty() || !ms[k].can || ms[k].m.is_none() {
                    continue;
                }
                let Some(mut h) = handle.take() else { continue };
                {
                    let mut f = Box::pin(h.next_request());
                    let (r, fl) = poll_fut(f.as_mut());
                    ensure!(r.is_pending(), "received {r:?}, nothing was sent");
                    // the handle is alive, though borrowed
                    let mo = &mut ms[k];
                    let m = mo.m.as_mut().unwrap();
                    let sent = m.sent(next);
                    let cf = m.call(req(next));
                    next += 1;
                    mo.can = false;
                    rem = rem.saturating_sub(1);
                    queue.push_back((sent, fs.len()));
                    fs.push(Fu { f: Some(cf), ans: Ans::None, flag: None });
                    ensure!(fl.woken(), "the awaiting handle was not woken by a request");
                    match poll_fut(f.as_mut()).0 {
                        Poll::Ready(Some(r)) => got!(r, "awaiting"),
                        r => return Err(format!("awaited {r:?} although a request was sent")),
                    }
                }
                handle = Some(h);
            }
            KOp::Respond(i) | KOp::RespondErr(i) | KOp::DropResponder(i) if !resp.is_empty() => {
                let k = i as usize % resp.len();
                let (s, f) = resp.remove(k);
                fs[f].ans = match op {
                    KOp::Respond(_) => {
                        s.send_response(next);
                        Ans::Ok(next)
                    }
                    KOp::RespondErr(_) => {
                        s.send_error(PErr(next));
                        Ans::Err(next)
                    }
                    _ => {
                        drop(s);
                        Ans::Closed
                    }
                };
                next += 1;
            }
            KOp::PollFut(i) if !fs.is_empty() => {
                let n = fs.len();
                let x = &mut fs[n - 1 - i as usize % n];
                let Some(f) = x.f.as_mut() else { continue };
                let (r, fl) = poll_fut(f.as_mut());
                match (r, &x.ans) {
                    (Poll::Pending, Ans::None) => x.flag = Some(fl),
                    (Poll::Ready(Ok(v)), Ans::Ok(w)) if v == *w => {
                        answered += 1;
                        x.f = None;
                    }
                    (Poll::Ready(Err(e)), a) if is(&e, a) => {
                        errors += 1;
                        x.f = None;
                    }
                    (r, a) => return Err(format!("request resolves to {r:?}, answered was {a:?}")),
                }
            }
            KOp::DropFut(i) if !fs.is_empty() => {
                let n = fs.len();
                fs[n - 1 - i as usize % n].f = None;
            }
            KOp::DropHandle => {
                if handle.take().is_some() {
                    for (_, f) in queue.drain(..) {
                        fs[f].ans = Ans::Closed;
                    }
                    err = None;
                    wake_all!();
                }
            }
            _ => {}
        }
        for (k, m) in ms.iter().enumerate() {
            if let (Some(x), true, true) = (&m.m, m.waiting, m.due) {
                ensure!(x.woken(&m.flag), "mock {k} waits and was not woken");
            }
        }
        for x in &fs {
            if let (Some(_), Some(f)) = (&x.f, &x.flag) {
                ensure!(x.ans == Ans::None || f.woken(), "no wakeup although the request was answered");
            }
        }
    }
    if c.misuse && handle.is_some() {
        if let Some(mo) = ms.iter_mut().find(|m| m.m.is_some() && !m.can) {
            let m = mo.m.as_mut().unwrap();
            let r = std::panic::catch_unwind(AssertUnwindSafe(|| drop(m.call(req(next)))));
            if r.is_err() {
                take_panic();
            }
            let mut h = handle.take().unwrap();
            let mut got = 0;
            while let Poll::Ready(Some(_)) = h.poll_request() {
                got += 1;
            }
            let l = queue.len();
            // the panic leaves the shared state poisoned
            std::mem::forget((h, ms));
            ensure!(r.is_err(), "a mock that had not reported ready accepted a request");
            ensure!(got == l, "{got} requests received, {l} were sent after readiness");
            cov.hit("called without readiness");
        }
        return Ok(());
    }
    cov.hit_if(waits > 0, "waited for allowance");
    cov.hit_if(errors > 0, "errors");
    cov.hit_if(clones > 0, "clones");
    cov.hit_if(handle.is_none(), "handle dropped");
    if received >= 2 && answered >= 1 {
        cov.nontrivial();
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C33",
        assumptions: &["a mock is called only after it reported ready, as it insists"],
        subs: vec![sub("history", "two or more requests received, one answered", 400_000, arb, history)],
    }]
}
