//! C29 call-all, C30 one-shot and ready helpers.
use crate::core::*;
use crate::ensure;
use crate::probe::*;
use futures_core::Stream;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tower::util::{CallAll, CallAllUnordered, Oneshot, ReadyOneshot};
use tower::ServiceExt;
use tower_service::Service;

// ---------------------------------------------------------------- C29

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum AOp {
    /// items the stream yields next
    Push(u8),
    End,
    Poll,
    PollWoken,
    Complete(u8, bool),
    Gate(u8),
    Fail,
    Hiccup(u8),
    Auto(u8),
    /// a spurious pending of the stream, woken at once
    StreamHiccup(u8),
    /// makes an ordered one unordered, when nothing is in flight
    Unorder,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct ACase {
    unordered: bool,
    /// `CallAll::new(..).unordered()` rather than the unordered constructor
    convert: bool,
    /// how the service is taken back at the end
    back: u8,
    closed: bool,
    ops: Vec<AOp>,
    /// completion order at the end
    order: Vec<u8>,
}
fn arb_all() -> impl Strategy<Value = ACase> {
    let op = prop_oneof![
        14 => prop_oneof![8 => 1u8..6, 1 => 6u8..60].prop_map(AOp::Push),
        2 => Just(AOp::End),
        30 => Just(AOp::Poll),
        12 => Just(AOp::PollWoken),
        30 => (0u8..12, prop::bool::weighted(0.75)).prop_map(|(a, b)| AOp::Complete(a, b)),
        12 => (0u8..6).prop_map(AOp::Gate),
        1 => Just(AOp::Fail),
        3 => (1u8..4).prop_map(AOp::Hiccup),
        4 => (0u8..6).prop_map(AOp::Auto),
        3 => (1u8..3).prop_map(AOp::StreamHiccup),
        2 => Just(AOp::Unorder),
    ];
    (
        any::<bool>(),
        any::<bool>(),
        0u8..4,
        prop::bool::weighted(0.3),
        hist(op, 70),
        prop::collection::vec(any::<u8>(), 4),
    )
        .prop_map(|(unordered, convert, back, closed, ops, order)| ACase { unordered, convert, back, closed, ops, order })
}

#[derive(Default)]
struct StSt {
    q: VecDeque<Req>,
    end: bool,
    gave_none: bool,
    after_end: bool,
    given: usize,
    hiccups: u32,
    waker: Option<Waker>,
}
#[derive(Clone, Default)]
struct Src(Arc<Mutex<StSt>>);
impl Src {
    fn edit(&self, f: impl FnOnce(&mut StSt)) {
        let wk = {
            let mut x = self.0.lock().unwrap();
            f(&mut x);
            x.waker.take()
        };
        if let Some(w) = wk {
            w.wake();
        }
    }
}
impl Stream for Src {
    type Item = Req;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Req>> {
        let mut x = self.0.lock().unwrap();
        if x.gave_none {
            x.after_end = true;
            return Poll::Ready(None);
        }
        if x.hiccups > 0 {
            x.hiccups -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if let Some(r) = x.q.pop_front() {
            x.given += 1;
            return Poll::Ready(Some(r));
        }
        if x.end {
            x.gave_none = true;
            return Poll::Ready(None);
        }
        x.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
enum All {
    O(Pin<Box<CallAll<Probe, Src>>>),
    U(Pin<Box<CallAllUnordered<Probe, Src>>>),
}
impl All {
    fn poll(&mut self) -> (Poll<Option<Result<Resp, PErr>>>, Arc<Flag>) {
        with_waker(|cx| match self {
            All::O(a) => a.as_mut().poll_next(cx),
            All::U(a) => a.as_mut().poll_next(cx),
        })
    }
}

/// What is known about the run.
struct Model {
    w: World,
    src: Src,
    id: usize,
    unordered: bool,
    yielded: Vec<bool>,
    nyield: usize,
    next: usize,
    failed: bool,
    finished: bool,
    out_of_order: usize,
    errs: usize,
}
impl Model {
    fn done(&self, k: usize) -> bool {
        matches!(self.w.lock().calls[k].st, CallSt::Done(_))
    }
    fn ncalls(&self) -> usize {
        self.w.ncalls()
    }
    fn held(&self) -> bool {
        self.src.0.lock().unwrap().given > self.ncalls() && !self.failed
    }
    /// Is there something a poll must do now?
    fn progress(&self) -> Option<&'static str> {
        let n = self.ncalls();
        if self.unordered {
            if (0..n).any(|k| self.done(k) && !self.yielded.get(k).copied().unwrap_or(false)) {
                return Some("an outcome is available");
            }
        } else if self.next < n && self.done(self.next) {
            return Some("the next outcome is available");
        }
        let s = self.src.0.lock().unwrap();
        let eof = s.gave_none || self.failed;
        if eof {
            return (self.nyield == n).then_some("every outcome was yielded");
        }
        let held = s.given > n;
        if held {
            drop(s);
            return self.w.answers(self.id).then_some("the service is ready for the next request");
        }
        (!s.q.is_empty() || s.end).then_some("the stream has something to say")
    }
    fn poll(&mut self, a: &mut All) -> Result<Option<Arc<Flag>>, String> {
        let (r, fl) = a.poll();
        let n = self.ncalls();
        self.yielded.resize(n, false);
        {
            let x = self.w.lock();
            let s = self.src.0.lock().unwrap();
            for (i, c) in x.calls.iter().enumerate() {
                ensure!(c.req == req(i as u64 + 1), "request number {} dispatched is {:?}", i, c.req);
                ensure!(c.svc == self.id, "dispatched to another instance");
            }
            ensure!(n <= s.given && s.given <= n + 1, "{} items taken from the stream, {} dispatched", s.given, n);
            ensure!(!s.after_end, "the stream was polled after its end");
        }
        match r {
            Poll::Pending => {
                if self.finished {
                    return Err("pending after the end".into());
                }
                if !fl.woken() {
                    if let Some(p) = self.progress() {
                        return Err(format!("pending, without a wakeup, although {p}"));
                    }
                }
                return Ok(Some(fl));
            }
            Poll::Ready(None) => {
                let s = self.src.0.lock().unwrap();
                ensure!(s.gave_none || self.failed, "ended before the stream");
                ensure!(self.nyield == n, "ended with {} of {} outcomes", self.nyield, n);
                ensure!(s.given == n || self.failed, "ended with a request not dispatched");
                drop(s);
                self.finished = true;
            }
            Poll::Ready(Some(x)) => {
                ensure!(!self.finished, "yields after the end");
                let readiness = matches!(&x, Err(PErr(e)) if *e == 4242);
                if readiness {
                    ensure!(!self.failed, "readiness error yielded twice");
                    ensure!(self.w.svc(self.id).failed == Some(4242), "readiness error out of nowhere");
                    self.failed = true;
                    return Ok(None);
                }
                let (k, ok) = match &x {
                    Ok(r) => (r.call, true),
                    Err(PErr(e)) => ((*e - 6000) as usize, false),
                };
                ensure!(k < n, "outcome of call {k} of {n}");
                ensure!(!self.yielded[k], "outcome of request {} yielded twice", k + 1);
                let st = self.w.lock().calls[k].st.clone();
                ensure!(st == CallSt::Taken(if ok { Ok(()) } else { Err(6000 + k as u64) }), "outcome {x:?} but the call ended as {st:?}");
                if let Ok(r) = &x {
                    ensure!(r.req == k as u64 + 1 && r.val == k as u64 + 1, "wrong response {r:?}");
                }
                if !self.unordered {
                    ensure!(k == self.next, "ordered outcomes: got request {}, expected {}", k + 1, self.next + 1);
                } else if k != (0..n).find(|i| !self.yielded[*i]).unwrap() {
                    self.out_of_order += 1;
                }
                if !ok {
                    self.errs += 1;
                }
                self.yielded[k] = true;
                self.nyield += 1;
                self.next += 1;
            }
        }
        Ok(None)
    }
}

fn call_all(c: &ACase, cov: &mut Cov) -> R {
    let w = World::new();
    let g = w.group(Group { credits: if c.closed { 0 } else { FREE }, ..Default::default() });
    let p = w.probe(g);
    let id = p.id;
    let src = Src::default();
    let mut a = match (c.unordered, c.convert) {
        (false, true) => All::O(Box::pin(p.call_all(src.clone()))),
        (false, false) => All::O(Box::pin(CallAll::new(p, src.clone()))),
        (true, true) => All::U(Box::pin(p.call_all(src.clone()).unordered())),
        (true, false) => All::U(Box::pin(CallAllUnordered::new(p, src.clone()))),
    };
    let mut m = Model {
        w: w.clone(),
        src: src.clone(),
        id,
        unordered: c.unordered,
        yielded: vec![],
        nyield: 0,
        next: 0,
        failed: false,
        finished: false,
        out_of_order: 0,
        errs: 0,
    };
    let mut flag: Option<Arc<Flag>> = None;
    let mut next = 1u64;
    let (mut waits, mut held_waits) = (0, 0);
    for &op in &c.ops {
        w.begin_step();
        match op {
            AOp::Push(n) => {
                let ended = src.0.lock().unwrap().end;
                if !ended {
                    src.edit(|s| {
                        for _ in 0..n {
                            s.q.push_back(req(next));
                            next += 1;
                        }
                    });
                }
            }
            AOp::End => src.edit(|s| s.end = true),
            AOp::Unorder => {
                if m.nyield == m.ncalls() && !m.failed && !src.0.lock().unwrap().gave_none {
                    a = match a {
                        All::O(x) => {
                            cov.hit("made unordered on the way");
                            cov.hit_if(m.held(), "made unordered with a request waiting");
                            m.unordered = true;
                            flag = None;
                            All::U(Box::pin(Pin::into_inner(x).unordered()))
                        }
                        u => u,
                    };
                }
            }
            AOp::Poll | AOp::PollWoken => {
                if matches!(op, AOp::PollWoken) && flag.as_ref().map_or(false, |f| !f.woken()) {
                    continue;
                }
                flag = m.poll(&mut a)?;
                if flag.is_some() {
                    waits += 1;
                    held_waits += m.held() as u32;
                }
            }
            AOp::Complete(i, ok) => {
                let live = w.waiting_calls();
                if let Some(&k) = live.get(i as usize % live.len().max(1)) {
                    w.complete(k, if ok { Ok(()) } else { Err(6000 + k as u64) });
                }
            }
            AOp::Gate(n) => w.set_credits(g, if n == 5 { FREE } else { n as u64 }),
            AOp::Fail => w.set_fail(g, Some(4242)),
            AOp::Hiccup(n) => w.set_hiccups(g, n as u32),
            AOp::Auto(n) => w.lock().groups[g].auto = (n == 0).then_some(Ok(())),
            AOp::StreamHiccup(n) => src.edit(|s| s.hiccups = n as u32),
        }
        if let Some(f) = &flag {
            if !f.woken() {
                if let Some(p) = m.progress() {
                    return Err(format!("no wakeup although {p}"));
                }
            }
        }
        if let Some(v) = w.violation() {
            return Err(v);
        }
    }
    // run to the end, polling only when woken
    let inner = matches!(c.back, 1 | 2) && !m.failed;
    if !inner {
        src.edit(|s| s.end = true);
        w.set_credits(g, FREE);
        let mut rounds = 0;
        while !m.finished {
            rounds += 1;
            ensure!(rounds < 60_000, "never ends");
            w.begin_step();
            if flag.as_ref().map_or(true, |f| f.woken()) {
                flag = m.poll(&mut a)?;
                if let Some(v) = w.violation() {
                    return Err(v);
                }
                continue;
            }
            let live = w.waiting_calls();
            ensure!(!live.is_empty(), "stuck: the service is ready, nothing is outstanding, the stream ended, and no wakeup");
            let k = live[c.order[rounds % c.order.len()] as usize % live.len()];
            w.complete(k, Ok(()));
        }
        ensure!(m.failed || m.ncalls() as u64 == next - 1, "{} of {} requests dispatched", m.ncalls(), next - 1);
        m.poll(&mut a)?; // stays ended
        ensure!(m.finished, "not ended any more");
    }
    // the service comes back as it was
    match (a, c.back) {
        (All::O(mut a), 1) => ensure!(a.as_mut().take_service().id == id, "another service came back"),
        (All::U(mut a), 1) => ensure!(a.as_mut().take_service().id == id, "another service came back"),
        (All::O(a), 2) => ensure!((*Pin::into_inner(a)).into_inner().id == id, "another service came back"),
        (All::U(a), 2) => ensure!((*Pin::into_inner(a)).into_inner().id == id, "another service came back"),
        (a, _) => drop(a),
    }
    ensure!(w.live_svcs() == 0 && w.live_futs() == 0, "the service or a request survives");
    cov.hit_if(waits > 0, "waited");
    cov.hit_if(held_waits > 0, "waited for the service with a request in hand");
    cov.hit_if(m.failed, "readiness error");
    cov.hit_if(m.failed && m.nyield > 0, "outcomes around a readiness error");
    cov.hit_if(m.out_of_order > 0, "out of order");
    cov.hit_if(m.errs > 0, "failed requests");
    if m.nyield >= 3 && waits > 0 {
        cov.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C30

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum HOp {
    Poll,
    PollWoken,
    Gate(u8),
    Fail,
    Hiccup(u8),
    Auto(u8),
    Complete(u8, bool),
    /// start a helper: 0 ready(), 1 ready_oneshot(), 2 oneshot(); nothing while one runs
    Start(u8),
    Drop,
    /// use the service that came back
    Call,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct HCase {
    closed: bool,
    ops: Vec<HOp>,
}
fn arb_helpers() -> impl Strategy<Value = HCase> {
    let op = prop_oneof![
        24 => Just(HOp::Poll),
        12 => Just(HOp::PollWoken),
        14 => (0u8..5).prop_map(HOp::Gate),
        1 => Just(HOp::Fail),
        6 => (1u8..4).prop_map(HOp::Hiccup),
        4 => (0u8..6).prop_map(HOp::Auto),
        20 => (0u8..4, prop::bool::weighted(0.7)).prop_map(|(a, b)| HOp::Complete(a, b)),
        24 => (0u8..6).prop_map(HOp::Start),
        3 => Just(HOp::Drop),
        12 => Just(HOp::Call),
    ];
    (prop::bool::weighted(0.6), hist(op, 50)).prop_map(|(closed, ops)| HCase { closed, ops })
}
enum Run {
    None,
    Ro(Pin<Box<ReadyOneshot<Probe, Req>>>),
    One { f: Pin<Box<Oneshot<Probe, Req>>>, svc: usize, id: u64, call: Option<usize> },
}
fn helpers(c: &HCase, cov: &mut Cov) -> R {
    let w = World::new();
    let g = w.group(Group { credits: if c.closed { 0 } else { FREE }, ..Default::default() });
    // the service at hand; one is made anew after a helper consumed it
    let mut own: Option<Box<Probe>> = Some(Box::new(w.probe(g)));
    let mut run = Run::None;
    let mut flag: Option<Arc<Flag>> = None;
    let mut usable = false; // the service at hand was handed back ready
    let mut next = 1u64;
    let mut expected_calls = 0usize;
    let (mut waits, mut done, mut dropped_early, mut failures) = (0, 0, 0, 0);
    let mut i = 0;
    while i < c.ops.len() {
        let op = c.ops[i];
        i += 1;
        w.begin_step();
        if own.is_none() && matches!(run, Run::None) {
            own = Some(Box::new(w.probe(g)));
            usable = false;
        }
        // after a failure the instance is of no use
        if let (Some(p), Run::None) = (&own, &run) {
            if w.svc(p.id).failed.is_some() {
                w.set_fail(g, None);
                own = Some(Box::new(w.probe(g)));
                usable = false;
            }
        }
        match op {
            HOp::Gate(n) => w.set_credits(g, if n == 4 { FREE } else { n as u64 }),
            HOp::Fail => {
                w.set_fail(g, Some(4242));
                usable = false;
            }
            HOp::Hiccup(n) => w.set_hiccups(g, n as u32),
            HOp::Auto(n) => w.lock().groups[g].auto = match n { 0 => Some(Ok(())), 1 => Some(Err(4343)), _ => None },
            HOp::Complete(k, ok) => {
                let live = w.waiting_calls();
                if let Some(&k) = live.get(k as usize % live.len().max(1)) {
                    w.complete(k, if ok { Ok(()) } else { Err(6000 + k as u64) });
                }
            }
            HOp::Start(k) if matches!(run, Run::None) => match k {
                0 | 3 => {
                    // `ready()` borrows the service: the rest of its life happens in this block
                    let p: &mut Probe = own.as_mut().unwrap();
                    let id = p.id;
                    let at = p as *const Probe;
                    let mut f = p.ready();
                    let mut fl: Option<Arc<Flag>> = None;
                    while i < c.ops.len() {
                        let op = c.ops[i];
                        i += 1;
                        w.begin_step();
                        match op {
                            HOp::Gate(n) => w.set_credits(g, if n == 4 { FREE } else { n as u64 }),
                            HOp::Fail => w.set_fail(g, Some(4242)),
                            HOp::Hiccup(n) => w.set_hiccups(g, n as u32),
                            HOp::Poll | HOp::PollWoken | HOp::Call => {
                                if matches!(op, HOp::PollWoken) && fl.as_ref().map_or(false, |f| !f.woken()) {
                                    continue;
                                }
                                let (r, x) = poll_fut(Pin::new(&mut f));
                                match r {
                                    Poll::Pending => {
                                        ensure!(x.woken() || !w.answers(id), "ready() pending, without a wakeup, although the service is ready");
                                        fl = Some(x);
                                        waits += 1;
                                    }
                                    Poll::Ready(Ok(s)) => {
                                        ensure!(s.id == id && std::ptr::eq(s as *const Probe, at), "ready() handed back another service");
                                        ensure!(w.is_ready(id), "ready() completed although the service is not ready");
                                        usable = true;
                                        done += 1;
                                        break;
                                    }
                                    Poll::Ready(Err(PErr(e))) => {
                                        ensure!(w.svc(id).failed == Some(e), "ready() failed with {e}, the service did not");
                                        usable = false;
                                        failures += 1;
                                        break;
                                    }
                                }
                            }
                            HOp::Drop => {
                                dropped_early += 1;
                                break;
                            }
                            _ => {}
                        }
                        if let Some(x) = &fl {
                            ensure!(x.woken() || !w.answers(id), "ready(): no wakeup although the service is ready");
                        }
                    }
                }
                1 | 4 => {
                    let p = own.take().unwrap();
                    let f = if k == 1 { (*p).ready_oneshot() } else { ReadyOneshot::new(*p) };
                    run = Run::Ro(Box::pin(f));
                    flag = None;
                }
                _ => {
                    let p = own.take().unwrap();
                    let svc = p.id;
                    let f = if k == 2 { (*p).oneshot(req(next)) } else { Oneshot::new(*p, req(next)) };
                    run = Run::One { f: Box::pin(f), svc, id: next, call: None };
                    next += 1;
                    flag = None;
                    ensure!(w.ncalls() == expected_calls, "dispatched before the first poll");
                }
            },
            HOp::Drop => {
                match std::mem::replace(&mut run, Run::None) {
                    Run::None => {}
                    Run::Ro(f) => {
                        drop(f);
                        dropped_early += 1;
                        ensure!(w.live_svcs() == 0, "a dropped ready_oneshot keeps its service");
                    }
                    Run::One { f, svc, call, .. } => {
                        drop(f);
                        dropped_early += 1;
                        ensure!(!w.svc(svc).alive, "a dropped oneshot keeps its service");
                        if let Some(k) = call {
                            ensure!(!w.lock().calls[k].alive, "a dropped oneshot keeps its request");
                        }
                    }
                }
                flag = None;
            }
            HOp::Call if usable => {
                if let (Some(p), Run::None) = (own.as_mut(), &run) {
                    drop(p.call(req(next)));
                    next += 1;
                    expected_calls += 1;
                    usable = false;
                }
            }
            HOp::Poll | HOp::PollWoken => {
                if matches!(op, HOp::PollWoken) && flag.as_ref().map_or(false, |f| !f.woken()) {
                    continue;
                }
                let mut end = false;
                match &mut run {
                    Run::None => {}
                    Run::Ro(f) => {
                        let id = (w.lock().svcs.len()) - 1;
                        let (r, fl) = poll_fut(f.as_mut());
                        match r {
                            Poll::Pending => {
                                ensure!(fl.woken() || !w.answers(id), "ready_oneshot() pending, without a wakeup, although the service is ready");
                                flag = Some(fl);
                                waits += 1;
                            }
                            Poll::Ready(Ok(s)) => {
                                ensure!(w.is_ready(s.id) && w.svc(s.id).alive, "ready_oneshot() completed although its service is not ready");
                                own = Some(Box::new(s));
                                usable = true;
                                done += 1;
                                end = true;
                            }
                            Poll::Ready(Err(PErr(e))) => {
                                ensure!(w.lock().svcs.iter().any(|s| s.alive && s.failed == Some(e)), "ready_oneshot() failed with {e}, the service did not");
                                failures += 1;
                                end = true;
                            }
                        }
                    }
                    Run::One { f, svc, id, call } => {
                        let could = w.answers(*svc);
                        let (r, fl) = poll_fut(f.as_mut());
                        let n = w.ncalls();
                        if call.is_none() && n > expected_calls {
                            ensure!(n == expected_calls + 1, "oneshot dispatched {} times", n - expected_calls);
                            let x = w.lock().calls[n - 1].clone();
                            ensure!(x.req == req(*id) && x.svc == *svc, "oneshot dispatched {:?} to {}", x.req, x.svc);
                            *call = Some(n - 1);
                            expected_calls = n;
                        }
                        ensure!(n == expected_calls, "oneshot dispatched again");
                        if call.is_some() {
                            ensure!(!w.svc(*svc).alive, "oneshot keeps its service after dispatching");
                        }
                        match r {
                            Poll::Pending => {
                                waits += 1;
                                if let Some(k) = *call {
                                    ensure!(matches!(w.lock().calls[k].st, CallSt::Waiting), "oneshot pending although its request was answered");
                                } else {
                                    ensure!(fl.woken() || !could, "oneshot pending, without a wakeup, although the service is ready");
                                }
                                flag = Some(fl);
                            }
                            Poll::Ready(Ok(x)) => {
                                ensure!(Some(x.call) == *call && x.req == *id, "oneshot answered with {x:?}");
                                done += 1;
                                end = true;
                            }
                            Poll::Ready(Err(PErr(e))) => {
                                match *call {
                                    Some(k) => ensure!(w.lock().calls[k].st == CallSt::Taken(Err(e)), "oneshot failed with {e}, its request did not"),
                                    None => ensure!(w.svc(*svc).failed == Some(e), "oneshot failed with {e}, its service did not"),
                                }
                                failures += 1;
                                end = true;
                            }
                        }
                    }
                }
                if end {
                    run = Run::None;
                    flag = None;
                }
            }
            _ => {}
        }
        if let Some(f) = &flag {
            let p = match &run {
                Run::Ro(_) => {
                    let last = w.lock().svcs.len() - 1;
                    w.answers(last)
                }
                Run::One { svc, call: None, .. } => w.answers(*svc),
                Run::One { call: Some(k), .. } => matches!(w.lock().calls[*k].st, CallSt::Done(_)),
                _ => false,
            };
            ensure!(f.woken() || !p, "no wakeup although the helper can go on");
        }
        ensure!(w.ncalls() == expected_calls, "{} requests dispatched, {} sent", w.ncalls(), expected_calls);
        if let Some(v) = w.violation() {
            return Err(v);
        }
    }
    drop(run);
    drop(own);
    ensure!(w.live_svcs() == 0 && w.live_futs() == 0, "the service or a request survives");
    cov.hit_if(waits > 0, "waited");
    cov.hit_if(failures > 0, "failed");
    cov.hit_if(dropped_early > 0, "dropped before its end");
    if waits > 0 && done >= 2 {
        cov.nontrivial();
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C29",
            assumptions: &["the stream, once ended, is not polled again by the caller's doing; the caller polls from one task"],
            subs: vec![sub("history", "waited at least once and yielded three or more outcomes", 100_000, arb_all, call_all)],
        },
        Prop {
            id: "C30",
            assumptions: &[],
            subs: vec![sub("history", "waited at least once and two helpers completed", 500_000, arb_helpers, helpers)],
        },
    ]
}
