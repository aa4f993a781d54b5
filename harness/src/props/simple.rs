//! C08 timeout, C09 load shed, C12 spawn-ready.
use crate::core::*;
use crate::ensure;
use crate::probe::*;
use crate::rt::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::pin::Pin;
use std::sync::Arc;
use std::task::Poll;
use std::time::Duration;
use tower::load_shed::LoadShed;
use tower::spawn_ready::SpawnReady;
use tower::timeout::{error::Elapsed, Timeout, TimeoutLayer};
use tower_layer::Layer;
use tower_service::Service;

// ---------------------------------------------------------------- timeout
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum TOp {
    Call,
    Poll(u8),
    DropFut(u8),
    Complete(u8, bool),
    Advance(u16),
    /// parts of a millisecond
    Micros(u16),
    /// advance to the deadline of a request plus/minus milliseconds
    Edge(u8, i8),
    /// the same in microseconds
    FineEdge(u8, i16),
    Credits(u8),
    Fail,
    CloneSwap,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct TCase {
    /// in microseconds; None = the longest possible duration
    dur: Option<u32>,
    ops: Vec<TOp>,
}
fn arb_timeout() -> impl Strategy<Value = TCase> {
    let op = prop_oneof![
        6 => Just(TOp::Call),
        8 => (0u8..8).prop_map(TOp::Poll),
        1 => (0u8..8).prop_map(TOp::DropFut),
        5 => (0u8..8, any::<bool>()).prop_map(|(a, b)| TOp::Complete(a, b)),
        4 => (1u16..25).prop_map(TOp::Advance),
        1 => (1u16..3000).prop_map(TOp::Micros),
        5 => (0u8..8, -1i8..2).prop_map(|(a, b)| TOp::Edge(a, b)),
        1 => (0u8..8, -999i16..1000).prop_map(|(a, b)| TOp::FineEdge(a, b)),
        1 => (0u8..4).prop_map(TOp::Credits),
        1 => Just(TOp::CloneSwap),
    ];
    let op = prop_oneof![60 => op, 1 => Just(TOp::Fail)];
    (
        prop_oneof![
            8 => (0u32..30).prop_map(|m| Some(m * 1000)),
            2 => (30u32..5000).prop_map(|m| Some(m * 1000)),
            4 => (0u32..30_000).prop_map(Some),
            1 => (0u32..5_000_000).prop_map(Some),
            1 => Just(None)
        ],
        hist(op, 50),
    )
        .prop_map(|(dur, ops)| TCase { dur, ops })
}
fn timeout(c: &TCase, cov: &mut Cov) -> R {
    block_on(async {
        let w = World::new();
        let g = w.group(Group::default());
        let dur = c.dur.map_or(Duration::MAX, |d| Duration::from_micros(d as u64));
        let mut s = if c.ops.len() % 2 == 0 { Timeout::new(w.probe(g), dur) } else { TimeoutLayer::new(dur).layer(w.probe(g)) };
        let t0 = now();
        let us = || now().duration_since(t0).as_micros() as u64;
        // the timer's resolution is a millisecond
        let tick = |u: u64| if u == u64::MAX { u } else { (u + 999) / 1000 * 1000 };
        struct F {
            f: Pin<Box<tower::timeout::future::ResponseFuture<ProbeFut>>>,
            id: u64,
            call: usize,
            deadline: u64,
            flag: Option<Arc<Flag>>,
        }
        let mut fs: Vec<F> = vec![];
        let mut next = 1;
        let (mut elapsed, mut won_tie) = (0, 0);
        for &op in &c.ops {
            let t = us();
            match op {
                TOp::Call => {
                    w.begin_step();
                    let fail = w.lock().groups[g].fail_ready.is_some();
                    let can = { let x = w.lock(); x.groups[g].credits > 0 || x.svcs.last().map_or(false, |s| s.ready) };
                    let (r, _) = with_waker(|cx| s.poll_ready(cx));
                    match r {
                        Poll::Ready(Err(e)) => {
                            ensure!(fail && find_perr(e.as_ref()) == Some(7), "readiness error changed: {e:?}");
                            return Ok(());
                        }
                        Poll::Pending => {
                            ensure!(!can, "not ready although the inner service is");
                            continue;
                        }
                        Poll::Ready(Ok(())) => ensure!(can && !fail, "ready although the inner service is not"),
                    }
                    let n = w.ncalls();
                    let f = s.call(req(next));
                    ensure!(w.ncalls() == n + 1, "request not dispatched");
                    fs.push(F { f: Box::pin(f), id: next, call: n, deadline: c.dur.map_or(u64::MAX, |d| t + d as u64), flag: None });
                    next += 1;
                }
                TOp::Poll(i) if !fs.is_empty() => {
                    let i = i as usize % fs.len();
                    w.begin_step();
                    let st = w.lock().calls[fs[i].call].st.clone();
                    let (r, flag) = poll_fut(fs[i].f.as_mut());
                    let f = &mut fs[i];
                    cov.tr(|| format!("t={t} poll {} -> {r:?} (deadline {})", f.id, f.deadline));
                    match (st, r) {
                        (CallSt::Done(Ok(())), Poll::Ready(Ok(resp))) => {
                            ensure!(resp.req == f.id && resp.call == f.call, "wrong response");
                            if t >= f.deadline {
                                won_tie += 1;
                                cov.hit("response won at or after the deadline");
                            }
                            fs.remove(i);
                        }
                        (CallSt::Done(Err(e)), Poll::Ready(Err(b))) => {
                            ensure!(b.downcast_ref::<PErr>() == Some(&PErr(e)), "t={t}: request {}: inner error {e} was replaced by {b:?}", f.id);
                            if t >= f.deadline {
                                won_tie += 1;
                            }
                            fs.remove(i);
                        }
                        (CallSt::Waiting, Poll::Ready(Err(b))) => {
                            ensure!(b.is::<Elapsed>(), "unexpected error {b:?}");
                            ensure!(t >= f.deadline, "t={t}: request {} timed out before its deadline {}", f.id, f.deadline);
                            elapsed += 1;
                            cov.hit_if(t == f.deadline, "timed out exactly at the deadline");
                            fs.remove(i);
                        }
                        (CallSt::Waiting, Poll::Pending) => {
                            ensure!(t < tick(f.deadline), "t={t}: request {} still pending at its deadline {}", f.id, f.deadline);
                            f.flag = Some(flag);
                        }
                        (st, r) => return Err(format!("t={t}: request {}: inner state {st:?} but got {r:?}", f.id)),
                    }
                }
                TOp::DropFut(i) if !fs.is_empty() => {
                    let i = i as usize % fs.len();
                    let call = fs[i].call;
                    fs.remove(i);
                    ensure!(!w.lock().calls[call].alive, "inner future survives its dropped timeout");
                }
                TOp::Complete(i, ok) if !fs.is_empty() => {
                    let i = i as usize % fs.len();
                    if w.complete(fs[i].call, if ok { Ok(()) } else { Err(100 + fs[i].id) }) {
                        ensure!(fs[i].flag.as_ref().map_or(true, |f| f.woken()), "completion did not wake the request");
                    }
                }
                TOp::Advance(d) => advance(d as u64).await,
                TOp::Micros(d) => advance_d(Duration::from_micros(d as u64)).await,
                TOp::Edge(i, _) | TOp::FineEdge(i, _) if !fs.is_empty() => {
                    let f = &fs[i as usize % fs.len()];
                    if f.deadline != u64::MAX {
                        let e = match op { TOp::Edge(_, e) => e as i64 * 1000, TOp::FineEdge(_, e) => e as i64, _ => 0 };
                        let d = f.deadline as i64 + e - t as i64;
                        if d > 0 {
                            advance_d(Duration::from_micros(d as u64)).await;
                        }
                    }
                }
                TOp::Credits(n) => w.set_credits(g, if n == 3 { FREE } else { n as u64 }),
                TOp::Fail => w.set_fail(g, Some(7)),
                TOp::CloneSwap => s = s.clone(),
                _ => {}
            }
            for f in &fs {
                if let Some(fl) = &f.flag {
                    ensure!(fl.woken() || us() < tick(f.deadline), "t={}: request {} not woken at its deadline {}", us(), f.id, f.deadline);
                }
            }
            if let Some(v) = w.violation() {
                return Err(v);
            }
        }
        if elapsed > 0 {
            cov.hit("timed out");
        }
        if elapsed + won_tie > 0 {
            cov.nontrivial();
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- load shed
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum SOp {
    Ready(u8),
    Call(u8),
    /// a call without a readiness check since the last call, or since the clone was taken
    Unchecked(u8),
    Clone(u8),
    Drop(u8),
    Credits(u8),
    Fail(bool),
    /// one failed readiness check
    FailOnce,
    /// the inner service takes its readiness back (an endpoint went away, say)
    Revoke(u8),
    Hiccup(u8),
    Complete(u8, bool),
    Poll(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct SCase {
    credits: u8,
    ops: Vec<SOp>,
}
fn arb_shed() -> impl Strategy<Value = SCase> {
    let op = prop_oneof![
        80 => (0u8..5).prop_map(SOp::Ready),
        120 => (0u8..5).prop_map(SOp::Call),
        12 => (0u8..5).prop_map(SOp::Unchecked),
        30 => (0u8..5).prop_map(SOp::Clone),
        20 => (0u8..5).prop_map(SOp::Drop),
        60 => (0u8..4).prop_map(SOp::Credits),
        3 => any::<bool>().prop_map(SOp::Fail),
        8 => Just(SOp::FailOnce),
        8 => (0u8..5).prop_map(SOp::Revoke),
        20 => (0u8..3).prop_map(SOp::Hiccup),
        50 => (0u8..8, any::<bool>()).prop_map(|(a, b)| SOp::Complete(a, b)),
        50 => (0u8..8).prop_map(SOp::Poll),
    ];
    (0u8..4, hist(op, 50)).prop_map(|(credits, ops)| SCase { credits, ops })
}
fn shed(c: &SCase, cov: &mut Cov) -> R {
    block_on(async {
        let w = World::new();
        let cr = |n: u8| if n == 3 { FREE } else { n as u64 };
        let g = w.group(Group { credits: cr(c.credits), ..Default::default() });
        // (service, inner instance, Some(inner was ready at the last check) since last call, failed)
        struct H {
            s: LoadShed<Probe>,
            inst: usize,
            last: Option<bool>,
            failed: bool,
            // its last check said what does not hold any more, and it was not asked again
            stale: bool,
        }
        let p = w.probe(g);
        let id = p.id;
        let mut hs = vec![H { s: LoadShed::new(p), inst: id, last: None, failed: false, stale: false }];
        let mut fs: Vec<(u64, usize, Pin<Box<tower::load_shed::future::ResponseFuture<ProbeFut>>>)> = vec![];
        let mut next = 1;
        let (mut shed, mut served) = (0, 0);
        for &op in &c.ops {
            let n = hs.len();
            match op {
                SOp::Ready(i) | SOp::Call(i) | SOp::Unchecked(i) => {
                    let i = i as usize % n;
                    if hs[i].failed {
                        continue;
                    }
                    if matches!(op, SOp::Unchecked(_)) {
                        if hs[i].last.is_some() || hs[i].stale {
                            continue;
                        }
                        // no check since the last request: nothing was found ready
                        cov.hit("request without a check");
                        hs[i].last = Some(false);
                    }
                    if matches!(op, SOp::Ready(_)) || hs[i].last.is_none() {
                        w.begin_step();
                        hs[i].stale = false;
                        // what the inner service is going to answer
                        let (fail, can) = {
                            let x = w.lock();
                            let (s, gr) = (&x.svcs[hs[i].inst], &x.groups[g]);
                            (s.failed.or(gr.fail_ready).or(gr.fail_once), s.ready || gr.hiccups == 0 && gr.credits > 0)
                        };
                        let (r, _) = with_waker(|cx| hs[i].s.poll_ready(cx));
                        if let Some(x) = fail {
                            let ok = matches!(&r, Poll::Ready(Err(e)) if find_perr(e.as_ref()) == Some(x));
                            ensure!(ok, "inner readiness failure not reported: {r:?}");
                            hs[i].failed = x == 3;
                            hs[i].last = None;
                            hs[i].stale = true;
                            cov.hit("readiness error");
                            continue;
                        }
                        ensure!(matches!(r, Poll::Ready(Ok(()))), "load shed must always be ready, got {r:?}");
                        let rd = w.is_ready(hs[i].inst);
                        ensure!(rd == can, "the inner service was not asked whether it is ready");
                        if hs[i].last == Some(false) && rd {
                            cov.hit("became ready before the request");
                        }
                        hs[i].last = Some(rd);
                    }
                    if !matches!(op, SOp::Ready(_)) {
                        let ready = hs[i].last.take().unwrap();
                        let before = w.ncalls();
                        let inst_ready = w.is_ready(hs[i].inst);
                        w.begin_step();
                        let f = hs[i].s.call(req(next));
                        let after = w.ncalls();
                        if ready {
                            ensure!(after == before + 1, "inner service was ready but the request was not dispatched");
                            ensure!(w.lock().calls[before].svc == hs[i].inst && w.lock().calls[before].req == req(next), "request dispatched wrongly");
                            fs.push((next, before, Box::pin(f)));
                            served += 1;
                        } else {
                            ensure!(after == before, "a shed request was dispatched");
                            ensure!(w.is_ready(hs[i].inst) == inst_ready, "a shed request changed inner readiness");
                            let mut f = Box::pin(f);
                            let (r, _) = poll_fut(f.as_mut());
                            match r {
                                Poll::Ready(Err(e)) => ensure!(e.is::<tower::load_shed::error::Overloaded>(), "shed request got {e:?}"),
                                r => return Err(format!("shed request not answered at once: {r:?}")),
                            }
                            shed += 1;
                        }
                        next += 1;
                    }
                }
                SOp::Clone(i) if n < 5 => {
                    let i = i as usize % n;
                    if !hs[i].failed {
                        let before = w.lock().svcs.len();
                        let s = hs[i].s.clone();
                        ensure!(w.lock().svcs.len() == before + 1, "clone did not clone the inner service once");
                        cov.hit_if(hs[i].last == Some(true), "cloned while ready");
                        hs.push(H { s, inst: before, last: None, failed: false, stale: false });
                    }
                }
                SOp::Drop(i) if n > 1 => {
                    hs.remove(i as usize % n);
                }
                SOp::Credits(k) => w.set_credits(g, cr(k)),
                SOp::Fail(b) => w.set_fail(g, if b { Some(3) } else { None }),
                SOp::FailOnce => w.fail_once(g, 4),
                SOp::Revoke(i) => {
                    let i = i as usize % n;
                    w.revoke(hs[i].inst);
                    // the next request follows another check
                    hs[i].last = None;
                    hs[i].stale = true;
                }
                SOp::Hiccup(k) => w.set_hiccups(g, k as u32),
                SOp::Complete(i, ok) if !fs.is_empty() => {
                    let i = i as usize % fs.len();
                    w.complete(fs[i].1, if ok { Ok(()) } else { Err(50 + fs[i].0) });
                }
                SOp::Poll(i) if !fs.is_empty() => {
                    let i = i as usize % fs.len();
                    let st = w.lock().calls[fs[i].1].st.clone();
                    let (r, _) = poll_fut(fs[i].2.as_mut());
                    match (st, r) {
                        (CallSt::Waiting, Poll::Pending) => {}
                        (CallSt::Done(Ok(())), Poll::Ready(Ok(r))) if r.req == fs[i].0 => {
                            fs.remove(i);
                        }
                        (CallSt::Done(Err(e)), Poll::Ready(Err(b))) if b.downcast_ref::<PErr>() == Some(&PErr(e)) => {
                            fs.remove(i);
                        }
                        (st, r) => return Err(format!("request {}: inner {st:?} but outcome {r:?}", fs[i].0)),
                    }
                }
                _ => {}
            }
            if let Some(v) = w.violation() {
                return Err(v);
            }
        }
        if shed > 0 && served > 0 {
            cov.nontrivial();
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- spawn ready
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum POp {
    Ready,
    Call,
    Credits(u8),
    Fail,
    /// one failed readiness check
    FailOnce,
    Hiccup(u8),
    Settle,
    Yield,
    Complete(u8, bool),
    Poll(u8),
    Drop,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct PCase {
    credits: u8,
    ops: Vec<POp>,
}
fn arb_spawn() -> impl Strategy<Value = PCase> {
    let op = prop_oneof![
        80 => Just(POp::Ready),
        80 => Just(POp::Call),
        60 => (0u8..4).prop_map(POp::Credits),
        4 => Just(POp::Fail),
        6 => Just(POp::FailOnce),
        20 => (1u8..4).prop_map(POp::Hiccup),
        50 => Just(POp::Settle),
        30 => Just(POp::Yield),
        40 => (0u8..8, any::<bool>()).prop_map(|(a, b)| POp::Complete(a, b)),
        40 => (0u8..8).prop_map(POp::Poll),
        5 => Just(POp::Drop),
    ];
    (0u8..4, hist(op, 50)).prop_map(|(credits, ops)| PCase { credits, ops })
}
fn spawn(c: &PCase, cov: &mut Cov) -> R {
    block_on(async {
        let w = World::new();
        let cr = |n: u8| if n == 3 { FREE } else { n as u64 };
        let g = w.group(Group { credits: cr(c.credits), ..Default::default() });
        let mut s = Some(SpawnReady::new(w.probe(g)));
        let mut wait: Option<Arc<Flag>> = None;
        let mut ready = false;
        let mut dead = false;
        let mut settled = true;
        type SF = tower::spawn_ready::future::ResponseFuture<ProbeFut, PErr>;
        let mut fs: Vec<(u64, usize, Pin<Box<SF>>, Option<Arc<Flag>>)> = vec![];
        let mut next = 1;
        let (mut bg, mut served) = (0, 0);
        for &op in &c.ops {
            match op {
                POp::Ready | POp::Call if s.is_some() && !dead => {
                    w.begin_step();
                    let svc = s.as_mut().unwrap();
                    let was_bg = wait.is_some();
                    let woken = wait.as_ref().map_or(true, |f| f.woken());
                    let had = { let x = w.lock(); x.svcs[0].failed.or(x.svcs[0].blip).is_some() };
                    let (r, flag) = with_waker(|cx| svc.poll_ready(cx));
                    let (ird, ifail) = { let x = w.lock(); (x.svcs[0].ready, x.svcs[0].failed.or(x.svcs[0].blip)) };
                    if ifail.is_some() && (!had || settled) {
                        ensure!(matches!(r, Poll::Ready(Err(_))), "the inner service reported a readiness error but the caller got {r:?}");
                    }
                    match r {
                        Poll::Ready(Ok(())) => {
                            ensure!(ird && ifail.is_none(), "ready although the inner service has not reported ready");
                            ensure!(woken || !settled, "readiness available but the waiting caller was not woken");
                            ready = true;
                            wait = None;
                        }
                        Poll::Ready(Err(e)) => {
                            ensure!(ifail.is_some() && find_perr(e.as_ref()) == ifail, "readiness error {e:?}, inner {ifail:?}");
                            ensure!(woken || !settled, "readiness failed but the waiting caller was not woken");
                            dead = true;
                            ready = false;
                            wait = None;
                            cov.hit("readiness error");
                        }
                        Poll::Pending => {
                            ensure!(!ready, "readiness withdrawn");
                            if settled && was_bg {
                                ensure!(!ird && ifail.is_none(), "still pending although the inner service became ready in the background");
                            }
                            wait = Some(flag);
                            settled = false;
                        }
                    }
                    if ready && matches!(op, POp::Call) {
                        let n = w.ncalls();
                        let f = s.as_mut().unwrap().call(req(next));
                        ready = false;
                        ensure!(w.ncalls() == n + 1 && w.lock().calls[n].req == req(next), "request not dispatched exactly once");
                        fs.push((next, n, Box::pin(f), None));
                        next += 1;
                        served += 1;
                    }
                }
                POp::Credits(k) => {
                    w.set_credits(g, cr(k));
                    settled = false;
                }
                POp::Fail => {
                    w.set_fail(g, Some(9));
                    settled = false;
                }
                POp::FailOnce => {
                    w.fail_once(g, 11);
                    settled = false;
                }
                POp::Hiccup(k) => {
                    w.set_hiccups(g, k as u32);
                }
                POp::Yield => tokio::task::yield_now().await,
                POp::Settle => {
                    settle().await;
                    settled = true;
                    if wait.is_some() && s.is_some() {
                        let x = w.lock();
                        let fl = wait.as_ref().unwrap().woken();
                        if x.groups[g].fail_ready.is_some() || x.svcs[0].blip.is_some() {
                            ensure!(fl, "inner service can fail readiness, but the caller was not woken");
                        } else if x.groups[g].credits > 0 || x.svcs[0].ready {
                            ensure!(x.svcs[0].ready, "the inner service was not driven to readiness in the background");
                            ensure!(fl, "the inner service became ready in the background but the caller was not woken");
                            bg += 1;
                            drop(x);
                            cov.hit("became ready in the background");
                        }
                    }
                }
                POp::Complete(i, ok) if !fs.is_empty() => {
                    let i = i as usize % fs.len();
                    if w.complete(fs[i].1, if ok { Ok(()) } else { Err(50 + fs[i].0) }) {
                        ensure!(fs[i].3.as_ref().map_or(true, |f| f.woken()), "response not woken");
                    }
                }
                POp::Poll(i) if !fs.is_empty() => {
                    let i = i as usize % fs.len();
                    let st = w.lock().calls[fs[i].1].st.clone();
                    let (r, fl) = poll_fut(fs[i].2.as_mut());
                    match (st, r) {
                        (CallSt::Waiting, Poll::Pending) => fs[i].3 = Some(fl),
                        (CallSt::Done(Ok(())), Poll::Ready(Ok(r))) if r.req == fs[i].0 => {
                            fs.remove(i);
                        }
                        (CallSt::Done(Err(e)), Poll::Ready(Err(b))) if find_perr(b.as_ref()) == Some(e) => {
                            fs.remove(i);
                        }
                        (st, r) => return Err(format!("request {}: inner {st:?} but outcome {r:?}", fs[i].0)),
                    }
                }
                POp::Drop => {
                    if s.take().is_some() {
                        if wait.is_some() {
                            cov.hit("dropped while waiting");
                        }
                        settle().await;
                        let x = w.lock();
                        ensure!(!x.svcs[0].alive, "the inner service survives the dropped wrapper");
                        let polls = x.svcs[0].polls;
                        drop(x);
                        w.set_credits(g, FREE);
                        settle().await;
                        ensure!(w.lock().svcs[0].polls == polls, "background work continues after the wrapper was dropped");
                    }
                }
                _ => {}
            }
            if let Some(v) = w.violation() {
                return Err(v);
            }
        }
        cov.hit_if(served > 0, "served");
        if bg > 0 {
            cov.nontrivial();
        }
        Ok(())
    })
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            assumptions: &["durations and clock steps are whole microseconds, or the longest duration; between a deadline and the next whole millisecond, the timer's resolution, a request may still be pending"],
            subs: vec![sub("history", "a request timed out, or an inner outcome won at or after the deadline", 500_000, arb_timeout, timeout)],
        },
        Prop {
            id: "C09",
            assumptions: &["callers check readiness before each call, as the service contract requires"],
            subs: vec![sub("history", "at least one request shed and one served", 600_000, arb_shed, shed)],
        },
        Prop {
            id: "C12",
            assumptions: &["the wrapper is not polled again after it reported a readiness error"],
            subs: vec![sub("history", "the inner service became ready in the background", 400_000, arb_spawn, spawn)],
        },
    ]
}
