//! C16 hedge.
use crate::core::*;
use crate::ensure;
use crate::probe::*;
use crate::rt::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use std::time::Duration;
use tower::hedge::{Hedge, Policy};
use tower_service::Service;

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Op {
    Send,
    Poll(u8),
    Run,
    DropFut(u8),
    Complete(u8, bool),
    Advance(u16),
    /// parts of a millisecond
    Micros(u16),
    /// days, plus microseconds
    Idle(u16, u32),
    /// to the hedging time of a request, plus an offset
    Edge(u8, i8),
    /// to the next rotation, plus an offset
    Period(i8),
    /// send and complete after some time, polling in between
    Whole(u16, bool),
    Credits(u8),
    Hiccup(u8),
    Auto(Option<bool>),
    Fail,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct HCase {
    min_points: u8,
    /// in thousandths
    percentile: u16,
    /// in microseconds
    period: u32,
    mock: Option<Vec<u16>>,
    /// requests with id % m == r cannot be cloned / hedged
    no_clone: Option<(u8, u8)>,
    no_retry: Option<(u8, u8)>,
    ops: Vec<Op>,
}
fn arb() -> impl Strategy<Value = HCase> {
    let op = prop_oneof![
        25 => Just(Op::Send),
        30 => (0u8..8).prop_map(Op::Poll),
        25 => Just(Op::Run),
        4 => (0u8..8).prop_map(Op::DropFut),
        30 => (0u8..8, prop::bool::weighted(0.8)).prop_map(|(a, b)| Op::Complete(a, b)),
        20 => (1u16..40).prop_map(Op::Advance),
        5 => (1u16..3000).prop_map(Op::Micros),
        1 => (0u16..400, prop_oneof![Just(0u32), 0u32..4_000_000]).prop_map(|(a, b)| Op::Idle(a, b)),
        15 => (0u8..8, -1i8..3).prop_map(|(a, b)| Op::Edge(a, b)),
        6 => (-1i8..3).prop_map(Op::Period),
        15 => (0u16..60, prop::bool::weighted(0.8)).prop_map(|(a, b)| Op::Whole(a, b)),
        8 => (0u8..5).prop_map(Op::Credits),
        3 => (1u8..3).prop_map(Op::Hiccup),
        4 => prop::option::of(prop::bool::weighted(0.7)).prop_map(Op::Auto),
        1 => Just(Op::Fail),
    ];
    let some = || prop_oneof![2 => Just(None), 1 => (1u8..4).prop_flat_map(|m| (Just(m), 0..m)).prop_map(Some)];
    (
        prop_oneof![2 => Just(0u8), 2 => Just(1u8), 1 => 2u8..6],
        prop_oneof![3 => prop::sample::select(vec![0u16, 500, 900, 990, 1000]), 1 => 0u16..1001],
        prop_oneof![10 => 20_000u32..100_000, 10 => 100_000u32..1_000_000, 2 => 1u32..3000],
        prop::option::of(prop::collection::vec(prop_oneof![4 => 0u16..60, 1 => 0u16..5000], 1..12)),
        some(),
        some(),
        hist(op, 60),
    )
        .prop_map(|(min_points, percentile, period, mock, no_clone, no_retry, ops)| HCase { min_points, percentile, period, mock, no_clone, no_retry, ops })
}
/// few requests around long idle times, with short periods
fn arb_idle() -> impl Strategy<Value = HCase> {
    let op = prop_oneof![
        4 => Just(Op::Send),
        4 => Just(Op::Run),
        4 => (0u16..6, Just(true)).prop_map(|(a, b)| Op::Whole(a, b)),
        3 => (1u16..4000).prop_map(Op::Micros),
        4 => (0u16..200, prop_oneof![Just(0u32), 0u32..5000]).prop_map(|(a, b)| Op::Idle(a, b)),
        2 => (0u8..8, -1i8..3).prop_map(|(a, b)| Op::Edge(a, b)),
    ];
    (0u8..3, prop::sample::select(vec![0u16, 500, 1000]), 1u32..5000, prop::option::of(prop::collection::vec(0u16..5, 1..4)), hist(op, 12))
        .prop_map(|(min_points, percentile, period, mock, ops)| HCase { min_points, percentile, period, mock, no_clone: None, no_retry: None, ops })
}
#[derive(Clone)]
struct Pol {
    c: Arc<HCase>,
    log: Arc<Mutex<Vec<(bool, u64, u64)>>>,
}
fn hits(x: Option<(u8, u8)>, id: u64) -> bool {
    x.map_or(false, |(m, r)| id % m as u64 == r as u64)
}
impl Policy<Req> for Pol {
    fn clone_request(&self, r: &Req) -> Option<Req> {
        self.log.lock().unwrap().push((true, r.id, r.val));
        (!hits(self.c.no_clone, r.id)).then(|| Req { val: r.val + 1000, ..r.clone() })
    }
    fn can_retry(&self, r: &Req) -> bool {
        self.log.lock().unwrap().push((false, r.id, r.val));
        !hits(self.c.no_retry, r.id)
    }
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum B {
    None,
    Delaying(u64),
    Waiting,
    Never,
    Called(usize),
}
struct F {
    f: Pin<Box<<Hedge<Probe, Pol> as Service<Req>>::Future>>,
    id: u64,
    a: usize,
    b: B,
    flag: Option<Arc<Flag>>,
    hedge_at: u64,
}

fn hedge(c: &HCase, cov: &mut Cov) -> R {
    block_on(async {
        let w = World::new();
        let g = w.group(Group::default());
        let log = Arc::new(Mutex::new(vec![]));
        let pol = Pol { c: Arc::new(c.clone()), log: log.clone() };
        let q = c.percentile as f32 / 1000.0;
        // microseconds
        let period = c.period as u64;
        let dp = Duration::from_micros(period);
        let t0 = now();
        let mut h = match &c.mock {
            None => Hedge::new(w.probe(g), pol, c.min_points as u64, q, dp),
            Some(m) => Hedge::new_with_mock_latencies(w.probe(g), pol, c.min_points as u64, q, dp, &m.iter().map(|x| *x as u64).collect::<Vec<_>>()),
        };
        let us = || now().duration_since(t0).as_micros() as u64;
        // the timer's resolution is a millisecond
        let tick = |u: u64| (u + 999) / 1000 * 1000;
        // latencies by the period in which they were recorded, shifted by one (0: before the start)
        let mut recs: Vec<(u64, u64)> = c.mock.iter().flatten().map(|x| (0, *x as u64)).collect();
        let hist = |recs: &Vec<(u64, u64)>, t: u64| {
            let mut h = hdrhistogram::Histogram::<u64>::new(3).unwrap();
            for (p, l) in recs {
                if *p == t / period {
                    h.record(*l).unwrap();
                }
            }
            h
        };
        let mut started: std::collections::BTreeMap<usize, u64> = Default::default();
        let mut fs: Vec<F> = vec![];
        let mut next = 1u64;
        let (mut hedged, mut hedge_won, mut rotated) = (0, 0, 0);
        macro_rules! poll_one {
            ($i:expr) => {{
                let i: usize = $i;
                w.begin_step();
                let t = us();
                let (nc, credits, hiccups, fail) = { let x = w.lock(); (x.calls.len(), x.groups[g].credits, x.groups[g].hiccups, x.groups[g].fail_ready) };
                let done = |ci: usize| w.lock().calls[ci].st != CallSt::Waiting;
                let can = done(fs[i].a)
                    || match fs[i].b {
                        B::None | B::Never => false,
                        B::Delaying(u) => t >= tick(u),
                        B::Waiting => credits > 0 || fail.is_some(),
                        B::Called(b) => done(b),
                    };
                if can {
                    ensure!(fs[i].flag.as_ref().map_or(true, |f| f.woken()), "t={t}: request {} (hedge {:?}) can progress but its task was not woken", fs[i].id, fs[i].b);
                }
                let adone = done(fs[i].a);
                log.lock().unwrap().clear();
                let (r, flag) = poll_fut(fs[i].f.as_mut());
                let f = &mut fs[i];
                f.flag = Some(flag);
                cov.tr(|| format!("t={t} request {} primary done {adone} hedge {:?}: poll -> {r:?}; {:?}", f.id, f.b, log.lock().unwrap()));
                let mut readyfail = None;
                let (mut gone, mut plog) = (nc, log.lock().unwrap().clone());
                if !adone {
                    if let B::Delaying(u) = f.b {
                        let early = t >= u && (!plog.is_empty() || matches!(&r, Poll::Ready(Err(e)) if fail.is_some() && find_perr(e.as_ref()) == fail));
                        if t >= tick(u) || early {
                            f.b = B::Waiting;
                        }
                    }
                    if f.b == B::Waiting {
                        if let Some(e) = fail {
                            readyfail = Some(e);
                        } else if hiccups == 0 && credits > 0 {
                            ensure!(plog.pop() == Some((false, f.id, f.id + 1000)), "policy not asked whether to hedge request {}", f.id);
                            if hits(c.no_retry, f.id) {
                                f.b = B::Never;
                                cov.hit("policy refused the hedge");
                            } else {
                                let x = w.lock();
                                let Some(call) = x.calls.get(nc) else { return Err(format!("t={t}: request {} not hedged although its latency percentile has elapsed", f.id)) };
                                ensure!(call.req == (Req { id: f.id, val: f.id + 1000, hold: Hold::default() }), "hedge dispatched {:?}", call.req);
                                f.b = B::Called(nc);
                                started.insert(nc, t);
                                gone += 1;
                                hedged += 1;
                                cov.hit_if(t > f.hedge_at, "hedge delayed");
                            }
                        } else {
                            cov.hit("hedge waited for readiness");
                        }
                    }
                }
                ensure!(plog.is_empty(), "unexpected use of the policy {plog:?}");
                ensure!(w.ncalls() == gone, "t={t}: {} requests dispatched for request {}, expected {} (hedge state {:?})", w.ncalls() - nc, f.id, gone - nc, f.b);
                let st = |ci: usize| w.lock().calls[ci].st.clone();
                let taken = |ci: usize| match st(ci) { CallSt::Taken(r) => Some(r), _ => None };
                let bdone = match f.b { B::Called(b) => taken(b).map(|r| (b, r)), _ => None };
                let got = match (&r, taken(f.a), bdone) {
                    (Poll::Pending, None, None) => {
                        ensure!(readyfail.is_none(), "readiness failure of the hedge not reported");
                        ensure!(st(f.a) == CallSt::Waiting, "primary response not delivered");
                        if let B::Called(b) = f.b {
                            ensure!(st(b) == CallSt::Waiting, "hedge response not delivered");
                        }
                        None
                    }
                    (Poll::Ready(Ok(x)), a, b) => {
                        ensure!((a == Some(Ok(())) && x.call == f.a) || b.map_or(false, |(bi, o)| o == Ok(()) && x.call == bi), "request {} got {x:?}", f.id);
                        ensure!(x.req == f.id && x.val == if x.call == f.a { f.id } else { f.id + 1000 }, "wrong response {x:?} for request {}", f.id);
                        Some(Some(x.call))
                    }
                    (Poll::Ready(Err(e)), a, b) => {
                        let p = find_perr(e.as_ref());
                        ensure!(p.is_some() && (a == p.map(Err) || b.map(|x| x.1) == p.map(Err) || readyfail == p), "request {} failed with {e:?}", f.id);
                        Some(None)
                    }
                    (r, a, b) => return Err(format!("request {}: {r:?} with outcomes {a:?} {b:?}", f.id)),
                };
                if let Some(ok) = got {
                    if let Some(ci) = ok {
                        recs.push((t / period + 1, (t - started[&ci] + 999) / 1000));
                        if ci != f.a {
                            hedge_won += 1;
                        }
                    }
                    let f = fs.remove(i);
                    let id = f.id;
                    drop(f);
                    ensure!(!w.lock().calls.iter().any(|c| c.req.id == id && c.alive), "the slower attempt of request {id} was not dropped");
                    true
                } else {
                    false
                }
            }};
        }
        macro_rules! send {
            () => {{
                w.begin_step();
                let t = us();
                let (can, fail) = { let x = w.lock(); (x.groups[g].credits > 0 && x.groups[g].hiccups == 0, x.groups[g].fail_ready.is_some()) };
                let (r, _) = with_waker(|cx| h.poll_ready(cx));
                match r {
                    Poll::Ready(Err(e)) => {
                        ensure!(fail && find_perr(e.as_ref()) == Some(77), "readiness error {e:?}");
                        false
                    }
                    Poll::Pending => {
                        ensure!(!can && !fail, "not ready although the service is");
                        false
                    }
                    Poll::Ready(Ok(())) => {
                        let nc = w.ncalls();
                        log.lock().unwrap().clear();
                        let f = h.call(req(next));
                        let id = next;
                        next += 1;
                        ensure!(*log.lock().unwrap() == vec![(true, id, id)], "policy not asked for a clone of request {id}");
                        ensure!(w.ncalls() == nc + 1 && w.lock().calls[nc].req == req(id), "request {id} not issued at once");
                        started.insert(nc, t);
                        let hi = hist(&recs, t);
                        let delay = hi.value_at_quantile(q as f64);
                        if hi.len() > 0 && t >= period {
                            rotated += 1;
                        }
                        let b = if hits(c.no_clone, id) {
                            B::None
                        } else if hi.len() < c.min_points as u64 {
                            cov.hit("too few data points");
                            B::None
                        } else {
                            B::Delaying(t + delay * 1000)
                        };
                        cov.tr(|| format!("t={t} send {id}: hedge {b:?} ({} data points)", hi.len()));
                        fs.push(F { f: Box::pin(f), id, a: nc, b, flag: None, hedge_at: tick(t + delay * 1000) });
                        true
                    }
                }
            }};
        }
        for &op in &c.ops {
            match op {
                Op::Send => {
                    send!();
                }
                Op::Whole(d, ok) => {
                    let n = w.ncalls();
                    if send!() {
                        let l = fs.len() - 1;
                        if !poll_one!(l) {
                            advance(d as u64).await;
                            w.complete(n, if ok { Ok(()) } else { Err(3000) });
                            if !poll_one!(l) {
                                return Err("finished request not delivered".into());
                            }
                        }
                    }
                }
                Op::Poll(i) if !fs.is_empty() => {
                    poll_one!(i as usize % fs.len());
                }
                Op::Run => {
                    let mut i = 0;
                    while i < fs.len() {
                        if fs[i].flag.as_ref().map_or(true, |f| f.woken()) && poll_one!(i) {
                            continue;
                        }
                        i += 1;
                    }
                }
                Op::DropFut(i) if !fs.is_empty() => {
                    let f = fs.remove(i as usize % fs.len());
                    let id = f.id;
                    drop(f);
                    ensure!(!w.lock().calls.iter().any(|c| c.req.id == id && c.alive), "an attempt survives its dropped future");
                }
                Op::Complete(i, ok) => {
                    let ws = w.waiting_calls();
                    if !ws.is_empty() {
                        let ci = ws[i as usize % ws.len()];
                        w.complete(ci, if ok { Ok(()) } else { Err(2000 + ci as u64) });
                    }
                }
                Op::Advance(d) => advance(d as u64).await,
                Op::Micros(d) => advance_d(Duration::from_micros(d as u64)).await,
                Op::Idle(d, part) => {
                    // once around a counter of 32 bits, or so, or some days; a year is within the timer's range
                    let whole = if d < 200 && period <= 5000 { ((1u64 << 32) - 2 + d as u64 % 5) * period } else { d as u64 * 86400_000_000 };
                    if us() + whole < 365 * 86400_000_000 {
                        advance_d(Duration::from_micros(whole + part as u64)).await;
                        cov.hit_if(whole / period > u32::MAX as u64, "more than 2^32 periods idle");
                    }
                }
                Op::Edge(i, o) if !fs.is_empty() => {
                    let i = i as usize % fs.len();
                    if let B::Delaying(u) = fs[i].b {
                        let t = (u as i64 + o as i64 * 1000) - us() as i64;
                        if t > 0 {
                            advance_d(Duration::from_micros(t as u64)).await;
                        }
                    }
                }
                Op::Period(o) => {
                    let t = ((us() / period + 1) * period) as i64 + o as i64 * 1000 - us() as i64;
                    if t > 0 {
                        advance_d(Duration::from_micros(t as u64)).await;
                    }
                }
                Op::Credits(k) => w.set_credits(g, if k == 4 { FREE } else { k as u64 }),
                Op::Hiccup(k) => w.set_hiccups(g, k as u32),
                Op::Auto(a) => w.lock().groups[g].auto = a.map(|ok| if ok { Ok(()) } else { Err(1234) }),
                Op::Fail => w.set_fail(g, Some(77)),
                _ => {}
            }
            if let Some(v) = w.violation() {
                return Err(v);
            }
        }
        cov.hit_if(hedged > 0, "hedged");
        cov.hit_if(hedge_won > 0, "hedge won");
        cov.hit_if(rotated > 0, "used latencies of a rotated period");
        if hedged > 0 && (hedge_won > 0 || rotated > 0) {
            cov.nontrivial();
        }
        Ok(())
    })
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        assumptions: &["periods of whole microseconds; the percentile over latencies is computed by the hdrhistogram crate"],
        subs: vec![sub("history", "a hedge was issued, and won or used latencies recorded in an earlier period", 300_000, arb, hedge),
            sub("idle", "a hedge was issued, and won or used latencies recorded in an earlier period", 60_000, arb_idle, hedge)],
    }]
}
