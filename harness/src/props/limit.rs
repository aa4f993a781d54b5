//! C06 concurrency limit, C07 rate limit.
use crate::core::*;
use crate::ensure;
use crate::probe::*;
use crate::rt::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::pin::Pin;
use std::sync::Arc;
use std::task::Poll;
use std::time::Duration;
use tokio::sync::Semaphore;
use tower::limit::{ConcurrencyLimit, ConcurrencyLimitLayer, GlobalConcurrencyLimitLayer, RateLimitLayer};
use tower_layer::Layer;
use tower_service::Service;

type CL = ConcurrencyLimit<Probe>;
type ClFut = tower::limit::concurrency::future::ResponseFuture<ProbeFut>;

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Op {
    Ready(u8),
    Call(u8),
    Poll(u8),
    DropFut(u8),
    Complete(u8, bool),
    Clone(u8),
    DropHandle(u8),
    /// inner readiness (only in the variant with a gated inner service)
    Credits(u8),
    Fail,
    /// poll what was woken
    Run,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct ConcCase {
    max: u8,
    /// how the services are made: 0 = one service via the local layer; 1 = two services via one local layer
    /// (independent limits); 2 = two services via one global layer; 3 = global layer and a clone of it;
    /// 4 = two services given one semaphore
    mode: u8,
    gated: bool,
    ops: Vec<Op>,
}

fn arb_conc(gated: bool) -> impl Strategy<Value = ConcCase> {
    let i = 0u8..6;
    let op = prop_oneof![
        8 => i.clone().prop_map(Op::Ready),
        8 => i.clone().prop_map(Op::Call),
        4 => (0u8..10).prop_map(Op::Poll),
        3 => (0u8..10).prop_map(Op::DropFut),
        6 => (0u8..10, any::<bool>()).prop_map(|(a, b)| Op::Complete(a, b)),
        4 => i.clone().prop_map(Op::Clone),
        3 => i.clone().prop_map(Op::DropHandle),
        (if gated { 4 } else { 0 }) => (0u8..4).prop_map(Op::Credits),
        (if gated { 1 } else { 0 }) => Just(Op::Fail),
        3 => Just(Op::Run),
    ];
    (size(0..5, 5..60), 0u8..5, hist(op, 60))
        .prop_map(move |(max, mode, ops)| ConcCase { max, mode, gated, ops })
}

struct H {
    s: CL,
    sem: usize,
    ready: bool,
    wait: Option<Arc<Flag>>,
    failed: bool,
}
struct F {
    f: Pin<Box<ClFut>>,
    sem: usize,
    call: usize,
    id: u64,
    flag: Option<Arc<Flag>>,
}

fn conc(c: &ConcCase, cov: &mut Cov) -> R {
    block_on(async {
        let w = World::new();
        let g = w.group(Group::default());
        let max = c.max as usize;
        let (a, b, shared): (CL, Option<CL>, bool) = match c.mode {
            0 => (ConcurrencyLimitLayer::new(max).layer(w.probe(g)), None, false),
            1 => {
                let l = ConcurrencyLimitLayer::new(max);
                (l.layer(w.probe(g)), Some(l.layer(w.probe(g))), false)
            }
            2 => {
                let l = GlobalConcurrencyLimitLayer::new(max);
                (l.layer(w.probe(g)), Some(l.layer(w.probe(g))), true)
            }
            3 => {
                let l = GlobalConcurrencyLimitLayer::new(max);
                let l2 = l.clone();
                (l.layer(w.probe(g)), Some(l2.layer(w.probe(g))), true)
            }
            _ => {
                let s = Arc::new(Semaphore::new(max));
                (
                    ConcurrencyLimit::with_semaphore(w.probe(g), s.clone()),
                    Some(GlobalConcurrencyLimitLayer::with_semaphore(s).layer(w.probe(g))),
                    true,
                )
            }
        };
        let mut hs: Vec<H> = vec![H { s: a, sem: 0, ready: false, wait: None, failed: false }];
        if let Some(b) = b {
            hs.push(H { s: b, sem: if shared { 0 } else { 1 }, ready: false, wait: None, failed: false });
        }
        let mut fs: Vec<F> = vec![];
        let mut next = 1u64;
        let mut saturated = false;
        let mut failed = false;
        let mut peak = 0;

        macro_rules! used {
            ($sem:expr) => {
                hs.iter().filter(|h| h.sem == $sem && h.ready).count() + fs.iter().filter(|f| f.sem == $sem).count()
            };
        }
        macro_rules! check_bound {
            () => {
                for sem in 0..2 {
                    let u = used!(sem);
                    peak = peak.max(u);
                    ensure!(u <= max, "{u} units in use with a limit of {max}");
                    if u == max {
                        saturated = true;
                    }
                }
            };
        }
        // after a release: enough waiters must have been woken
        macro_rules! check_wakes {
            () => {
                if !c.gated && !failed {
                    for sem in 0..2 {
                        let u = used!(sem);
                        let waiting = hs.iter().filter(|h| h.sem == sem && h.wait.is_some()).count();
                        let woken = hs.iter().filter(|h| h.sem == sem && h.wait.as_ref().map_or(false, |f| f.woken())).count();
                        let need = waiting.min(max.saturating_sub(u));
                        ensure!(woken >= need, "{u}/{max} units in use, {waiting} callers waiting, only {woken} woken (lost wakeup or leaked capacity)");
                    }
                }
            };
        }
        macro_rules! poll_ready {
            ($i:expr) => {{
                let i: usize = $i;
                w.begin_step();
                let (r, flag) = with_waker(|cx| hs[i].s.poll_ready(cx));
                cov.tr(|| format!("handle {i} ready -> {r:?}"));
                match r {
                    Poll::Ready(Ok(())) => {
                        hs[i].ready = true;
                        hs[i].wait = None;
                    }
                    Poll::Ready(Err(e)) => {
                        ensure!(failed && e.0 == 99, "unexpected readiness error {e:?}");
                        hs[i].failed = true;
                        hs[i].ready = false;
                        hs[i].wait = None;
                    }
                    Poll::Pending => {
                        ensure!(!hs[i].ready, "readiness withdrawn");
                        let sem = hs[i].sem;
                        if !c.gated && !failed {
                            let granted = hs
                                .iter()
                                .enumerate()
                                .filter(|(j, h)| *j != i && h.sem == sem && h.wait.as_ref().map_or(false, |f| f.woken()))
                                .count();
                            let u = used!(sem);
                            ensure!(u + granted >= max, "caller not ready although only {u} of {max} units are in use and {granted} granted to others");
                        }
                        cov.hit("had to wait");
                        hs[i].wait = Some(flag);
                    }
                }
            }};
        }
        macro_rules! poll_fut {
            ($i:expr) => {{
                let i: usize = $i;
                w.begin_step();
                let (r, flag) = poll_fut(fs[i].f.as_mut());
                match r {
                    Poll::Pending => {
                        ensure!(w.lock().calls[fs[i].call].st == CallSt::Waiting, "response of a finished call not delivered");
                        fs[i].flag = Some(flag)
                    }
                    Poll::Ready(out) => {
                        let st = w.lock().calls[fs[i].call].st.clone();
                        let ok = match &out {
                            Ok(r) => r.req == fs[i].id && r.call == fs[i].call && st == CallSt::Taken(Ok(())),
                            Err(e) => st == CallSt::Taken(Err(e.0)),
                        };
                        ensure!(ok, "request {} got a wrong outcome {out:?}", fs[i].id);
                        fs.remove(i);
                        check_wakes!();
                    }
                }
            }};
        }
        for &op in &c.ops {
            match op {
                Op::Ready(i) => {
                    let i = i as usize % hs.len();
                    if !hs[i].failed {
                        poll_ready!(i)
                    }
                }
                Op::Call(i) => {
                    let i = i as usize % hs.len();
                    if !hs[i].ready && !hs[i].failed {
                        poll_ready!(i)
                    }
                    if hs[i].ready {
                        let n = w.ncalls();
                        w.begin_step();
                        let f = hs[i].s.call(req(next));
                        hs[i].ready = false;
                        ensure!(w.ncalls() == n + 1, "call was not dispatched once");
                        fs.push(F { f: Box::pin(f), sem: hs[i].sem, call: n, id: next, flag: None });
                        next += 1;
                    }
                }
                Op::Poll(i) if !fs.is_empty() => poll_fut!(i as usize % fs.len()),
                Op::DropFut(i) if !fs.is_empty() => {
                    let i = i as usize % fs.len();
                    drop(fs.remove(i));
                    cov.hit("future dropped");
                    check_wakes!();
                }
                Op::Complete(i, ok) if !fs.is_empty() => {
                    let i = i as usize % fs.len();
                    let call = fs[i].call;
                    if w.complete(call, if ok { Ok(()) } else { Err(1000 + call as u64) }) {
                        ensure!(fs[i].flag.as_ref().map_or(true, |f| f.woken()), "response not woken");
                    }
                }
                Op::Clone(i) if hs.len() < if max > 4 { 40 } else { 7 } => {
                    let i = i as usize % hs.len();
                    if !hs[i].failed {
                        let s = hs[i].s.clone();
                        let sem = hs[i].sem;
                        cov.hit_if(hs[i].ready, "cloned a reserved handle");
                        hs.push(H { s, sem, ready: false, wait: None, failed: false });
                    }
                }
                Op::DropHandle(i) if hs.len() > 1 => {
                    let i = i as usize % hs.len();
                    cov.hit_if(hs[i].ready, "dropped a reserved handle");
                    cov.hit_if(hs[i].wait.is_some(), "dropped a waiting handle");
                    drop(hs.remove(i));
                    check_wakes!();
                }
                Op::Credits(n) => w.set_credits(g, if n == 3 { FREE } else { n as u64 }),
                Op::Fail => {
                    failed = true;
                    w.set_fail(g, Some(99));
                }
                Op::Run => {
                    for i in 0..hs.len() {
                        if hs[i].wait.as_ref().map_or(false, |f| f.woken()) {
                            poll_ready!(i);
                        }
                    }
                }
                _ => {}
            }
            if c.gated {
                // only calls in flight and reported readiness are known to hold units
            }
            check_bound!();
            if let Some(v) = w.violation() {
                return Err(v);
            }
        }
        // drain: everything completes, every handle gets exactly its turn
        if !failed && max > 0 {
            w.set_credits(g, FREE);
            for f in &fs {
                w.complete(f.call, Ok(()));
            }
            while !fs.is_empty() {
                poll_fut!(0);
            }
            while !hs.is_empty() {
                let mut done = None;
                for i in 0..hs.len() {
                    if !hs[i].ready {
                        poll_ready!(i);
                    }
                    if hs[i].ready {
                        done = Some(i);
                        break;
                    }
                }
                let Some(i) = done else { return Err(format!("{} handles can never become ready: capacity was lost", hs.len())) };
                hs.remove(i);
            }
        }
        // the full capacity is back: as many fresh reservations as the limit, no more
        if saturated && (fs_used(&c.ops)) {
            cov.nontrivial();
        }
        cov.hit_if(peak == max && max > 0, "limit reached");
        Ok(())
    })
}
fn fs_used(ops: &[Op]) -> bool {
    ops.iter().filter(|o| matches!(o, Op::Call(_))).count() >= 2
}

/// After any history, exactly `max` reservations are available again (full capacity, no more).
#[derive(Debug, Clone, Serialize, Deserialize)]
struct CapCase {
    max: u8,
    ops: Vec<Op>,
}
fn capacity(c: &CapCase, cov: &mut Cov) -> R {
    block_on(async {
        let w = World::new();
        let g = w.group(Group::default());
        let max = c.max as usize;
        let sem = Arc::new(Semaphore::new(max));
        let root = ConcurrencyLimit::with_semaphore(w.probe(g), sem.clone());
        let mut hs = vec![root.clone()];
        let mut fs: Vec<(usize, Pin<Box<ClFut>>)> = vec![];
        let mut ready = vec![false];
        let mut drops = 0;
        for &op in &c.ops {
            match op {
                Op::Ready(i) | Op::Call(i) if !hs.is_empty() => {
                    let i = i as usize % hs.len();
                    w.begin_step();
                    let (r, _) = with_waker(|cx| hs[i].poll_ready(cx));
                    ready[i] = matches!(r, Poll::Ready(Ok(())));
                    if ready[i] && matches!(op, Op::Call(_)) {
                        fs.push((w.ncalls(), Box::pin(hs[i].call(req(1)))));
                        ready[i] = false;
                    }
                }
                Op::Credits(n) => w.set_credits(g, if n == 3 { FREE } else { n as u64 }),
                Op::Complete(i, ok) if !fs.is_empty() => {
                    let i = i as usize % fs.len();
                    w.complete(fs[i].0, if ok { Ok(()) } else { Err(5) });
                    let (r, _) = poll_fut(fs[i].1.as_mut());
                    ensure!(r.is_ready(), "completed call still pending");
                    fs.remove(i);
                }
                Op::DropFut(i) if !fs.is_empty() => {
                    fs.remove(i as usize % fs.len());
                    drops += 1;
                }
                Op::Clone(_) if hs.len() < if max > 5 { 40 } else { 8 } => {
                    let c = hs.last().unwrap_or(&root).clone();
                    hs.push(c);
                    ready.push(false);
                }
                Op::DropHandle(i) if !hs.is_empty() => {
                    let i = i as usize % hs.len();
                    hs.remove(i);
                    ready.remove(i);
                    drops += 1;
                }
                _ => {}
            }
            let used = fs.len() + ready.iter().filter(|r| **r).count();
            ensure!(used <= max, "{used} units in use with a limit of {max}");
        }
        let n = fs.len();
        drop(fs);
        drop(hs);
        w.set_credits(g, FREE);
        let mut fresh: Vec<_> = (0..max + 2).map(|_| root.clone()).collect();
        let mut got = 0;
        for h in fresh.iter_mut() {
            w.begin_step();
            if with_waker(|cx| h.poll_ready(cx)).0.is_ready() {
                got += 1;
            }
        }
        ensure!(got == max, "after all handles and futures were dropped {got} reservations are possible with a limit of {max}");
        cov.hit_if(drops > 0, "dropped");
        if drops > 0 || n > 0 {
            cov.nontrivial();
        }
        Ok(())
    })
}
fn arb_cap() -> impl Strategy<Value = CapCase> {
    let i = 0u8..6;
    let op = prop_oneof![
        6 => i.clone().prop_map(Op::Ready),
        8 => i.clone().prop_map(Op::Call),
        3 => (0u8..10).prop_map(Op::DropFut),
        4 => (0u8..10, any::<bool>()).prop_map(|(a, b)| Op::Complete(a, b)),
        4 => i.clone().prop_map(Op::Clone),
        3 => i.clone().prop_map(Op::DropHandle),
        2 => (0u8..4).prop_map(Op::Credits),
    ];
    (size(0..6, 6..60), hist(op, 50)).prop_map(|(max, ops)| CapCase { max, ops })
}

// ---------------------------------------------------------------- rate limit

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum ROp {
    Ready,
    Call,
    Advance(u16),
    /// parts of a millisecond
    Micros(u16),
    /// advance to the end of the current window plus/minus milliseconds
    Edge(i8),
    /// the same in microseconds
    FineEdge(i16),
    Credits(u8),
    Fail,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct RateCase {
    num: u8,
    /// microseconds
    per: u32,
    gated: bool,
    ops: Vec<ROp>,
}
fn arb_rate() -> impl Strategy<Value = RateCase> {
    any::<bool>().prop_flat_map(|gated| {
        let op = prop_oneof![
            6 => Just(ROp::Ready),
            10 => Just(ROp::Call),
            4 => (1u16..30).prop_map(ROp::Advance),
            1 => (30u16..2000).prop_map(ROp::Advance),
            1 => (1u16..3000).prop_map(ROp::Micros),
            4 => (-1i8..2).prop_map(ROp::Edge),
            1 => (-999i16..1000).prop_map(ROp::FineEdge),
            (if gated { 3 } else { 0 }) => (0u8..4).prop_map(ROp::Credits),
            (if gated { 1 } else { 0 }) => Just(ROp::Fail),
        ];
        (size(1..6, 6..120), (prop_oneof![6 => 1u32..40, 2 => 40u32..3000, 1 => 3000u32..60000].prop_map(|m| m * 1000), prop_oneof![3 => Just(0), 1 => 1u32..1000]), hist(op, 60))
            .prop_map(move |(num, (per, part), ops)| RateCase { num, per: per - part, gated, ops })
    })
}
fn rate(c: &RateCase, cov: &mut Cov) -> R {
    block_on(async {
        let w = World::new();
        let g = w.group(Group::default());
        let per = Duration::from_micros(c.per as u64);
        let mut s = RateLimitLayer::new(c.num as u64, per).layer(w.probe(g));
        let t0 = now();
        let us = |t: tokio::time::Instant| t.duration_since(t0).as_micros() as i64;
        // the timer's resolution is a millisecond
        let tick = |u: i64| (u + 999) / 1000 * 1000;
        // model: end of the current window (None: no window open), requests left in it
        let mut until: Option<i64> = None;
        let mut rem = c.num as u64;
        let mut ready = false;
        let mut failed = false;
        let mut wait: Option<Arc<Flag>> = None;
        let mut waited_for_limit = false;
        let (mut full_windows, mut calls) = (0, 0);
        // independent bound: dispatch times; at most num per window
        let mut window_calls = 0u64;
        for &op in &c.ops {
            if failed {
                break;
            }
            let t = us(now());
            match op {
                ROp::Ready | ROp::Call => {
                    w.begin_step();
                    let inner_ready = { let x = w.lock(); x.svcs[0].ready || x.groups[g].credits > 0 };
                    let inner_fail = w.lock().groups[g].fail_ready.is_some();
                    let woken = wait.as_ref().map(|f| f.woken());
                    let (r, flag) = with_waker(|cx| s.poll_ready(cx));
                    // until the timer can have noticed the end of the window, either outcome is right
                    let either = rem == 0 && until.map_or(false, |u| t >= u && t < tick(u));
                    cov.hit_if(either, "polled between the end of the window and the timer's tick");
                    let silent = either && r.is_pending();
                    let limited = rem == 0 && until.map_or(false, |u| t < u);
                    cov.tr(|| format!("t={t} ready -> {r:?} (until {until:?} rem {rem})"));
                    if silent {
                        waited_for_limit = true;
                    } else if limited {
                        ensure!(r.is_pending(), "t={t}: ready although the quota of {} is used up until {until:?} ({r:?})", c.num);
                        cov.hit("limited");
                        waited_for_limit = true;
                    } else {
                        if rem == 0 {
                            // the wait for the limit is over: a new window starts here
                            until = Some(t + c.per as i64);
                            rem = c.num as u64;
                            window_calls = 0;
                            cov.hit("window reopened after limit");
                        }
                        if inner_fail {
                            ensure!(matches!(r, Poll::Ready(Err(PErr(44)))), "inner readiness error not reported: {r:?}");
                            failed = true;
                            ready = false;
                        } else if inner_ready {
                            ensure!(matches!(r, Poll::Ready(Ok(()))), "t={t}: not ready although quota is left or the window ended (until {until:?}, rem {rem}): {r:?}");
                            if waited_for_limit {
                                ensure!(woken != Some(false), "t={t}: the waiting caller was not woken at the end of the window");
                            }
                        } else {
                            ensure!(r.is_pending(), "ready although the inner service is not");
                        }
                        waited_for_limit = false;
                    }
                    match r {
                        Poll::Ready(Ok(())) => {
                            ready = true;
                            wait = None;
                        }
                        Poll::Pending => {
                            ensure!(!ready, "readiness withdrawn");
                            wait = Some(flag)
                        }
                        _ => {}
                    }
                    if ready && matches!(op, ROp::Call) {
                        let n = w.ncalls();
                        let f = s.call(req(calls + 1));
                        ensure!(w.ncalls() == n + 1, "request not dispatched exactly once");
                        drop(f);
                        calls += 1;
                        ready = false;
                        if until.map_or(true, |u| t >= u) {
                            until = Some(t + c.per as i64);
                            rem = c.num as u64;
                            window_calls = 0;
                        }
                        rem -= 1;
                        window_calls += 1;
                        ensure!(window_calls <= c.num as u64, "more than {} requests in one window", c.num);
                        if rem == 0 {
                            full_windows += 1;
                        }
                    }
                }
                ROp::Advance(d) => advance(d as u64).await,
                ROp::Micros(d) => advance_d(Duration::from_micros(d as u64)).await,
                ROp::Edge(_) | ROp::FineEdge(_) => {
                    if let Some(u) = until {
                        let d = u - t + match op { ROp::Edge(e) => e as i64 * 1000, ROp::FineEdge(e) => e as i64, _ => 0 };
                        if d > 0 {
                            advance_d(Duration::from_micros(d as u64)).await;
                            cov.hit("edge of the window");
                        }
                    }
                }
                ROp::Credits(n) => w.set_credits(g, if n == 3 { FREE } else { n as u64 }),
                ROp::Fail => w.set_fail(g, Some(44)),
            }
            if waited_for_limit {
                if let (Some(u), Some(f)) = (until, &wait) {
                    if us(now()) >= tick(u) {
                        ensure!(f.woken(), "t={}: window ended at {u} but the waiting caller was not woken", us(now()));
                    }
                }
            }
        }
        if let Some(v) = w.violation() {
            return Err(v);
        }
        if full_windows >= 2 && calls >= 3 {
            cov.nontrivial();
        }
        Ok(())
    })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct BoundCase {
    num: u64,
    per: (u64, u32),
    calls: u8,
    wait: u16,
}
fn arb_bound() -> impl Strategy<Value = BoundCase> {
    let num = prop_oneof![2 => prop::sample::select(vec![0u64, 1, 2, u64::MAX, u64::MAX - 1, u32::MAX as u64, 1u64 << 63]), 1 => 0u64..8, 1 => any::<u64>()];
    let per = prop_oneof![
        3 => (prop::sample::select(vec![0u64, 1, u64::MAX, u64::MAX / 2, i64::MAX as u64, i64::MAX as u64 - 100, 1 << 40, 86400 * 365 * 30, 86400 * 365 * 31]), prop::sample::select(vec![0u32, 1, 999_999_999])),
        1 => (any::<u64>(), 0u32..1_000_000_000),
        1 => (0u64..3, 0u32..1_000_000_000),
    ];
    (num, per, 0u8..8, 0u16..5000).prop_map(|(num, per, calls, wait)| BoundCase { num, per, calls, wait })
}
/// quotas and periods of every magnitude: which are accepted, and that an accepted one works
fn bounds(c: &BoundCase, cov: &mut Cov) -> R {
    block_on(async {
        let per = Duration::new(c.per.0, c.per.1);
        let w = World::new();
        let p = w.probe(w.group(Group::default()));
        let valid = c.num > 0 && per > Duration::ZERO;
        let l = or_panic(|| RateLimitLayer::new(c.num, per));
        ensure!(l.is_some() == valid, "a limit of {} requests per {per:?} was {}", c.num, if valid { "refused" } else { "accepted" });
        let Some(l) = l else {
            cov.hit("refused configuration");
            return Ok(());
        };
        let mut s = l.layer(p);
        let start = now();
        for i in 0..c.calls as u64 {
            if i == 2 {
                advance(c.wait as u64).await;
            }
            // requests at time zero and at `wait`: the window has ended for sure, or not at all
            let same = now().duration_since(start) < per;
            let sleeping = per.saturating_sub(now().duration_since(start)) > Duration::ZERO;
            let (r, _) = with_waker(|cx| s.poll_ready(cx));
            if i < c.num && (same || i < 2) {
                ensure!(matches!(r, Poll::Ready(Ok(()))), "request {i} of {} per {per:?} is held back: {r:?}", c.num);
            } else if i >= c.num && same && sleeping {
                ensure!(r.is_pending(), "request {i} of {} per {per:?} is let through: {r:?}", c.num);
                cov.hit("held back");
                break;
            }
            if r.is_pending() {
                break;
            }
            let _ = s.call(req(i));
            if i >= 2 {
                cov.nontrivial();
            }
        }
        cov.hit_if(per.as_secs() > 1 << 40, "huge period");
        cov.hit_if(c.num > 1 << 40, "huge quota");
        Ok(())
    })
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            assumptions: &["inner services obey the service contract", "a semaphore given by the user is not closed by the user"],
            subs: vec![
                sub("history", "at least two calls and the limit was reached", 300_000, || arb_conc(false), conc),
                sub("gated-inner", "at least two calls and the limit was reached", 200_000, || arb_conc(true), conc),
                sub("capacity", "a future or handle was dropped, or requests were in flight at the end", 200_000, arb_cap, capacity),
                sub("threads", "three preemptions, a dispatch and two client threads", 4_000, || super::race::arb(false, true), super::race::chk),
            ],
        },
        Prop {
            id: "C07",
            assumptions: &["periods and clock steps are whole microseconds; between the end of a window and the next whole millisecond, the timer's resolution, a caller may still be held back"],
            subs: vec![sub("history", "at least two windows were filled", 500_000, arb_rate, rate),
                sub("bounds", "three requests", 60_000, arb_bound, bounds)],
        },
    ]
}
