//! C13 retry, C14 retry budget, C15 backoff.
use crate::core::*;
use crate::ensure;
use crate::probe::*;
use crate::rt::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use tower::retry::backoff::{Backoff, ExponentialBackoffMaker, MakeBackoff};
use tower::retry::budget::{Budget, TpsBudget};
use tower::retry::{Policy, Retry, RetryLayer};
use tower::util::rng::Rng;
use tower_layer::Layer;
use tower_service::Service;

// ---------------------------------------------------------------- retry
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Delay {
    Now,
    Sleep(u16),
    /// opened by the case
    Gate,
    /// pending `n` times with an immediate wake
    Yield(u8),
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Rewrite {
    Keep,
    Ok(u8),
    Err(u8),
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
struct Decision {
    retry: Option<Delay>,
    add: u8,
    rewrite: Rewrite,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Script {
    /// decision of the k-th consultation; afterwards: stop
    decisions: Vec<Decision>,
    /// the k-th clone is refused
    refuse: Option<u8>,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Op {
    Send(u8),
    Poll(u8),
    Run,
    DropFut(u8),
    Complete(u8, bool),
    Advance(u16),
    Open(u8),
    Credits(u8),
    Hiccup(u8),
    Auto(Option<bool>),
    CloneHandle,
    Fail,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct RetryCase {
    scripts: Vec<Script>,
    clone_add: u8,
    ops: Vec<Op>,
}
fn arb_retry() -> impl Strategy<Value = RetryCase> {
    let delay = prop_oneof![4 => Just(Delay::Now), 3 => (0u16..20).prop_map(Delay::Sleep), 3 => Just(Delay::Gate), 2 => (1u8..4).prop_map(Delay::Yield)];
    let rewrite = prop_oneof![6 => Just(Rewrite::Keep), 1 => any::<u8>().prop_map(Rewrite::Ok), 1 => any::<u8>().prop_map(Rewrite::Err)];
    let decision = (prop::option::weighted(0.8, delay), prop_oneof![2 => Just(0u8), 1 => 1u8..9], rewrite)
        .prop_map(|(retry, add, rewrite)| Decision { retry, add, rewrite });
    let script = (prop_oneof![12 => prop::collection::vec(decision.clone(), 0..6), 1 => prop::collection::vec(decision, 6..40)], prop_oneof![3 => Just(None), 1 => (0u8..4).prop_map(Some)])
        .prop_map(|(decisions, refuse)| Script { decisions, refuse });
    let op = prop_oneof![
        40 => (0u8..3).prop_map(Op::Send),
        60 => (0u8..8).prop_map(Op::Poll),
        20 => Just(Op::Run),
        6 => (0u8..8).prop_map(Op::DropFut),
        60 => (0u8..8, any::<bool>()).prop_map(|(a, b)| Op::Complete(a, b)),
        20 => (1u16..15).prop_map(Op::Advance),
        20 => (0u8..8).prop_map(Op::Open),
        25 => (0u8..5).prop_map(Op::Credits),
        5 => (1u8..3).prop_map(Op::Hiccup),
        8 => prop::option::of(any::<bool>()).prop_map(Op::Auto),
        5 => Just(Op::CloneHandle),
        1 => Just(Op::Fail),
    ];
    (prop::collection::vec(script, 1..5), prop_oneof![1 => Just(0u8), 1 => 1u8..20], hist(op, 70))
        .prop_map(|(scripts, clone_add, ops)| RetryCase { scripts, clone_add, ops })
}

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Clone { id: u64, val: u64, ok: bool },
    Consult { id: u64, val: u64, out: Result<u64, u64>, local: usize },
}
#[derive(Default)]
struct GateSt {
    open: bool,
    polled_after_done: bool,
    done: bool,
    waker: Option<std::task::Waker>,
}
#[derive(Default)]
struct Log {
    evs: VecDeque<Ev>,
    /// gates by request id and consultation
    gates: std::collections::BTreeMap<(u64, usize), Arc<Mutex<GateSt>>>,
    clones: std::collections::BTreeMap<u64, usize>,
    consults: std::collections::BTreeMap<u64, usize>,
}
struct Pol {
    log: Arc<Mutex<Log>>,
    scripts: Arc<Vec<Script>>,
    clone_add: u64,
    /// consultations of this policy instance
    local: usize,
}
impl Clone for Pol {
    fn clone(&self) -> Self {
        Pol { log: self.log.clone(), scripts: self.scripts.clone(), clone_add: self.clone_add, local: self.local }
    }
}
enum Wait {
    Now,
    Sleep(Pin<Box<tokio::time::Sleep>>),
    Gate(Arc<Mutex<GateSt>>),
    Yield(u8),
}
impl std::future::Future for Wait {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        match &mut *self {
            Wait::Now => Poll::Ready(()),
            Wait::Sleep(s) => s.as_mut().poll(cx),
            Wait::Gate(g) => {
                let mut g = g.lock().unwrap();
                if g.done {
                    g.polled_after_done = true;
                }
                if g.open {
                    g.done = true;
                    Poll::Ready(())
                } else {
                    g.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
            Wait::Yield(0) => Poll::Ready(()),
            Wait::Yield(n) => {
                *n -= 1;
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    }
}
fn decision(scripts: &[Script], id: u64, k: usize) -> Decision {
    scripts[id as usize % scripts.len()].decisions.get(k).copied().unwrap_or(Decision { retry: None, add: 0, rewrite: Rewrite::Keep })
}
fn clone_ok(scripts: &[Script], id: u64, k: usize) -> bool {
    scripts[id as usize % scripts.len()].refuse != Some(k as u8)
}
impl Policy<Req, Resp, PErr> for Pol {
    type Future = Wait;
    fn retry(&mut self, r: &mut Req, result: &mut Result<Resp, PErr>) -> Option<Wait> {
        let mut l = self.log.lock().unwrap();
        let k = *l.consults.entry(r.id).and_modify(|x| *x += 1).or_insert(1) - 1;
        let out = result.as_ref().map(|r| r.val).map_err(|e| e.0);
        l.evs.push_back(Ev::Consult { id: r.id, val: r.val, out, local: self.local });
        self.local += 1;
        let d = decision(&self.scripts, r.id, k);
        r.val += d.add as u64;
        match d.rewrite {
            Rewrite::Keep => {}
            Rewrite::Ok(v) => *result = Ok(Resp { req: r.id, val: v as u64, call: usize::MAX, svc: usize::MAX, hold: r.hold.clone() }),
            Rewrite::Err(e) => *result = Err(PErr(5000 + e as u64)),
        }
        d.retry.map(|w| match w {
            Delay::Now => Wait::Now,
            Delay::Sleep(ms) => Wait::Sleep(Box::pin(tokio::time::sleep(Duration::from_millis(ms as u64)))),
            Delay::Gate => {
                let g = Arc::new(Mutex::new(GateSt::default()));
                l.gates.insert((r.id, k), g.clone());
                Wait::Gate(g)
            }
            Delay::Yield(n) => Wait::Yield(n),
        })
    }
    fn clone_request(&mut self, r: &Req) -> Option<Req> {
        let mut l = self.log.lock().unwrap();
        let k = *l.clones.entry(r.id).and_modify(|x| *x += 1).or_insert(1) - 1;
        let ok = clone_ok(&self.scripts, r.id, k);
        l.evs.push_back(Ev::Clone { id: r.id, val: r.val, ok });
        ok.then(|| Req { val: r.val + self.clone_add, ..r.clone() })
    }
}

#[derive(Debug, Clone)]
enum St {
    Called(usize),
    Sleeping(u64),
    Gated(usize),
    Yielding(u8),
    Retrying,
}
struct F {
    f: Pin<Box<tower::retry::future::ResponseFuture<Pol, Probe, Req>>>,
    id: u64,
    st: St,
    /// the request kept for the next attempt
    kept: Option<u64>,
    consults: usize,
    clones: usize,
    flag: Option<Arc<Flag>>,
}

fn retry(c: &RetryCase, cov: &mut Cov) -> R {
    block_on(async {
        let w = World::new();
        let g = w.group(Group::default());
        let log = Arc::new(Mutex::new(Log::default()));
        let scripts = Arc::new(c.scripts.clone());
        let pol = Pol { log: log.clone(), scripts: scripts.clone(), clone_add: c.clone_add as u64, local: 0 };
        let mut hs: Vec<Retry<Pol, Probe>> =
            vec![if c.ops.len() % 2 == 0 { Retry::new(pol, w.probe(g)) } else { RetryLayer::new(pol).layer(w.probe(g)) }];
        let t0 = now();
        let ms = || now().duration_since(t0).as_millis() as u64;
        let mut fs: Vec<F> = vec![];
        let mut next = 1u64;
        let mut attempts_max = 0;
        macro_rules! poll_one {
            ($i:expr) => {{
                let i: usize = $i;
                w.begin_step();
                let (nc, credits, hiccups, fail) = { let x = w.lock(); (x.calls.len(), x.groups[g].credits, x.groups[g].hiccups, x.groups[g].fail_ready) };
                ensure!(log.lock().unwrap().evs.is_empty(), "policy used outside of a poll");
                // can it progress?
                let can = match fs[i].st {
                    St::Called(ci) => w.lock().calls[ci].st != CallSt::Waiting,
                    St::Sleeping(t) => ms() >= t,
                    St::Gated(k) => log.lock().unwrap().gates[&(fs[i].id, k)].lock().unwrap().open,
                    St::Yielding(_) => true,
                    St::Retrying => credits > 0 || fail.is_some(),
                };
                if can {
                    ensure!(fs[i].flag.as_ref().map_or(true, |f| f.woken()), "request {} in state {:?} can progress but its task was not woken", fs[i].id, fs[i].st);
                }
                let (r, flag) = poll_fut(fs[i].f.as_mut());
                let f = &mut fs[i];
                f.flag = Some(flag);
                cov.tr(|| format!("t={} request {} in {:?}: poll -> {r:?}; {:?}", ms(), f.id, f.st, log.lock().unwrap().evs));
                // replay the model
                let mut newc = nc;
                let mut credits = credits;
                let mut hiccups = hiccups;
                let expect: Poll<Result<(u64, Option<usize>), u64>> = loop {
                    match f.st.clone() {
                        St::Called(ci) => {
                            let cs = w.lock().calls[ci].st.clone();
                            let out = match cs {
                                CallSt::Waiting => break Poll::Pending,
                                CallSt::Done(_) => return Err(format!("attempt outcome of request {} not taken", f.id)),
                                CallSt::Taken(o) => o,
                            };
                            let sent = w.lock().calls[ci].req.val;
                            let mut result = out.map(|_| (sent, Some(ci)));
                            let Some(kept) = f.kept else { break Poll::Ready(result) };
                            let ev = log.lock().unwrap().evs.pop_front();
                            let want = Ev::Consult { id: f.id, val: kept, out: result.map(|x| x.0), local: f.consults };
                            ensure!(ev.as_ref() == Some(&want), "after attempt {} of request {} expected the consultation {want:?}, got {ev:?}", f.consults + 1, f.id);
                            let d = decision(&scripts, f.id, f.consults);
                            f.consults += 1;
                            f.kept = Some(kept + d.add as u64);
                            match d.rewrite {
                                Rewrite::Keep => {}
                                Rewrite::Ok(v) => result = Ok((v as u64, None)),
                                Rewrite::Err(e) => result = Err(5000 + e as u64),
                            }
                            cov.hit_if(!matches!(d.rewrite, Rewrite::Keep) && d.retry.is_none(), "policy rewrote the final outcome");
                            match d.retry {
                                None => break Poll::Ready(result),
                                Some(Delay::Now) => f.st = St::Retrying,
                                Some(Delay::Sleep(d)) => f.st = St::Sleeping(ms() + d as u64),
                                Some(Delay::Gate) => f.st = St::Gated(f.consults - 1),
                                Some(Delay::Yield(n)) => f.st = St::Yielding(n),
                            }
                        }
                        St::Sleeping(t) => {
                            if ms() < t {
                                break Poll::Pending;
                            }
                            f.st = St::Retrying;
                        }
                        St::Gated(k) => {
                            if !log.lock().unwrap().gates[&(f.id, k)].lock().unwrap().open {
                                break Poll::Pending;
                            }
                            f.st = St::Retrying;
                        }
                        St::Yielding(0) => f.st = St::Retrying,
                        St::Yielding(n) => {
                            f.st = St::Yielding(n - 1);
                            break Poll::Pending;
                        }
                        St::Retrying => {
                            if let Some(e) = fail {
                                break Poll::Ready(Err(e));
                            }
                            if hiccups > 0 {
                                hiccups -= 1;
                                let _ = hiccups;
                                cov.hit("retry waited for readiness");
                                break Poll::Pending;
                            }
                            if credits == 0 {
                                cov.hit("retry waited for readiness");
                                break Poll::Pending;
                            }
                            if credits < FREE {
                                credits -= 1;
                            }
                            let kept = f.kept.expect("retrying without a kept request");
                            let ok = clone_ok(&scripts, f.id, f.clones);
                            f.clones += 1;
                            let ev = log.lock().unwrap().evs.pop_front();
                            let want = Ev::Clone { id: f.id, val: kept, ok };
                            ensure!(ev.as_ref() == Some(&want), "expected {want:?}, got {ev:?}");
                            f.kept = ok.then_some(kept + c.clone_add as u64);
                            let call = w.lock().calls.get(newc).cloned();
                            let Some(call) = call else { return Err(format!("request {} was not retried although the policy said so and the service is ready", f.id)) };
                            ensure!(call.req.id == f.id && call.req.val == kept, "attempt {} dispatched {:?}, expected id {} value {kept}", f.consults + 1, call.req, f.id);
                            f.st = St::Called(newc);
                            newc += 1;
                            attempts_max = attempts_max.max(f.consults + 1);
                            cov.hit_if(!ok, "policy refused a later clone");
                        }
                    }
                };
                ensure!(w.ncalls() == newc, "{} attempts made, {} expected for request {}", w.ncalls() - nc, newc - nc, f.id);
                ensure!(log.lock().unwrap().evs.is_empty(), "unexpected use of the policy: {:?}", log.lock().unwrap().evs);
                match (&expect, &r) {
                    (Poll::Pending, Poll::Pending) => {}
                    (Poll::Ready(Ok((v, ci))), Poll::Ready(Ok(x))) => {
                        ensure!(x.val == *v && x.req == f.id && x.call == ci.unwrap_or(usize::MAX), "wrong response: {x:?}, expected value {v} of call {ci:?}");
                    }
                    (Poll::Ready(Err(e)), Poll::Ready(Err(x))) => ensure!(x.0 == *e, "wrong error {x:?}, expected {e}"),
                    _ => return Err(format!("request {} gave {r:?}, expected {expect:?}", f.id)),
                }
                if r.is_ready() {
                    cov.hit_if(matches!(f.st, St::Retrying), "readiness failed before a retry");
                    let f = fs.remove(i);
                    drop(f);
                    true
                } else {
                    false
                }
            }};
        }
        for &op in &c.ops {
            match op {
                Op::Send(i) => {
                    let i = i as usize % hs.len();
                    w.begin_step();
                    let (can, fail) = { let x = w.lock(); (x.groups[g].credits > 0 && x.groups[g].hiccups == 0, x.groups[g].fail_ready.is_some()) };
                    let (r, _) = with_waker(|cx| hs[i].poll_ready(cx));
                    match r {
                        Poll::Ready(Err(e)) => {
                            ensure!(fail && e.0 == 77, "readiness error {e:?}");
                            continue;
                        }
                        Poll::Pending => {
                            ensure!(!can && !fail, "not ready although the service is");
                            continue;
                        }
                        Poll::Ready(Ok(())) => {}
                    }
                    let nc = w.ncalls();
                    let f = hs[i].call(req(next));
                    let ev: Vec<Ev> = log.lock().unwrap().evs.drain(..).collect();
                    let ok = clone_ok(&scripts, next, 0);
                    ensure!(ev == vec![Ev::Clone { id: next, val: next, ok }], "policy use at the call: {ev:?}");
                    {
                        let x = w.lock();
                        ensure!(x.calls.len() == nc + 1 && x.calls[nc].req == req(next), "first attempt dispatched wrongly");
                    }
                    cov.hit_if(!ok, "request not cloneable");
                    fs.push(F { f: Box::pin(f), id: next, st: St::Called(nc), kept: ok.then_some(next + c.clone_add as u64), consults: 0, clones: 1, flag: None });
                    next += 1;
                }
                Op::Poll(i) if !fs.is_empty() => {
                    poll_one!(i as usize % fs.len());
                }
                Op::Run => {
                    let mut i = 0;
                    while i < fs.len() {
                        if fs[i].flag.as_ref().map_or(true, |f| f.woken()) && poll_one!(i) {
                            continue;
                        }
                        i += 1;
                    }
                }
                Op::DropFut(i) if !fs.is_empty() => {
                    let f = fs.remove(i as usize % fs.len());
                    let id = f.id;
                    drop(f);
                    let x = w.lock();
                    ensure!(!x.calls.iter().any(|c| c.req.id == id && c.alive), "an attempt survives its dropped future");
                }
                Op::Complete(i, ok) => {
                    let ws = w.waiting_calls();
                    if !ws.is_empty() {
                        let ci = ws[i as usize % ws.len()];
                        w.complete(ci, if ok { Ok(()) } else { Err(2000 + ci as u64) });
                    }
                }
                Op::Advance(d) => advance(d as u64).await,
                Op::Open(i) if !fs.is_empty() => {
                    let id = fs[i as usize % fs.len()].id;
                    let gt = log.lock().unwrap().gates.range((id, 0)..(id + 1, 0)).last().map(|x| x.1.clone());
                    if let Some(gt) = gt {
                        let wk = { let mut x = gt.lock().unwrap(); x.open = true; x.waker.take() };
                        if let Some(wk) = wk { wk.wake() }
                    }
                }
                Op::Credits(k) => w.set_credits(g, if k == 4 { FREE } else { k as u64 }),
                Op::Hiccup(k) => w.set_hiccups(g, k as u32),
                Op::Auto(a) => w.lock().groups[g].auto = a.map(|ok| if ok { Ok(()) } else { Err(1234) }),
                Op::CloneHandle => if hs.len() < 3 {
                    let h = hs[0].clone();
                    hs.push(h);
                },
                Op::Fail => w.set_fail(g, Some(77)),
                _ => {}
            }
            if let Some(v) = w.violation() {
                return Err(v);
            }
            ensure!(log.lock().unwrap().gates.values().all(|g| !g.lock().unwrap().polled_after_done), "policy future polled after it completed");
        }
        cov.hit_if(attempts_max >= 3, "three or more attempts");
        if attempts_max >= 2 {
            cov.nontrivial();
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- budget
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum BOp {
    Deposit(u8),
    Withdraw(u8),
    /// slots and an offset in tenths of a slot
    Advance(u8, i8),
    Ms(u16),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct BCase {
    ttl_ms: u32,
    reserve: u8,
    /// retry percent in thousandths
    ratio: u32,
    ops: Vec<BOp>,
}
fn arb_ratio() -> impl Strategy<Value = u32> {
    prop_oneof![
        1 => Just(0u32),
        4 => prop::sample::select(vec![1000u32, 500, 200, 100, 250, 333, 700, 900, 50, 20]),
        2 => 10u32..1000,
        2 => prop::sample::select(vec![2000u32, 1500, 3000, 10_000, 100_000, 1_000_000]),
    ]
}
fn arb_budget() -> impl Strategy<Value = BCase> {
    let op = prop_oneof![
        5 => size(1..6, 6..250).prop_map(BOp::Deposit),
        5 => size(1..5, 5..60).prop_map(BOp::Withdraw),
        4 => (0u8..13, -2i8..12).prop_map(|(a, b)| BOp::Advance(a, b)),
        2 => (1u16..400).prop_map(BOp::Ms),
    ];
    (
        prop_oneof![3 => (1u32..6).prop_map(|s| s * 1000), 1 => (1u32..61).prop_map(|s| s * 1000), 1 => 1000u32..5000],
        prop_oneof![6 => Just(0u8), 4 => 1u8..4, 1 => 4u8..60],
        arb_ratio(),
        hist(op, 50),
    )
        .prop_map(|(ttl_ms, reserve, ratio, ops)| BCase { ttl_ms, reserve, ratio, ops })
}
/// tokens per deposit and per withdrawal, from the documented ratio
fn tokens(ratio: u32) -> (i128, i128) {
    let r = ratio as f32 / 1000.0;
    if ratio == 0 {
        (0, 1)
    } else if r <= 1.0 {
        (1, (1.0 / r) as i128)
    } else {
        (1000, (1000.0 / r) as i128)
    }
}
fn budget(c: &BCase, cov: &mut Cov) -> R {
    block_on(async {
        let ttl = Duration::from_millis(c.ttl_ms as u64);
        let b = TpsBudget::new(ttl, c.reserve as u32, c.ratio as f32 / 1000.0);
        let (d, wd) = tokens(c.ratio);
        // whole seconds of reserve at least, the exact share at most
        let res_lo = c.reserve as i128 * (c.ttl_ms / 1000) as i128 * wd;
        let res_hi = (c.reserve as f64 * c.ttl_ms as f64 / 1000.0).ceil() as i128 * wd;
        let slot = c.ttl_ms as u64 / 10; // ms (rounded down)
        let t0 = now();
        let ms = || now().duration_since(t0).as_millis() as u64;
        let mut hist: Vec<(u64, i128)> = vec![];
        let (mut granted, mut refused_after_expiry, mut granted_late) = (0, 0, 0);
        for &op in &c.ops {
            match op {
                BOp::Deposit(n) => {
                    for _ in 0..n {
                        b.deposit();
                        hist.push((ms(), d));
                    }
                }
                BOp::Withdraw(n) => {
                    for _ in 0..n {
                        let t = ms();
                        let (mut lo, mut hi) = (res_lo, res_hi);
                        let mut expired = 0;
                        let mut late = false;
                        for &(at, amt) in &hist {
                            // age in tenths of milliseconds against whole slots
                            let age = (t - at) * 10;
                            let ttl10 = c.ttl_ms as u64 * 10;
                            let s10 = c.ttl_ms as u64;
                            if age + s10 <= ttl10 {
                                lo += amt;
                                hi += amt;
                                if amt > 0 && age * 2 > ttl10 {
                                    late = true;
                                }
                            } else if age >= ttl10 + s10 {
                                expired += 1;
                            } else {
                                lo += amt.min(0);
                                hi += amt.max(0);
                            }
                        }
                        let got = b.withdraw();
                        cov.tr(|| format!("t={t} withdraw -> {got} (balance between {lo} and {hi}, needs {wd})"));
                        if got {
                            ensure!(hi >= wd, "t={t}: withdrawal granted but at most {hi} of {wd} tokens are there (ttl {}ms, reserve {}, ratio {}/1000)", c.ttl_ms, c.reserve, c.ratio);
                            hist.push((t, -wd));
                            granted += 1;
                            if late {
                                granted_late += 1;
                            }
                        } else {
                            ensure!(lo < wd, "t={t}: withdrawal refused but at least {lo} of {wd} tokens are there (ttl {}ms, reserve {}, ratio {}/1000)", c.ttl_ms, c.reserve, c.ratio);
                            if expired > 0 {
                                refused_after_expiry += 1;
                            }
                        }
                    }
                }
                BOp::Advance(s, off) => {
                    let d = (s as u64 * slot) as i64 + off as i64 * slot as i64 / 10;
                    advance(d.max(1) as u64).await;
                }
                BOp::Ms(d) => advance(d as u64).await,
            }
        }
        cov.hit_if(refused_after_expiry > 0, "refused after deposits expired");
        cov.hit_if(granted_late > 0, "granted on a deposit older than half its life");
        if granted > 0 && (refused_after_expiry > 0 || granted_late > 0) {
            cov.nontrivial();
        }
        Ok(())
    })
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct MtCase {
    threads: u8,
    reserve: u8,
    rounds: u8,
    /// deposits per withdrawal
    per: u8,
    /// only withdraw
    drain: bool,
}
fn arb_mt() -> impl Strategy<Value = MtCase> {
    (2u8..6, 1u8..4, 10u8..80, prop::sample::select(vec![1u8, 2, 5]), prop::bool::weighted(0.2))
        .prop_map(|(threads, reserve, rounds, per, drain)| MtCase { threads, reserve, rounds, per, drain })
}
fn budget_mt(c: &MtCase, cov: &mut Cov) -> R {
    // outside a runtime: the real clock, a ttl of 60 s (nothing expires within a case)
    let ratio = 1.0 / c.per as f32;
    let b = TpsBudget::new(Duration::from_secs(60), 0, ratio);
    for _ in 0..c.reserve as usize * c.per as usize {
        b.deposit();
    }
    let cap = c.reserve as i64;
    let out = AtomicI64::new(0);
    let over = AtomicI64::new(0);
    let total = AtomicI64::new(0);
    let refused = AtomicI64::new(0);
    let barrier = std::sync::Barrier::new(c.threads as usize);
    std::thread::scope(|s| {
        for _ in 0..c.threads {
            s.spawn(|| {
                barrier.wait();
                for _ in 0..c.rounds {
                    if b.withdraw() {
                        // counted late, returned early: never an overestimate
                        let o = out.fetch_add(1, Ordering::SeqCst) + 1;
                        over.fetch_max(o, Ordering::SeqCst);
                        total.fetch_add(1, Ordering::SeqCst);
                        if !c.drain {
                            std::hint::spin_loop();
                            out.fetch_sub(1, Ordering::SeqCst);
                            for _ in 0..c.per {
                                b.deposit();
                            }
                        }
                    } else {
                        refused.fetch_add(1, Ordering::SeqCst);
                    }
                }
            });
        }
    });
    let over = over.into_inner();
    let total = total.into_inner();
    ensure!(over <= cap, "{over} withdrawals outstanding at once, the deposits allow {cap}");
    if c.drain {
        ensure!(total == cap, "{total} withdrawals granted from deposits for {cap}, {} refused", refused.into_inner());
        ensure!(!b.withdraw(), "withdrawal granted from an empty budget");
    } else {
        for i in 0..cap {
            ensure!(b.withdraw(), "only {i} of {cap} withdrawals left after all were returned");
        }
        ensure!(!b.withdraw(), "more than {cap} withdrawals left");
        if refused.into_inner() > 0 {
            cov.hit("contended");
        }
    }
    if total > cap || c.drain {
        cov.nontrivial();
    }
    Ok(())
}

/// Threads that use one budget at the same instants of a paused clock: the first use after each step of the clock
/// moves the window.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct RoundsCase {
    reserve: u8,
    ratio: u32,
    /// per round: tenths of the ttl to advance before it and, per thread, the numbers of deposits and withdrawals
    rounds: Vec<(u8, Vec<(u8, u8, bool)>)>,
}
fn arb_rounds() -> impl Strategy<Value = RoundsCase> {
    (2usize..5, prop_oneof![3 => Just(0u8), 1 => 1u8..3], prop::sample::select(vec![1000u32, 500, 200, 2000])).prop_flat_map(|(n, reserve, ratio)| {
        let th = (prop_oneof![2 => Just(0u8), 3 => 1u8..8], prop_oneof![2 => Just(0u8), 3 => 1u8..8], any::<bool>());
        let adv = prop_oneof![6 => Just(1u8), 3 => 2u8..9, 1 => 9u8..14, 2 => Just(0u8)];
        prop::collection::vec((adv, prop::collection::vec(th, n)), 2..16).prop_map(move |rounds| RoundsCase { reserve, ratio, rounds })
    })
}
fn budget_rounds(c: &RoundsCase, cov: &mut Cov) -> R {
    use std::sync::atomic::AtomicUsize;
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let b = {
        let _g = rt.enter();
        TpsBudget::new(Duration::from_secs(1), c.reserve as u32, c.ratio as f32 / 1000.0)
    };
    let (d, wd) = tokens(c.ratio);
    let res = c.reserve as i128 * wd;
    let n = c.rounds[0].1.len();
    let (gate, arrived) = (AtomicUsize::new(0), AtomicUsize::new(0));
    let (granted, refused) = (AtomicI64::new(0), AtomicI64::new(0));
    let wait = |a: &AtomicUsize, v: usize| {
        let mut k = 0;
        while a.load(Ordering::SeqCst) < v {
            k += 1;
            if k % 64 == 0 { std::thread::yield_now() } else { std::hint::spin_loop() }
        }
    };
    let handle = rt.handle().clone();
    let (mut multi, mut tight, mut tot) = (0, 0, 0i128);
    let r: R = std::thread::scope(|s| {
        for i in 0..n {
            let (b, gate, arrived, granted, refused, wait, handle) = (&b, &gate, &arrived, &granted, &refused, &wait, &handle);
            s.spawn(move || {
                let _g = handle.enter();
                for (r, (_, th)) in c.rounds.iter().enumerate() {
                    wait(gate, r + 1);
                    let (dep, w, first) = th[i];
                    let take = || {
                        for _ in 0..w {
                            if b.withdraw() { granted.fetch_add(1, Ordering::SeqCst) } else { refused.fetch_add(1, Ordering::SeqCst) };
                        }
                    };
                    if !first { take() }
                    for _ in 0..dep { b.deposit() }
                    if first { take() }
                    arrived.fetch_add(1, Ordering::SeqCst);
                }
            });
        }
        let mut hist: Vec<(u64, i128)> = vec![];
        let mut t = 0u64; // tenths of a ttl
        let mut out = Ok(());
        for (r, (adv, th)) in c.rounds.iter().enumerate() {
            t += *adv as u64;
            rt.block_on(async { tokio::time::advance(Duration::from_millis(100 * *adv as u64)).await });
            let (mut lo, mut hi) = (res, res);
            for &(at, amt) in &hist {
                match t - at {
                    0..=9 => { lo += amt; hi += amt }
                    10 => { lo += amt.min(0); hi += amt.max(0) }
                    _ => {}
                }
            }
            granted.store(0, Ordering::SeqCst);
            refused.store(0, Ordering::SeqCst);
            gate.store(r + 1, Ordering::SeqCst);
            wait(&arrived, (r + 1) * n);
            let deps: i128 = th.iter().map(|x| x.0 as i128 * d).sum();
            let (got, no) = (granted.load(Ordering::SeqCst) as i128, refused.load(Ordering::SeqCst));
            hist.push((t, deps));
            hist.push((t, -got * wd));
            tot += got;
            if th.iter().filter(|x| x.0 + x.1 > 0).count() >= 2 && *adv > 0 { multi += 1 }
            if no > 0 && got > 0 { tight += 1 }
            if out.is_ok() && got * wd > hi.max(0) + deps {
                out = Err(format!("round {r}: {got} withdrawals granted at once, but at most {hi} tokens were there and {deps} deposited, {wd} per withdrawal"));
            }
            // only withdrawals made after everything was deposited, or none deposited at the same time
            if out.is_ok() && no > 0 && lo - got * wd >= wd {
                out = Err(format!("round {r}: {no} withdrawals refused although at least {lo} tokens were there, {wd} per withdrawal, {got} granted"));
            }
        }
        out
    });
    r?;
    cov.hit_if(tight > 0, "some granted and some refused at one instant");
    if multi >= 2 && tot > 0 {
        cov.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- budget and backoff in a retry policy
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum WOp {
    Send,
    Complete(u8, bool),
    Run,
    Drop(u8),
    Advance(u16),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct WCase {
    reserve: u8,
    ratio: u32,
    min_ms: u16,
    max_ms: u16,
    /// requests share one service, or each goes to a new one from the layer
    layer: bool,
    ops: Vec<WOp>,
}
fn arb_with() -> impl Strategy<Value = WCase> {
    let op = prop_oneof![
        6 => Just(WOp::Send),
        12 => (0u8..8, prop::bool::weighted(0.35)).prop_map(|(a, b)| WOp::Complete(a, b)),
        10 => Just(WOp::Run),
        1 => (0u8..8).prop_map(WOp::Drop),
        8 => (1u16..60).prop_map(WOp::Advance),
    ];
    (prop_oneof![1 => Just(0u8), 2 => 1u8..9], prop::sample::select(vec![1000u32, 500, 333, 200, 2000, 0, 10_000]), 0u16..30, 1u16..120, any::<bool>(), hist(op, 80))
        .prop_map(|(reserve, ratio, min_ms, max_ms, layer, ops)| WCase { reserve, ratio, min_ms: min_ms.min(max_ms), max_ms, layer, ops })
}
/// The policy of the documentation's example: successes deposit, failures withdraw and wait.
struct Budgeted {
    budget: Arc<TpsBudget>,
    make: Arc<Mutex<ExponentialBackoffMaker<ScriptRng>>>,
    back: Option<tower::retry::backoff::ExponentialBackoff<ScriptRng>>,
    /// (deposit?, granted?) in order
    log: Arc<Mutex<Vec<(bool, bool)>>>,
}
impl Clone for Budgeted {
    fn clone(&self) -> Self {
        // each request starts its own delays
        Budgeted { budget: self.budget.clone(), make: self.make.clone(), back: None, log: self.log.clone() }
    }
}
impl Policy<Req, Resp, PErr> for Budgeted {
    type Future = tokio::time::Sleep;
    fn retry(&mut self, _: &mut Req, result: &mut Result<Resp, PErr>) -> Option<tokio::time::Sleep> {
        match result {
            Ok(_) => {
                self.budget.deposit();
                self.log.lock().unwrap().push((true, true));
                None
            }
            Err(_) => {
                let ok = self.budget.withdraw();
                self.log.lock().unwrap().push((false, ok));
                if !ok {
                    return None;
                }
                let mk = &self.make;
                Some(self.back.get_or_insert_with(|| mk.lock().unwrap().make_backoff()).next_backoff())
            }
        }
    }
    fn clone_request(&mut self, r: &Req) -> Option<Req> {
        Some(r.clone())
    }
}
fn with_retry(c: &WCase, cov: &mut Cov) -> R {
    block_on(async {
        let w = World::new();
        let g = w.group(Group::default());
        // nothing expires while a case lasts
        let budget = Arc::new(TpsBudget::new(Duration::from_secs(60), 0, c.ratio as f32 / 1000.0));
        for _ in 0..c.reserve {
            budget.deposit();
        }
        let (d, wd) = tokens(c.ratio);
        let mut balance = c.reserve as i128 * d;
        let drawn = Arc::new(Mutex::new(vec![]));
        let (min, max) = (Duration::from_millis(c.min_ms as u64), Duration::from_millis(c.max_ms as u64));
        let make = ExponentialBackoffMaker::new(min, max, 0.0, ScriptRng { vals: Arc::new(vec![7]), i: 0, drawn }).map_err(|e| format!("backoff refused: {e:?}"))?;
        let log = Arc::new(Mutex::new(vec![]));
        let pol = Budgeted { budget: budget.clone(), make: Arc::new(Mutex::new(make)), back: None, log: log.clone() };
        let layer = RetryLayer::new(pol);
        let mut svc = layer.layer(w.probe(g));
        struct A {
            f: Option<Pin<Box<tower::retry::future::ResponseFuture<Budgeted, Probe, Req>>>>,
            id: u64,
            attempts: u32,
            /// the call under way, or the time the next one is due
            call: Option<usize>,
            due: u64,
            flag: Option<Arc<Flag>>,
        }
        let mut fs: Vec<A> = vec![];
        let t0 = now();
        let ms = || now().duration_since(t0).as_millis() as u64;
        let (mut retries, mut refusals, mut successes, mut longest) = (0u64, 0u64, 0u64, 0);
        for (i, &op) in c.ops.iter().enumerate() {
            w.begin_step();
            match op {
                WOp::Send if fs.iter().filter(|f| f.f.is_some()).count() < 6 => {
                    if c.layer {
                        svc = layer.layer(w.probe(g));
                    }
                    let r = with_waker(|cx| svc.poll_ready(cx)).0;
                    ensure!(matches!(r, Poll::Ready(Ok(()))), "readiness {r:?}");
                    let id = i as u64 + 1;
                    let call = w.ncalls();
                    let f = Box::pin(svc.call(req(id)));
                    ensure!(w.ncalls() == call + 1, "request {id} was not dispatched");
                    fs.push(A { f: Some(f), id, attempts: 1, call: Some(call), due: 0, flag: None });
                }
                WOp::Complete(i, ok) => {
                    let ws = w.waiting_calls();
                    if !ws.is_empty() {
                        let ci = ws[i as usize % ws.len()];
                        w.complete(ci, if ok { Ok(()) } else { Err(2000 + ci as u64) });
                    }
                }
                WOp::Advance(k) => advance(k as u64).await,
                WOp::Drop(i) if !fs.is_empty() => {
                    let i = i as usize % fs.len();
                    fs[i].f = None;
                }
                WOp::Run => {
                    for a in fs.iter_mut().filter(|a| a.f.is_some()) {
                        let done = a.call.map(|ci| w.lock().calls[ci].st.clone());
                        let can = match &done {
                            Some(CallSt::Waiting) => false,
                            Some(_) => true,
                            None => ms() >= a.due,
                        };
                        if can {
                            ensure!(a.flag.as_ref().map_or(true, |f| f.woken()), "request {} can progress but its task was not woken", a.id);
                        }
                        let nc = w.ncalls();
                        let (r, fl) = poll_fut(a.f.as_mut().unwrap().as_mut());
                        a.flag = Some(fl);
                        let evs: Vec<(bool, bool)> = std::mem::take(&mut *log.lock().unwrap());
                        let after = w.ncalls();
                        let mut want: Poll<Result<(), u64>> = Poll::Pending;
                        let mut dispatch = false;
                        let mut wantev = vec![];
                        match done {
                            Some(CallSt::Waiting) => {}
                            Some(CallSt::Done(Ok(()))) => {
                                wantev.push((true, true));
                                balance += d;
                                successes += 1;
                                want = Poll::Ready(Ok(()));
                            }
                            Some(CallSt::Done(Err(e))) => {
                                let ok = balance >= wd;
                                wantev.push((false, ok));
                                if ok {
                                    balance -= wd;
                                    retries += 1;
                                    let delay = (c.min_ms as u64).checked_shl(a.attempts - 1).unwrap_or(u64::MAX).min(c.max_ms as u64);
                                    longest = longest.max(a.attempts);
                                    a.call = None;
                                    a.due = ms() + delay;
                                    dispatch = delay == 0;
                                } else {
                                    refusals += 1;
                                    want = Poll::Ready(Err(e));
                                }
                            }
                            Some(CallSt::Taken(_)) => return Err("harness: outcome taken outside of a poll".into()),
                            None => dispatch = ms() >= a.due,
                        }
                        ensure!(evs == wantev, "request {} after attempt {}: the budget was used as {evs:?} (deposit?, granted?), expected {wantev:?} with {balance} tokens left after it, {d} per deposit and {wd} per withdrawal", a.id, a.attempts);
                        ensure!(after == nc + dispatch as usize, "request {} at {}ms: {} attempts started, expected {} (due at {}ms)", a.id, ms(), after - nc, dispatch as usize, a.due);
                        if dispatch {
                            a.attempts += 1;
                            a.call = Some(nc);
                            ensure!(w.lock().calls[nc].req == req(a.id), "attempt with another request");
                        }
                        let got = match &r {
                            Poll::Pending => Poll::Pending,
                            Poll::Ready(Ok(_)) => Poll::Ready(Ok(())),
                            Poll::Ready(Err(e)) => Poll::Ready(Err(e.0)),
                        };
                        ensure!(got == want, "request {} gave {got:?}, expected {want:?}", a.id);
                        if got.is_ready() {
                            a.f = None;
                        }
                    }
                    fs.retain(|a| a.f.is_some());
                }
                _ => {}
            }
            if let Some(v) = w.violation() {
                return Err(v);
            }
        }
        ensure!(retries as i128 * wd <= (successes + c.reserve as u64) as i128 * d, "{retries} retries out of {successes} successes");
        cov.hit_if(refusals > 0, "retry refused by the budget");
        cov.hit_if(longest >= 3, "three or more retries of one request");
        if retries >= 2 && refusals > 0 {
            cov.nontrivial();
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- backoff
#[derive(Debug, Clone, Serialize, Deserialize)]
struct BackCase {
    min: (u64, u32),
    max: (u64, u32),
    /// bits of the jitter factor
    jitter: u64,
    rng: Vec<u64>,
    n: u8,
}
fn arb_dur() -> impl Strategy<Value = (u64, u32)> {
    prop_oneof![
        4 => (0u64..1, 0u32..1_000_000_000),
        2 => (0u64..1, 0u32..50),
        1 => Just((0u64, 0u32)),
        2 => (1u64..20, Just(0u32)),
        3 => (0u64..5000, 0u32..1_000_000_000),
        2 => (any::<u64>(), 0u32..1_000_000_000),
        1 => prop::sample::select(vec![(u64::MAX, 999_999_999u32), (u64::MAX, 0), (u64::MAX / 1000, 551_000_000), (i64::MAX as u64, 0)]),
    ]
}
fn arb_back() -> impl Strategy<Value = BackCase> {
    let jit = prop_oneof![
        3 => Just(0.0f64),
        5 => 0.0f64..1.0,
        3 => 1.0f64..100.0,
        2 => prop::sample::select(vec![1.0, 0.99, 100.0, 1e-12, f64::MIN_POSITIVE, 100.00000000000001, -0.0, -1e-300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e308]),
        1 => any::<f64>(),
    ];
    let bits = prop_oneof![2 => any::<u64>(), 1 => prop::sample::select(vec![0u64, u64::MAX, 1, 1 << 63, 2047, 2048])];
    (arb_dur(), arb_dur(), jit, prop::collection::vec(bits, 1..6), prop_oneof![3 => 1u8..12, 1 => 12u8..140], any::<bool>())
        .prop_map(|(a, b, j, rng, n, keep)| {
            let (min, max) = if keep || a <= b { (a, b) } else { (b, a) };
            BackCase { min, max, jitter: j.to_bits(), rng, n }
        })
}
#[derive(Clone)]
struct ScriptRng {
    vals: Arc<Vec<u64>>,
    i: usize,
    drawn: Arc<Mutex<Vec<u64>>>,
}
impl Rng for ScriptRng {
    fn next_u64(&mut self) -> u64 {
        let v = self.vals[self.i % self.vals.len()];
        self.i += 1;
        self.drawn.lock().unwrap().push(v);
        v
    }
}
fn backoff(c: &BackCase, cov: &mut Cov) -> R {
    block_on(async {
        let dur = |(s, n): (u64, u32)| Duration::new(s, n);
        let (min, max) = (dur(c.min), dur(c.max));
        let jitter = f64::from_bits(c.jitter);
        let drawn = Arc::new(Mutex::new(vec![]));
        let rng = ScriptRng { vals: Arc::new(c.rng.clone()), i: 0, drawn: drawn.clone() };
        let valid = min <= max && max > Duration::ZERO && jitter.is_finite() && (0.0..=100.0).contains(&jitter);
        let mk = ExponentialBackoffMaker::new(min, max, jitter, rng);
        ensure!(mk.is_ok() == valid, "construction with min {min:?} max {max:?} jitter {jitter}: {}", if valid { "refused" } else { "accepted" });
        let Ok(mut mk) = mk else {
            cov.hit("refused configuration");
            return Ok(());
        };
        let first = mk.make_backoff();
        for (round, mut b) in [first.clone(), mk.make_backoff(), first].into_iter().enumerate() {
            if round == 2 {
                // a clone of a fresh backoff starts over
                drawn.lock().unwrap().clear();
            }
            let steps = if round == 0 { c.n } else { 2.min(c.n) };
            for k in 0..steps as u32 {
                drawn.lock().unwrap().clear();
                let t = now();
                let fut = b.next_backoff();
                let base_ns = if k < 127 { min.as_nanos().saturating_mul(1u128 << k) } else if min.is_zero() { 0 } else { u128::MAX };
                let base_ns = base_ns.min(max.as_nanos());
                let to_dur = |ns: u128| Duration::new((ns / 1_000_000_000) as u64, (ns % 1_000_000_000) as u32);
                let base = to_dur(base_ns);
                let delay = match t.checked_add(base).filter(|_| max.as_secs() < 900_000_000) {
                    None => {
                        cov.hit("beyond the clock's range");
                        continue;
                    }
                    Some(_) => fut.deadline() - t,
                };
                cov.tr(|| format!("delay {k}: base {base:?}, got {delay:?}, drawn {:?}", drawn.lock().unwrap()));
                if jitter == 0.0 {
                    ensure!(delay == base, "delay {k} is {delay:?}, expected {base:?} (min {min:?}, max {max:?})");
                } else {
                    let room = max - base;
                    if t.checked_add(max).is_none() {
                        cov.hit("beyond the clock's range");
                        ensure!(delay >= base || delay >= Duration::from_secs(86400 * 365), "delay {k} is {delay:?}, below its base {base:?}");
                        continue;
                    }
                    ensure!(delay >= base && delay <= max, "delay {k} is {delay:?}, not between its base {base:?} and the maximum {max:?}");
                    let extra = delay - base;
                    let dr = drawn.lock().unwrap().clone();
                    ensure!(!dr.is_empty(), "no random value was drawn");
                    let ok = dr.iter().any(|v| {
                        let f = (v >> 11) as f64 / (1u64 << 53) as f64;
                        let want = (base.as_secs_f64() * (f * jitter)).min(room.as_secs_f64());
                        (extra.as_secs_f64() - want).abs() <= want * 1e-9 + base.as_secs_f64() * 1e-14 + 3e-9
                    });
                    let f = dr.iter().map(|v| (v >> 11) as f64 / (1u64 << 53) as f64).collect::<Vec<_>>();
                    ensure!(ok, "delay {k} adds {extra:?} of jitter to {base:?} for random value {f:?} with factor {jitter} (maximum {max:?})");
                    cov.hit_if(extra > Duration::ZERO && extra < room, "jitter inside the range");
                    cov.hit_if(extra == room && room > Duration::ZERO, "jitter capped by the maximum");
                    cov.hit_if(base.subsec_nanos() == 0 && base.as_secs() > 0, "whole-second base");
                }
                cov.hit_if(base == max && k > 0, "reached the maximum");
            }
        }
        if !min.is_zero() && max > min {
            cov.nontrivial();
        }
        Ok(())
    })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct LimCase {
    ttl: (u64, u32),
    reserve: u32,
    /// bits of an f32
    ratio: u32,
    deposits: u8,
}
fn arb_lim() -> impl Strategy<Value = LimCase> {
    let ns = prop_oneof![2 => Just(0u32), 1 => prop::sample::select(vec![1u32, 999_999_999, 999_999, 500_000_000]), 1 => 0u32..1_000_000_000];
    let secs = prop_oneof![3 => prop::sample::select(vec![0u64, 1, 59, 60, 61]), 3 => 0u64..65, 1 => any::<u64>()];
    let res = prop_oneof![
        2 => 0u32..50,
        2 => prop::sample::select(vec![0u32, 1, i32::MAX as u32 - 1, i32::MAX as u32, i32::MAX as u32 + 1, u32::MAX]),
        1 => any::<u32>(),
    ];
    let ratio = prop_oneof![
        3 => prop::sample::select(vec![0.0f32, -0.0, 1.0, 1000.0, 1000.0001, -0.0001, -1.0, 0.001, 1.0001, 0.9999, 999.99, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, 1e-45, f32::MAX]),
        2 => 0.0f32..1.0,
        2 => 1.0f32..1000.0,
        1 => any::<f32>(),
    ]
    .prop_map(|f| f.to_bits());
    ((secs, ns), res, ratio, 0u8..20).prop_map(|(ttl, reserve, ratio, deposits)| LimCase { ttl, reserve, ratio, deposits })
}
/// which configurations are accepted, and that an accepted one works at its extremes
fn budget_lim(c: &LimCase, cov: &mut Cov) -> R {
    block_on(async {
        let ttl = Duration::new(c.ttl.0, c.ttl.1);
        let r = f32::from_bits(c.ratio);
        let valid = ttl >= Duration::from_secs(1) && ttl <= Duration::from_secs(60) && (0.0..=1000.0).contains(&r) && c.reserve < i32::MAX as u32;
        let b = or_panic(|| TpsBudget::new(ttl, c.reserve, r));
        ensure!(b.is_some() == valid, "a budget with ttl {ttl:?}, reserve {} and ratio {r} was {}", c.reserve, if valid { "refused" } else { "accepted" });
        let Some(b) = b else {
            cov.hit("refused configuration");
            return Ok(());
        };
        for _ in 0..c.deposits {
            b.deposit();
        }
        // one more deposit than a retry needs, or a reserve, surely pays for one retry
        let need = if r == 0.0 { f64::INFINITY } else { (1.0 / r as f64).max(1.0) };
        let sure = c.reserve > 0 || c.deposits as f64 >= need;
        let none = c.reserve == 0 && (c.deposits as f64) < need.min(1e9).floor();
        let got = b.withdraw();
        cov.tr(|| format!("{c:?}: withdraw -> {got}"));
        ensure!(got || !sure, "no retry is granted with reserve {}, ratio {r} and {} deposits", c.reserve, c.deposits);
        ensure!(!got || !none, "a retry is granted with no reserve, ratio {r} and {} deposits", c.deposits);
        if got || c.deposits > 0 {
            cov.nontrivial();
        }
        cov.hit_if(got, "granted");
        cov.hit_if(c.reserve > 1_000_000, "huge reserve");
        Ok(())
    })
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            assumptions: &["policies that do not panic"],
            subs: vec![sub("policy-script", "a request with two or more attempts", 300_000, arb_retry, retry)],
        },
        Prop {
            id: "C14",
            assumptions: &["the ratio is taken as rounded by the constructor to whole tokens", "multi-threaded cases run on the operating system's schedule"],
            subs: vec![
                sub("timed-history", "a withdrawal granted late in a deposit's life or refused after expiry, besides a granted one", 250_000, arb_budget, budget),
                sub("threads", "more withdrawals granted than fit at once, or a drained budget", 6_000, arb_mt, budget_mt),
                sub("expiring-threads", "two or more steps of the clock after which several threads used the budget, and a withdrawal granted", 4_000, arb_rounds, budget_rounds),
                sub("bounds", "an accepted configuration and a retry granted or a deposit made", 60_000, arb_lim, budget_lim),
                sub("with-retry", "two or more retries granted and one refused", 120_000, arb_with, with_retry),
            ],
        },
        Prop {
            id: "C15",
            assumptions: &["delays beyond the clock's range are only checked not to panic"],
            subs: vec![sub("delays", "0 < min < max", 1_000_000, arb_back, backoff)],
        },
    ]
}
