//! C21 pending-request load, C22 peak-EWMA load.
use crate::core::*;
use crate::ensure;
use crate::probe::*;
use crate::rt;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;
use std::time::Duration;
use futures_core::Stream;
use tower::discover::Change;
use tower::load::peak_ewma::PeakEwmaDiscover;
use tower::load::pending_requests::PendingRequestsDiscover;
use tower::load::{completion::TrackCompletion, CompleteOnResponse, Load, PeakEwma, PendingRequests};
use tower_service::Service;

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Op {
    Ready(u8),
    Call(u8),
    Complete(u8, bool),
    PollFut(u8),
    DropFut(u8),
    /// drop a response that still carries its handle
    DropResp(u8),
    Observe(u8),
    Advance(u64),
    Gate(u8, u8),
    DropSvc(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct LCase {
    /// 0: complete on response, 1: the handle travels with the response, 2: as 1 but odd requests drop it at once
    rule: u8,
    svcs: u8,
    default_ns: u64,
    decay_ns: f64,
    /// the services come out of a measured discovery source
    #[serde(default)]
    disc: bool,
    ops: Vec<Op>,
}
fn dur() -> impl Strategy<Value = u64> {
    prop_oneof![
        3 => Just(0u64),
        10 => 1u64..1000,
        20 => 1_000u64..100_000_000,
        10 => 100_000_000u64..10_000_000_000,
        2 => 10_000_000_000u64..4_000_000_000_000_000,
    ]
}
fn arb(ewma: bool) -> impl Strategy<Value = LCase> {
    let i = 0u8..12;
    let s = 0u8..2;
    let op = prop_oneof![
        12 => s.clone().prop_map(Op::Ready),
        30 => s.clone().prop_map(Op::Call),
        16 => (i.clone(), prop::bool::weighted(0.7)).prop_map(|(a, b)| Op::Complete(a, b)),
        30 => i.clone().prop_map(Op::PollFut),
        10 => i.clone().prop_map(Op::DropFut),
        14 => i.clone().prop_map(Op::DropResp),
        if ewma { 24 } else { 8 } => s.clone().prop_map(Op::Observe),
        if ewma { 30 } else { 2 } => dur().prop_map(Op::Advance),
        6 => (s.clone(), 0u8..4).prop_map(|(a, b)| Op::Gate(a, b)),
        1 => s.prop_map(Op::DropSvc),
    ];
    let decay = prop_oneof![
        (1u64..1_000_000_000).prop_map(|x| x as f64),
        (1u64..1000).prop_map(|x| x as f64 * 1e9),
        (1u64..10_000_000).prop_map(|x| x as f64),
        Just(1.0),
        Just(0.001),
        Just(1e18),
        Just(5e9),
    ];
    let def = prop_oneof![1u64..1_000_000_000, Just(1u64), Just(30_000_000u64), 1u64..4_000_000_000_000_000];
    (0u8..3, 1u8..3, def, decay, prop::bool::weighted(0.3), hist(op, 60)).prop_map(|(rule, svcs, default_ns, decay_ns, disc, ops)| LCase {
        rule,
        svcs,
        default_ns,
        decay_ns,
        // a discovery source is given the decay as a duration
        disc: disc && decay_ns >= 1.0 && decay_ns < 1e15,
        ops,
    })
}

#[derive(Clone, Copy)]
struct Rule(u8);
struct Held<H> {
    resp: Resp,
    handle: Option<H>,
}
impl<H> TrackCompletion<H, Resp> for Rule {
    type Output = Held<H>;
    fn track_completion(&self, handle: H, value: Resp) -> Held<H> {
        let keep = self.0 == 1 || value.req % 2 == 0;
        Held { resp: value, handle: if keep { Some(handle) } else { None } }
    }
}
/// A response, with or without its handle.
trait Out: 'static {
    fn parts(self: Box<Self>) -> (Resp, Option<Box<dyn std::any::Any>>);
}
impl Out for Resp {
    fn parts(self: Box<Self>) -> (Resp, Option<Box<dyn std::any::Any>>) {
        (*self, None)
    }
}
impl<H: 'static> Out for Held<H> {
    fn parts(self: Box<Self>) -> (Resp, Option<Box<dyn std::any::Any>>) {
        (self.resp, self.handle.map(|h| Box::new(h) as Box<dyn std::any::Any>))
    }
}

/// One measured service, erased over the completion rule.
trait Meas {
    fn ready(&mut self, cx: &mut std::task::Context<'_>) -> Poll<Result<(), PErr>>;
    fn call(&mut self, r: Req) -> Pin<Box<dyn Future<Output = Result<Box<dyn Out>, PErr>>>>;
    /// value, and a second observation made at once
    fn load(&self) -> (f64, f64, Option<std::cmp::Ordering>);
    fn count(&self) -> String;
}
struct Map<F>(Pin<Box<F>>);
impl<F, T: Out> Future for Map<F>
where
    F: Future<Output = Result<T, PErr>>,
{
    type Output = Result<Box<dyn Out>, PErr>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Self::Output> {
        self.0.as_mut().poll(cx).map(|r| r.map(|x| Box::new(x) as Box<dyn Out>))
    }
}
impl<S> Meas for S
where
    S: Service<Req, Error = PErr> + Load,
    S::Response: Out,
    S::Future: 'static,
    S::Metric: std::fmt::Debug,
{
    fn ready(&mut self, cx: &mut std::task::Context<'_>) -> Poll<Result<(), PErr>> {
        self.poll_ready(cx)
    }
    fn call(&mut self, r: Req) -> Pin<Box<dyn Future<Output = Result<Box<dyn Out>, PErr>>>> {
        Box::pin(Map(Box::pin(Service::call(self, r))))
    }
    fn load(&self) -> (f64, f64, Option<std::cmp::Ordering>) {
        let a = Load::load(self);
        let b = Load::load(self);
        (num(&a), num(&b), a.partial_cmp(&b))
    }
    fn count(&self) -> String {
        format!("{:?}", Load::load(self))
    }
}
/// The number inside `Count(n)` or `Cost(x)`.
fn num(m: &dyn std::fmt::Debug) -> f64 {
    number(&format!("{m:?}"))
}
pub fn number(s: &str) -> f64 {
    let inner = s.split_once('(').map(|x| x.1.trim_end_matches(')')).unwrap_or(s);
    inner.trim().parse().unwrap_or(f64::NAN)
}

pub struct Model {
    pub est: f64,
    pub at: u64,
    pub pending: usize,
}
impl Model {
    pub fn update(&mut self, rtt: f64, now: u64, decay: f64) {
        if self.est < rtt {
            self.est = rtt;
        } else {
            let w = (-((now - self.at) as f64) / decay).exp();
            self.est = self.est * w + rtt * (1.0 - w);
        }
        self.at = now;
    }
}
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * a.abs().max(b.abs()) + 1e-3
}

struct Fut {
    f: Option<Pin<Box<dyn Future<Output = Result<Box<dyn Out>, PErr>>>>>,
    handle: Option<Box<dyn std::any::Any>>,
    svc: usize,
    call: usize,
    id: u64,
    sent: u64,
    /// counted as unfinished
    open: bool,
    flag: Option<std::sync::Arc<Flag>>,
}

/// The service a measured discovery source reports.
fn first<D, S>(d: D) -> Box<dyn Meas>
where
    D: Stream<Item = Result<Change<u8, S>, PErr>>,
    S: Meas + 'static,
{
    let mut d = Box::pin(d);
    match with_waker(|cx| d.as_mut().poll_next(cx)).0 {
        Poll::Ready(Some(Ok(Change::Insert(0, s)))) => Box::new(s),
        _ => panic!("harness: no service discovered"),
    }
}

fn run(c: &LCase, cov: &mut Cov, ewma: bool) -> R {
    rt::block_on(async move { run_in(c, cov, ewma).await })
}
async fn run_in(c: &LCase, cov: &mut Cov, ewma: bool) -> R {
    let t0 = rt::now();
    let w = World::new();
    let n = c.svcs as usize;
    let mut groups = vec![];
    let mut meas: Vec<Option<Box<dyn Meas>>> = vec![];
    let mut model: Vec<Model> = vec![];
    let mut inst = vec![];
    for _ in 0..n {
        let g = w.group(Group::default());
        groups.push(g);
        let p = w.probe(g);
        inst.push(p.id);
        let d = Duration::from_nanos(c.default_ns);
        let src = || futures_util::stream::iter(vec![Ok::<_, PErr>(Change::Insert(0u8, w.probe(g)))]);
        let dk = Duration::from_nanos(c.decay_ns as u64);
        if c.disc {
            inst.pop();
            drop(p);
            inst.push(w.lock().svcs.len());
            meas.push(Some(match (ewma, c.rule) {
                (false, 0) => first(PendingRequestsDiscover::new::<Req>(src(), CompleteOnResponse::default())),
                (false, r) => first(PendingRequestsDiscover::new::<Req>(src(), Rule(r))),
                (true, 0) => first(PeakEwmaDiscover::new::<Req>(src(), d, dk, CompleteOnResponse::default())),
                (true, r) => first(PeakEwmaDiscover::new::<Req>(src(), d, dk, Rule(r))),
            }));
            model.push(Model { est: c.default_ns as f64, at: 0, pending: 0 });
            continue;
        }
        meas.push(Some(match (ewma, c.rule) {
            (false, 0) => Box::new(PendingRequests::new(p, CompleteOnResponse::default())),
            (false, r) => Box::new(PendingRequests::new(p, Rule(r))),
            (true, 0) => Box::new(PeakEwma::new(p, d, c.decay_ns, CompleteOnResponse::default())),
            (true, r) => Box::new(PeakEwma::new(p, d, c.decay_ns, Rule(r))),
        }));
        model.push(Model { est: c.default_ns as f64, at: 0, pending: 0 });
    }
    let mut futs: Vec<Fut> = vec![];
    let (mut peaks, mut decays, mut failed, mut dropped, mut late, mut maxp, mut idle) = (0, 0, 0, 0, 0, 0usize, 0);
    let now = || (rt::now() - t0).as_nanos() as u64;
    let mut next = 1u64;
    macro_rules! finish {
        ($f:expr) => {{
            if $f.open {
                $f.open = false;
                let m = &mut model[$f.svc];
                m.pending -= 1;
                let rtt = (now() - $f.sent) as f64;
                if m.est < rtt {
                    peaks += 1
                } else if now() > m.at {
                    decays += 1
                }
                m.update(rtt, now(), c.decay_ns);
            }
        }};
    }
    for &op in &c.ops {
        w.begin_step();
        match op {
            Op::Ready(s) => {
                let s = s as usize % n;
                let Some(m) = meas[s].as_mut() else { continue };
                let before = w.svc(inst[s]);
                let can = w.answers(inst[s]);
                let (r, fl) = with_waker(|cx| m.ready(cx));
                let st = w.svc(inst[s]);
                match r {
                    Poll::Ready(Ok(())) => ensure!(st.ready, "ready reported although the inner service is not"),
                    Poll::Ready(Err(e)) => ensure!(st.failed == Some(e.0), "wrong readiness error {e:?}"),
                    Poll::Pending => {
                        ensure!(!can, "pending although the inner service is ready");
                        w.add_credits(groups[s], 1);
                        ensure!(fl.woken(), "no wakeup when the inner service became ready");
                    }
                }
                ensure!(st.polls == before.polls + 1, "readiness check not forwarded exactly once");
            }
            Op::Call(s) => {
                let s = s as usize % n;
                let Some(m) = meas[s].as_mut() else { continue };
                if !w.is_ready(inst[s]) && !matches!(with_waker(|cx| m.ready(cx)).0, Poll::Ready(Ok(()))) {
                    continue;
                }
                let before = w.ncalls();
                let f = m.call(req(next));
                {
                    let x = w.lock();
                    ensure!(x.calls.len() == before + 1 && x.calls[before].req == req(next) && x.calls[before].svc == inst[s], "request not passed through unchanged");
                }
                futs.push(Fut { f: Some(f), handle: None, svc: s, call: before, id: next, sent: now(), open: true, flag: None });
                model[s].pending += 1;
                maxp = maxp.max(model[s].pending);
                next += 1;
            }
            Op::Complete(i, ok) => {
                let live = w.waiting_calls();
                if let Some(&k) = live.get(i as usize % live.len().max(1)) {
                    w.complete(k, if ok { Ok(()) } else { Err(5000 + k as u64) });
                    if let Some(fl) = futs.iter().find(|f| f.call == k).and_then(|f| f.flag.as_ref()) {
                        ensure!(fl.woken(), "no wakeup of the response future");
                    }
                }
            }
            Op::PollFut(i) if !futs.is_empty() => {
                let k = futs.len();
                let f = &mut futs[k - 1 - i as usize % k];
                if f.f.is_none() || !matches!(w.lock().calls[f.call].st, CallSt::Waiting | CallSt::Done(_)) {
                    continue;
                }
                let st = w.lock().calls[f.call].st.clone();
                let (r, fl) = poll_fut(f.f.as_mut().unwrap().as_mut());
                match (r, st) {
                    (Poll::Pending, CallSt::Waiting) => f.flag = Some(fl),
                    (Poll::Ready(Ok(o)), CallSt::Done(Ok(()))) => {
                        let (resp, h) = o.parts();
                        ensure!(resp.req == f.id && resp.call == f.call && resp.val == f.id, "wrong response {resp:?}");
                        let keeps = c.rule == 1 || (c.rule == 2 && f.id % 2 == 0);
                        ensure!(h.is_some() == keeps, "completion rule not applied");
                        f.handle = h;
                        if !keeps {
                            finish!(f);
                        } else {
                            late += 1;
                        }
                    }
                    (Poll::Ready(Err(e)), CallSt::Done(Err(x))) => {
                        ensure!(e.0 == x, "wrong error {e:?}");
                        failed += 1;
                        // resolved: it does not matter that the future is still there
                        finish!(f);
                    }
                    (r, st) => return Err(format!("response future gave {:?} with the inner one {st:?}", r.map(|x| x.map(|_| ()))))
                }
            }
            Op::DropFut(i) if !futs.is_empty() => {
                let k = futs.len();
                let f = &mut futs[k - 1 - i as usize % k];
                if f.f.take().is_some() && f.handle.is_none() {
                    dropped += f.open as u32;
                    finish!(f);
                }
            }
            Op::DropResp(i) => {
                let held: Vec<usize> = (0..futs.len()).filter(|i| futs[*i].handle.is_some()).collect();
                if let Some(&k) = held.get(i as usize % held.len().max(1)) {
                    futs[k].handle = None;
                    finish!(futs[k]);
                }
            }
            Op::Observe(s) => {
                let s = s as usize % n;
                let Some(m) = meas[s].as_ref() else { continue };
                let polls = w.svc(inst[s]).polls;
                let (a, b, ord) = m.load();
                cov.tr(|| format!("load {s} = {a}"));
                if ewma {
                    if now() > model[s].at {
                        idle += 1;
                    }
                    model[s].update(0.0, now(), c.decay_ns);
                    let want = model[s].est * (model[s].pending as f64 + 1.0);
                    ensure!(a.is_finite() && a >= 0.0, "load {a} is not a finite non-negative number");
                    ensure!(close(a, want), "load is {a}, expected {want} ({} pending, estimate {})", model[s].pending, model[s].est);
                    ensure!(close(a, b), "load is {a} and at once {b}: observing changed it");
                    if a == b {
                        ensure!(ord == Some(std::cmp::Ordering::Equal), "equal loads compare as {ord:?}");
                    }
                } else {
                    ensure!(a == model[s].pending as f64 && b == a, "load is {a} then {b}, but {} requests are unfinished", model[s].pending);
                    ensure!(m.count() == format!("Count({})", model[s].pending), "load is {}", m.count());
                }
                ensure!(w.svc(inst[s]).polls == polls, "observing the load polled the service");
            }
            Op::Advance(ns) => {
                // the observed clock stays below the limits of the runtime's timer
                tokio::time::advance(Duration::from_nanos(ns)).await;
            }
            Op::Gate(s, k) => {
                w.set_credits(groups[s as usize % n], if k == 3 { FREE } else { k as u64 });
            }
            Op::DropSvc(s) => {
                let s = s as usize % n;
                if meas[s].take().is_some() {
                    cov.hit("service dropped");
                }
            }
            _ => {}
        }
        // the pending count is exact at every step (the estimate is only looked at when the case says so)
        if !ewma {
            for s in 0..n {
                if let Some(m) = &meas[s] {
                    let l = m.load().0;
                    ensure!(l == model[s].pending as f64, "load is {l}, but {} requests are unfinished after {op:?}", model[s].pending);
                }
            }
        }
        if let Some(v) = w.violation() {
            return Err(v);
        }
    }
    futs.clear();
    if !ewma {
        for m in meas.iter().flatten() {
            ensure!(m.load().0 == 0.0, "load {} after all requests ended", m.load().0);
        }
    }
    cov.hit_if(failed > 0, "failed request");
    cov.hit_if(dropped > 0, "request dropped");
    cov.hit_if(late > 0, "response keeps its handle");
    cov.hit_if(maxp >= 3, "three or more at once");
    if ewma {
        cov.hit_if(peaks > 0, "new peak");
        cov.hit_if(decays > 0, "moved toward a lower latency");
        cov.hit_if(idle > 0, "decayed while idle");
        if peaks + decays >= 2 && idle >= 1 {
            cov.nontrivial();
        }
    } else if maxp >= 2 && (failed + dropped + late as u32) > 0 {
        cov.nontrivial();
    }
    Ok(())
}
fn pending(c: &LCase, cov: &mut Cov) -> R {
    run(c, cov, false)
}
fn ewma(c: &LCase, cov: &mut Cov) -> R {
    run(c, cov, true)
}

/// Requests start on one thread and end on others, while the load is read.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct ThreadsCase {
    ewma: bool,
    /// per thread and request: does it complete (or is its future dropped), does it succeed, does the thread pause first
    ends: Vec<Vec<(bool, bool, bool)>>,
}
fn arb_threads(ewma: bool) -> impl Strategy<Value = ThreadsCase> {
    prop::collection::vec(prop::collection::vec((any::<bool>(), any::<bool>(), prop::bool::weighted(0.2)), 1..30), 1..5).prop_map(move |ends| ThreadsCase { ewma, ends })
}
struct Instant0;
struct AtOnce(Option<Result<(), PErr>>);
impl Future for AtOnce {
    type Output = Result<(), PErr>;
    fn poll(mut self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> Poll<Self::Output> {
        Poll::Ready(self.0.take().unwrap())
    }
}
impl Service<bool> for Instant0 {
    type Response = ();
    type Error = PErr;
    type Future = AtOnce;
    fn poll_ready(&mut self, _: &mut std::task::Context<'_>) -> Poll<Result<(), PErr>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, ok: bool) -> AtOnce {
        AtOnce(Some(if ok { Ok(()) } else { Err(PErr(1)) }))
    }
}
fn threads(c: &ThreadsCase, cov: &mut Cov) -> R {
    // an estimate that stays at one nanosecond: the cost is the number of unfinished requests plus one
    if c.ewma {
        // (the real clock: latencies count, so the count is only checked through the bound below and the final value)
        let mut svc = PeakEwma::new(Instant0, Duration::from_secs(1_000_000), 1e30, CompleteOnResponse::default());
        threads_on(c, cov, &mut svc, |s| (number(&format!("{:?}", s.load())) / 1e15 - 1.0).round() as i64)
    } else {
        let mut svc = PendingRequests::new(Instant0, CompleteOnResponse::default());
        threads_on(c, cov, &mut svc, |s| number(&format!("{:?}", s.load())) as i64)
    }
}
fn threads_on<S>(c: &ThreadsCase, cov: &mut Cov, svc: &mut S, load: fn(&S) -> i64) -> R
where
    S: Service<bool, Response = (), Error = PErr>,
    S::Future: Send + 'static,
{
    use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
    let (began, ended) = (AtomicI64::new(0), AtomicI64::new(0));
    let total: i64 = c.ends.iter().map(|x| x.len() as i64).sum();
    let (mut mid, mut err) = (0, None);
    std::thread::scope(|s| {
        let mut txs = vec![];
        for ends in &c.ends {
            let (tx, rx) = std::sync::mpsc::channel::<S::Future>();
            txs.push(tx);
            let (began, ended) = (&began, &ended);
            s.spawn(move || {
                for (complete, _, pause) in ends {
                    let Ok(f) = rx.recv() else { break };
                    let mut f = Box::pin(f);
                    if *pause {
                        std::thread::yield_now();
                    }
                    began.fetch_add(1, SeqCst);
                    if *complete {
                        let _ = poll_fut(f.as_mut());
                    } else {
                        drop(f);
                    }
                    ended.fetch_add(1, SeqCst);
                }
            });
        }
        let mut started = 0;
        let mut look = |svc: &S, started: i64| {
            // before the reading these were over; after it no more than these had begun to end
            let over = ended.load(SeqCst);
            let l = load(svc);
            let ending = began.load(SeqCst);
            if l > started - over || l < started - ending {
                err.get_or_insert(format!("load is {l} after {started} requests of which {over} had ended before and {ending} had begun to end after the reading"));
            }
            if l > 0 && l < started {
                mid += 1;
            }
        };
        let longest = c.ends.iter().map(|x| x.len()).max().unwrap_or(0);
        for k in 0..longest {
            for (i, ends) in c.ends.iter().enumerate() {
                if let Some((_, ok, _)) = ends.get(k) {
                    let _ = with_waker(|cx| svc.poll_ready(cx));
                    let f = svc.call(*ok);
                    started += 1;
                    let _ = txs[i].send(f);
                    look(svc, started);
                }
            }
        }
        while ended.load(SeqCst) < total {
            look(svc, started);
            std::thread::yield_now();
        }
    });
    if let Some(e) = err {
        return Err(e);
    }
    let l = load(svc);
    ensure!(l == 0, "load still counts {l} after all {total} requests ended");
    cov.hit_if(mid >= 2, "read while requests were ending");
    if mid >= 1 && c.ends.len() >= 2 {
        cov.nontrivial();
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C21",
            assumptions: &["the count is read from the Debug form of the metric"],
            subs: vec![
                sub("history", "two or more requests at once and one that failed, was dropped, or keeps its handle past the response", 500_000, || arb(false), pending),
                sub("threads", "two or more threads, and a reading while requests were ending", 2_500, || arb_threads(false), threads),
            ],
        },
        Prop {
            id: "C22",
            assumptions: &["positive default latency and decay", "compared to 1e-9 relative accuracy"],
            subs: vec![
                sub("history", "at least two completions that move the estimate and an observation after idle time", 500_000, || arb(true), ewma),
                sub("threads", "two or more threads, and a reading while requests were ending", 2_500, || arb_threads(true), threads),
            ],
        },
    ]
}
