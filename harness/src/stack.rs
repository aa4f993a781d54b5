//! Random stacks of middlewares over probes, and the client driver used by the cross-cutting properties.
use crate::core::*;
use crate::dynsvc::*;
use crate::ensure;
use crate::probe::*;
use crate::rt::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;
use tower::util::{ServiceExt, *};
use tower_layer::Layer;
use tower_service::Service;

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum L {
    Conc(u8),
    GlobalConc(u8),
    Rate(u8, u8),
    Timeout(u16),
    Shed,
    Buffer(u8),
    Spawn,
    /// retries on error up to n times, waiting d ms before each
    Retry(u8, u8),
    Filter,
    /// predicate delay in ms
    AsyncFilter(u8),
    MapReq,
    MapResp,
    MapErr,
    MapResult,
    MapFuture,
    AndThen(u8),
    Then(u8),
    Boxed,
    BoxClone,
    BoxCloneSync,
    Left,
    Right,
    OptSome,
    /// extra probe; the picker sends ids with id % 3 == k to the extra probe
    Steer(u8),
    Balance(u8),
    Hedge,
    FutureSvc(bool),
    Reconnect,
    PendingLoad,
    PeakLoad,
    RefBox,
}

impl L {
    fn needs_clone(self) -> bool {
        matches!(self, L::Retry(..) | L::AsyncFilter(_) | L::BoxClone | L::BoxCloneSync | L::Hedge)
    }
    /// May outcomes legitimately differ from the inner outcome / may a request be dispatched more than once?
    fn duplicates(self) -> bool {
        matches!(self, L::Retry(..) | L::Hedge)
    }
}

pub fn arb_layer(hedge: bool) -> BoxedStrategy<L> {
    let v: Vec<(u32, BoxedStrategy<L>)> = vec![
        (4, size(1..4, 4..40).prop_map(L::Conc).boxed()),
        (2, size(1..4, 4..40).prop_map(L::GlobalConc).boxed()),
        (3, (size(1..4, 4..60), 1u8..30).prop_map(|(n, p)| L::Rate(n, p)).boxed()),
        (2, prop_oneof![1u16..20, Just(60_000u16)].prop_map(L::Timeout).boxed()),
        (2, Just(L::Shed).boxed()),
        (4, size(1..4, 4..100).prop_map(L::Buffer).boxed()),
        (3, Just(L::Spawn).boxed()),
        (3, (size(1..3, 3..20), 0u8..10).prop_map(|(n, d)| L::Retry(n, d)).boxed()),
        (1, Just(L::Filter).boxed()),
        (3, (0u8..8).prop_map(L::AsyncFilter).boxed()),
        (1, Just(L::MapReq).boxed()),
        (1, Just(L::MapResp).boxed()),
        (1, Just(L::MapErr).boxed()),
        (1, Just(L::MapResult).boxed()),
        (1, Just(L::MapFuture).boxed()),
        (1, (0u8..5).prop_map(L::AndThen).boxed()),
        (1, (0u8..5).prop_map(L::Then).boxed()),
        (1, Just(L::Boxed).boxed()),
        (1, Just(L::BoxClone).boxed()),
        (1, Just(L::BoxCloneSync).boxed()),
        (1, Just(L::Left).boxed()),
        (1, Just(L::Right).boxed()),
        (1, Just(L::OptSome).boxed()),
        (4, (0u8..3).prop_map(L::Steer).boxed()),
        (3, size(1..3, 3..12).prop_map(L::Balance).boxed()),
        (if hedge { 2 } else { 0 }, Just(L::Hedge).boxed()),
        (2, any::<bool>().prop_map(L::FutureSvc).boxed()),
        (3, Just(L::Reconnect).boxed()),
        (1, Just(L::PendingLoad).boxed()),
        (1, Just(L::PeakLoad).boxed()),
        (1, Just(L::RefBox).boxed()),
    ];
    proptest::strategy::Union::new_weighted(v.into_iter().filter(|x| x.0 > 0).collect()).boxed()
}

#[derive(Clone)]
struct RetryPol {
    left: u8,
    delay: u8,
}
type BoxUnit = Pin<Box<dyn Future<Output = ()> + Send>>;
impl tower::retry::Policy<Req, Resp, BoxError> for RetryPol {
    type Future = BoxUnit;
    fn retry(&mut self, _r: &mut Req, res: &mut Result<Resp, BoxError>) -> Option<BoxUnit> {
        if res.is_err() && self.left > 0 {
            self.left -= 1;
            let d = self.delay as u64;
            Some(Box::pin(async move {
                if d > 0 {
                    tokio::time::sleep(Duration::from_millis(d)).await
                }
            }))
        } else {
            None
        }
    }
    fn clone_request(&mut self, r: &Req) -> Option<Req> {
        Some(r.clone())
    }
}
#[derive(Clone)]
struct HedgePol;
impl tower::hedge::Policy<Req> for HedgePol {
    fn clone_request(&self, r: &Req) -> Option<Req> {
        Some(r.clone())
    }
    fn can_retry(&self, _: &Req) -> bool {
        true
    }
}
#[derive(Clone)]
struct DelayPred(u64);
impl tower::filter::AsyncPredicate<Req> for DelayPred {
    type Future = Pin<Box<dyn Future<Output = Result<Req, BoxError>> + Send>>;
    type Request = Req;
    fn check(&mut self, r: Req) -> Self::Future {
        let d = self.0;
        Box::pin(async move {
            if d > 0 {
                tokio::time::sleep(Duration::from_millis(d)).await
            }
            Ok(r)
        })
    }
}
/// xorshift generator for the balancer (deterministic).
struct XRng(u64);
impl tower::util::rng::Rng for XRng {
    fn next_u64(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
}
/// Connector: the first connection is the inner stack, later ones alternate between a delayed failure and a delayed
/// new connection to an extra probe.
struct Mk {
    first: Option<Dyn>,
    w: World,
    g: usize,
    n: u32,
}
impl Service<()> for Mk {
    type Response = Dyn;
    type Error = BoxError;
    type Future = Pin<Box<dyn Future<Output = Result<Dyn, BoxError>> + Send>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, _: ()) -> Self::Future {
        if let Some(d) = self.first.take() {
            return Box::pin(std::future::ready(Ok(d)));
        }
        self.n += 1;
        let (n, w, g) = (self.n, self.w.clone(), self.g);
        Box::pin(async move {
            tokio::time::sleep(Duration::from_millis(2)).await;
            if n % 2 == 1 {
                Err(Box::new(PErr(777_777)) as BoxError)
            } else {
                Ok(Dyn::c(w.probe(g)))
            }
        })
    }
}

pub struct Built {
    pub svc: Dyn,
    /// group of the bottom probe, then groups of extra probes
    pub groups: Vec<usize>,
    pub applied: Vec<L>,
    pub delta: u64,
    /// per entry of `groups`: rewrites below its attachment point, which its requests do not see
    pub skipped: Vec<u64>,
}

/// Builds the stack: `ls[0]` is the innermost layer.
pub fn build(w: &World, ls: &[L]) -> Built {
    build_with(w, ls, &mut |_, d| d)
}
/// `mid` puts something between: below layer `i`, and on top (`i` is the number of layers).
pub fn build_with(w: &World, ls: &[L], mid: &mut dyn FnMut(usize, Dyn) -> Dyn) -> Built {
    let g0 = w.group(Group::default());
    let mut d = Dyn::c(w.probe(g0));
    let mut groups = vec![g0];
    let mut applied = vec![];
    let mut delta = 0u64;
    let mut skipped = vec![0u64];
    for (i, &l) in ls.iter().enumerate() {
        d = mid(i, d);
        if l.needs_clone() && !d.cloneable {
            continue;
        }
        let cl = d.cloneable;
        applied.push(l);
        d = match l {
            L::Conc(n) => Dyn::cn(tower::limit::ConcurrencyLimitLayer::new(n as usize).layer(d), cl),
            L::GlobalConc(n) => Dyn::cn(tower::limit::GlobalConcurrencyLimitLayer::new(n as usize).layer(d), cl),
            L::Rate(n, p) => Dyn::n(tower::limit::RateLimitLayer::new(n as u64, Duration::from_millis(p as u64)).layer(d)),
            L::Timeout(t) => Dyn::cn(tower::timeout::Timeout::new(d, Duration::from_millis(t as u64)), cl),
            L::Shed => Dyn::cn(tower::load_shed::LoadShed::new(d), cl),
            L::Buffer(n) => Dyn::c(tower::buffer::Buffer::new(d, n as usize)),
            L::Spawn => Dyn::n(tower::spawn_ready::SpawnReady::new(d)),
            L::Retry(n, dl) => Dyn::c(tower::retry::Retry::new(RetryPol { left: n, delay: dl }, d)),
            L::Filter => Dyn::cn(
                tower::filter::Filter::new(d, |r: Req| Ok::<Req, BoxError>(r)),
                cl,
            ),
            L::AsyncFilter(ms) => Dyn::c(tower::filter::AsyncFilter::new(d, DelayPred(ms as u64))),
            L::MapReq => {
                delta += 1000;
                Dyn::cn(d.map_request(|mut r: Req| {
                    r.val += 1000;
                    r
                }), cl)
            }
            L::MapResp => {
                delta += 1_000_000;
                Dyn::cn(d.map_response(|mut r: Resp| {
                    r.val += 1_000_000;
                    r
                }), cl)
            }
            L::MapErr => Dyn::cn(d.map_err(|e: BoxError| e), cl),
            L::MapResult => {
                delta += 1_000_000;
                Dyn::cn(
                    d.map_result(|r: Result<Resp, BoxError>| {
                        r.map(|mut r| {
                            r.val += 1_000_000;
                            r
                        })
                    }),
                    cl,
                )
            }
            L::MapFuture => {
                delta += 1_000_000;
                Dyn::cn(
                    d.map_future(|f: Fut| async move {
                        let mut r = f.await?;
                        r.val += 1_000_000;
                        Ok::<_, BoxError>(r)
                    }),
                    cl,
                )
            }
            L::AndThen(ms) => {
                delta += 1_000_000;
                Dyn::cn(
                    d.and_then(move |mut r: Resp| async move {
                        if ms > 0 {
                            tokio::time::sleep(Duration::from_millis(ms as u64)).await;
                        }
                        r.val += 1_000_000;
                        Ok::<_, BoxError>(r)
                    }),
                    cl,
                )
            }
            L::Then(ms) => {
                delta += 1_000_000;
                Dyn::cn(
                    d.then(move |r: Result<Resp, BoxError>| async move {
                        if ms > 0 {
                            tokio::time::sleep(Duration::from_millis(ms as u64)).await;
                        }
                        r.map(|mut r| {
                            r.val += 1_000_000;
                            r
                        })
                    }),
                    cl,
                )
            }
            L::Boxed => Dyn::n(BoxService::new(d)),
            L::BoxClone => Dyn::c(BoxCloneService::new(d)),
            L::BoxCloneSync => Dyn::c(BoxCloneSyncService::new(SyncDyn::new(d))),
            L::Left => {
                let e: Either<Dyn, Dyn> = Either::Left(d);
                Dyn::cn(e, cl)
            }
            L::Right => {
                let e: Either<Dyn, Dyn> = Either::Right(d);
                Dyn::cn(e, cl)
            }
            L::OptSome => Dyn::n(Optional::new(Some(d))),
            L::Steer(k) => {
                let g = w.group(Group::default());
                groups.push(g);
                skipped.push(delta);
                let extra = Dyn::c(w.probe(g));
                let svcs = if k == 0 { vec![extra, d] } else { vec![d, extra] };
                let pick = move |r: &Req, s: &[Dyn]| {
                    assert!(s.len() == 2);
                    ((r.id % 3) as u8 == k) as usize
                };
                Dyn::cn(tower::steer::Steer::new(svcs, pick), cl)
            }
            L::Balance(n) => {
                let mut svcs = vec![d];
                for _ in 0..n {
                    let g = w.group(Group::default());
                    groups.push(g);
                    skipped.push(delta);
                    svcs.push(Dyn::c(w.probe(g)));
                }
                let list: Vec<_> = svcs.into_iter().map(|s| tower::load::Constant::new(s, 1u32)).collect();
                Dyn::n(tower::balance::p2c::Balance::from_rng(
                    tower::discover::ServiceList::new(list),
                    XRng(0x1234_5678_9ABC_DEF1 + n as u64),
                ))
            }
            L::Hedge => Dyn::n(tower::hedge::Hedge::new_with_mock_latencies(
                d,
                HedgePol,
                1,
                0.5,
                Duration::from_secs(3600),
                &[1, 3, 5],
            )),
            L::FutureSvc(delay) => {
                let f: Pin<Box<dyn Future<Output = Result<Dyn, BoxError>> + Send>> = Box::pin(async move {
                    if delay {
                        tokio::time::sleep(Duration::from_millis(3)).await;
                    }
                    Ok(d)
                });
                Dyn::n(future_service(f))
            }
            L::Reconnect => {
                let g = w.group(Group::default());
                groups.push(g);
                skipped.push(delta);
                Dyn::n(tower::reconnect::Reconnect::new(Mk { first: Some(d), w: w.clone(), g, n: 0 }, ()))
            }
            L::PendingLoad => Dyn::n(tower::load::PendingRequests::new(d, tower::load::CompleteOnResponse::default())),
            L::PeakLoad => Dyn::n(tower::load::PeakEwma::new(
                d,
                Duration::from_millis(5),
                1_000_000.0,
                tower::load::CompleteOnResponse::default(),
            )),
            L::RefBox => {
                let b: Box<Dyn> = Box::new(d);
                Dyn::n(b)
            }
        };
    }
    d = mid(ls.len(), d);
    Built { svc: d, groups, applied, delta, skipped }
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub enum Op {
    Ready(u8),
    Call(u8),
    Poll(u8),
    DropFut(u8),
    Clone(u8),
    DropClient(u8),
    Credits(u8, u8),
    Complete(u8, bool),
    Fail(u8),
    Hiccup(u8, u8),
    Advance(u8),
    Settle,
    Check,
    /// poll everything that was woken
    Run,
    /// as `DropFut`, but from within the next readiness check or call of an inner service
    DropFutWithin(u8),
    /// as `DropClient`, but from within the next readiness check or call of an inner service
    DropClientWithin(u8),
}

pub fn arb_op(faults: bool) -> BoxedStrategy<Op> {
    let i = 0u8..6;
    let v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (8, i.clone().prop_map(Op::Ready).boxed()),
        (8, i.clone().prop_map(Op::Call).boxed()),
        (6, (0u8..12).prop_map(Op::Poll).boxed()),
        (3, (0u8..12).prop_map(Op::DropFut).boxed()),
        (3, i.clone().prop_map(Op::Clone).boxed()),
        (2, i.clone().prop_map(Op::DropClient).boxed()),
        (5, (0u8..4, prop_oneof![3 => 0u8..4, 1 => Just(200u8)]).prop_map(|(g, n)| Op::Credits(g, n)).boxed()),
        (6, (0u8..12, prop::bool::weighted(0.75)).prop_map(|(c, ok)| Op::Complete(c, ok)).boxed()),
        (if faults { 1 } else { 0 }, (0u8..4).prop_map(Op::Fail).boxed()),
        (2, (0u8..4, 1u8..3).prop_map(|(g, n)| Op::Hiccup(g, n)).boxed()),
        (5, (1u8..40).prop_map(Op::Advance).boxed()),
        (2, Just(Op::Settle).boxed()),
        (2, Just(Op::Check).boxed()),
        (4, Just(Op::Run).boxed()),
    ];
    proptest::strategy::Union::new_weighted(v.into_iter().filter(|x| x.0 > 0).collect()).boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct StackCase {
    pub layers: Vec<L>,
    pub init_credits: u8,
    pub ops: Vec<Op>,
    /// the last handles and futures are dropped on a thread that is not part of the runtime
    #[serde(default)]
    pub outside: bool,
    /// they are dropped as they are, whatever they wait for
    #[serde(default)]
    pub abrupt: bool,
}

pub fn arb_case(hedge: bool, faults: bool, maxlayers: usize) -> impl Strategy<Value = StackCase> {
    (
        prop::collection::vec(arb_layer(hedge), 1..=maxlayers),
        prop_oneof![2 => Just(200u8), 1 => 0u8..3],
        hist(
            prop_oneof![
                40 => arb_op(faults),
                2 => (0u8..12).prop_map(Op::DropFutWithin),
                1 => (0u8..6).prop_map(Op::DropClientWithin),
            ],
            45,
        ),
        prop::bool::weighted(0.3),
        prop::bool::weighted(0.4),
    )
        .prop_map(|(layers, init_credits, ops, outside, abrupt)| StackCase { layers, init_credits, ops, outside, abrupt })
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Focus {
    Protocol,
    Sticky,
    Wakeup,
    Outcome,
    Cleanup,
    Rest,
    LetGo,
}

enum RSt {
    Idle,
    Pending(Arc<Flag>),
    Ready,
    Failed,
}
struct Client {
    svc: Option<Dyn>,
    st: RSt,
    /// failures injected so far when it last reported ready
    epoch: u32,
}
struct Flight {
    id: u64,
    fut: Option<Fut>,
    flag: Option<Arc<Flag>>,
    out: Option<Result<Resp, BoxError>>,
    called_at: tokio::time::Instant,
    /// what shows whether anyone still has the request or its response
    hold: Hold,
    /// its future is to be dropped from within an inner service
    gone: Option<Arc<std::sync::atomic::AtomicBool>>,
}

pub struct Driver {
    w: World,
    b_groups: Vec<usize>,
    applied: Vec<L>,
    delta: u64,
    skipped: Vec<u64>,
    clients: Vec<Client>,
    flights: Vec<Flight>,
    next_id: u64,
    focus: Focus,
    failed_groups: bool,
    fail_epoch: u32,
    any_failed_client: bool,
}

fn set_credits(w: &World, g: usize, n: u8) {
    w.set_credits(g, if n == 200 { FREE } else { n as u64 })
}

impl Driver {
    fn poll_ready(&mut self, i: usize, cov: &mut Cov) -> R {
        let c = &mut self.clients[i];
        let Some(svc) = &mut c.svc else { return Ok(()) };
        if matches!(c.st, RSt::Failed) {
            return Ok(());
        }
        let was_ready = matches!(c.st, RSt::Ready);
        self.w.begin_step();
        let (r, flag) = with_waker(|cx| svc.poll_ready(cx));
        cov.tr(|| format!("client {i} poll_ready -> {r:?}"));
        match r {
            Poll::Ready(Ok(())) => {
                cov.hit_if(was_ready, "re-polled while ready");
                cov.hit_if(matches!(c.st, RSt::Pending(_)), "ready after pending");
                c.epoch = self.fail_epoch;
                c.st = RSt::Ready
            }
            Poll::Ready(Err(_)) => {
                cov.hit("readiness error");
                self.any_failed_client = true;
                c.st = RSt::Failed
            }
            Poll::Pending => {
                cov.hit("pending readiness");
                if was_ready && self.focus == Focus::Sticky {
                    // a background task, or one that sheds, may hide a failure until it is asked again
                    let hidden = self.applied.iter().any(|l| matches!(l, L::Spawn | L::Buffer(_) | L::Shed));
                    let exempt = self.fail_epoch > if hidden { 0 } else { c.epoch }
                        && self.applied.iter().any(|l| matches!(l, L::Balance(_) | L::Reconnect));
                    ensure!(exempt, "stack {:?}: readiness was reported, then pending before any call", self.applied);
                }
                c.st = RSt::Pending(flag)
            }
        }
        Ok(())
    }
    fn call(&mut self, i: usize, cov: &mut Cov) -> R {
        let c = &mut self.clients[i];
        if !matches!(c.st, RSt::Ready) {
            return Ok(());
        }
        let Some(svc) = &mut c.svc else { return Ok(()) };
        let id = self.next_id;
        self.next_id += 1;
        self.w.begin_step();
        cov.tr(|| format!("client {i} call {id}"));
        let hold = if self.focus == Focus::LetGo { Hold::new() } else { Hold::default() };
        let fut = svc.call(Req { hold: hold.clone(), ..req(id) });
        c.st = RSt::Idle;
        cov.hit("called");
        self.flights.push(Flight { id, fut: Some(fut), flag: None, out: None, called_at: now(), hold, gone: None });
        Ok(())
    }
    fn poll_flight(&mut self, i: usize, cov: &mut Cov) -> R {
        let f = &mut self.flights[i];
        let Some(fut) = &mut f.fut else { return Ok(()) };
        self.w.begin_step();
        let (r, flag) = poll_fut(fut.as_mut());
        cov.tr(|| format!("request {} poll -> {r:?}", f.id));
        match r {
            Poll::Pending => f.flag = Some(flag),
            Poll::Ready(mut out) => {
                f.fut = None;
                if let Ok(resp) = &mut out {
                    resp.hold = Hold::default();
                }
                f.out = Some(out);
                cov.hit("response delivered");
                return self.check_outcome(i, cov);
            }
        }
        Ok(())
    }
    /// Nobody has a request, or its response, whose response future is finished or dropped.
    fn check_let_go(&self, when: &str) -> R {
        for f in &self.flights {
            let n = f.hold.others();
            ensure!(
                f.fut.is_some() || n == 0 || f.gone.as_ref().is_some_and(|g| !g.load(std::sync::atomic::Ordering::SeqCst)),
                "stack {:?}: request {} was {} {when}, but the stack still has {n} copies of it or its response",
                self.applied,
                f.id,
                if f.out.is_some() { "answered" } else { "cancelled" }
            );
        }
        Ok(())
    }
    fn has(&self, p: impl Fn(&L) -> bool) -> bool {
        self.applied.iter().any(p)
    }
    fn check_outcome(&mut self, i: usize, cov: &mut Cov) -> R {
        if self.focus != Focus::Outcome {
            return Ok(());
        }
        let f = &self.flights[i];
        let calls = self.w.calls_of(f.id);
        let dup = self.has(|l| l.duplicates());
        let w = self.w.lock();
        match f.out.as_ref().unwrap() {
            Ok(r) => {
                ensure!(r.req == f.id, "request {} got the response of request {}", f.id, r.req);
                let gi = self.b_groups.iter().position(|&g| g == w.svcs[r.svc].group).unwrap();
                let want = f.id + self.delta - self.skipped[gi];
                ensure!(r.val == want, "request {}: response value {} altered (expected {want})", f.id, r.val);
                ensure!(w.calls[r.call].st == CallSt::Taken(Ok(())), "response of request {} was not produced by the inner service", f.id);
                ensure!(dup || calls.len() == 1, "request {} reached the inner service {} times", f.id, calls.len());
                if dup {
                    ensure!(calls.contains(&r.call), "request {} answered by a call it did not make", f.id);
                }
            }
            Err(e) => {
                cov.hit("error delivered");
                if let Some(p) = find_perr(e.as_ref()) {
                    let own = calls.iter().any(|&c| w.calls[c].st == CallSt::Taken(Err(p)));
                    let ready_err = self.failed_groups && w.groups.iter().any(|g| g.fail_ready == Some(p));
                    let conn_err = p == 777_777 && self.failed_groups;
                    ensure!(own || ready_err || conn_err, "request {} got error {p} which neither its own dispatch nor readiness produced", f.id);
                    ensure!(dup || calls.len() <= 1, "request {} reached the inner service {} times", f.id, calls.len());
                    if own && !dup {
                        ensure!(calls.len() == 1, "request {}: {} dispatches", f.id, calls.len());
                    }
                } else if e.is::<tower::timeout::error::Elapsed>() {
                    let t = self.applied.iter().filter_map(|l| if let L::Timeout(t) = l { Some(*t as u64) } else { None }).min();
                    let el = now().duration_since(f.called_at).as_millis() as u64;
                    ensure!(t.map_or(false, |t| el >= t), "request {}: timeout error after {el} ms with timeouts {:?}", f.id, t);
                    cov.hit("timed out");
                } else if e.is::<tower::load_shed::error::Overloaded>() {
                    ensure!(self.has(|l| *l == L::Shed), "overload error without load shedding");
                    ensure!(dup || calls.is_empty() || self.above_shed_dup(), "request {} was shed but dispatched", f.id);
                    cov.hit("shed");
                } else {
                    ensure!(
                        self.failed_groups || self.any_failed_client,
                        "request {} failed with unexpected error {e:?} ({e})", f.id
                    );
                }
            }
        }
        Ok(())
    }
    fn above_shed_dup(&self) -> bool {
        false
    }
    /// Re-polls everything pending that was not woken: it must still be pending.
    async fn check_wakeups(&mut self, cov: &mut Cov) -> R {
        // looking must not change anything itself
        self.w.drop_later();
        settle().await;
        for i in 0..self.clients.len() {
            let woken = match &self.clients[i].st {
                RSt::Pending(f) => f.woken(),
                _ => continue,
            };
            self.poll_ready(i, cov)?;
            if !woken && !matches!(self.clients[i].st, RSt::Pending(_)) {
                return Err(format!("stack {:?}: lost wakeup: readiness became available but the waiting task was not woken", self.applied));
            }
            cov.hit("wake check on readiness");
        }
        for i in 0..self.flights.len() {
            let f = &self.flights[i];
            let Some(flag) = &f.flag else { continue };
            if f.fut.is_none() {
                continue;
            }
            let woken = flag.woken();
            self.poll_flight(i, cov)?;
            if !woken && self.flights[i].fut.is_none() {
                return Err(format!("stack {:?}: lost wakeup: request {} finished but its task was not woken", self.applied, self.flights[i].id));
            }
            cov.hit("wake check on response");
        }
        Ok(())
    }
    /// Polls what was woken (or never polled), until nothing is.
    async fn run_woken(&mut self, cov: &mut Cov) -> R {
        for round in 0..200 {
            settle().await;
            let mut any = false;
            for i in 0..self.clients.len() {
                if let RSt::Pending(f) = &self.clients[i].st {
                    if f.woken() {
                        any = true;
                        self.poll_ready(i, cov)?;
                    }
                }
            }
            for i in 0..self.flights.len() {
                if self.flights[i].fut.is_some() && self.flights[i].flag.as_ref().map_or(true, |f| f.woken()) {
                    any = true;
                    self.poll_flight(i, cov)?;
                }
            }
            if !any {
                return Ok(());
            }
            if round > 150 {
                return Err(format!("stack {:?}: tasks keep being woken without progress", self.applied));
            }
        }
        Ok(())
    }
    /// Everything woken is polled until nothing is; from then on, nothing may move while nothing changes outside.
    async fn check_rest(&mut self, cov: &mut Cov) -> R {
        self.w.drop_later();
        self.run_woken(cov).await?;
        let polls = |w: &World| {
            let x = w.lock();
            x.svcs.iter().map(|s| s.polls + s.calls).sum::<u64>() + x.calls.iter().map(|c| c.polls).sum::<u64>()
        };
        let p = polls(&self.w);
        for _ in 0..3 {
            settle().await;
        }
        let n = polls(&self.w) - p;
        ensure!(n == 0, "stack {:?}: {n} polls of inner services or futures although nothing changed: background work does not come to rest", self.applied);
        let waiting = self.clients.iter().filter(|c| matches!(c.st, RSt::Pending(_))).count() + self.flights.iter().filter(|f| f.fut.is_some()).count();
        for c in &self.clients {
            if let RSt::Pending(f) = &c.st {
                ensure!(!f.woken(), "stack {:?}: a waiting task was woken although nothing changed", self.applied);
            }
        }
        for f in &self.flights {
            ensure!(f.fut.is_none() || !f.flag.as_ref().map_or(false, |f| f.woken()), "stack {:?}: the task of request {} was woken although nothing changed", self.applied, f.id);
        }
        cov.hit("checked at rest");
        if waiting >= 2 {
            cov.nontrivial();
        }
        Ok(())
    }
    async fn op(&mut self, op: Op, cov: &mut Cov) -> R {
        let nc = self.clients.len();
        let nf = self.flights.len();
        cov.tr(|| format!("{op:?}"));
        match op {
            Op::Ready(i) if nc > 0 => self.poll_ready(i as usize % nc, cov)?,
            Op::Call(i) if nc > 0 => {
                let i = i as usize % nc;
                if matches!(self.clients[i].st, RSt::Ready) {
                    self.call(i, cov)?
                } else {
                    self.poll_ready(i, cov)?;
                    self.call(i, cov)?
                }
            }
            Op::Poll(i) if nf > 0 => self.poll_flight(i as usize % nf, cov)?,
            Op::DropFutWithin(i) if nf > 0 => {
                let f = &mut self.flights[i as usize % nf];
                if let Some(x) = f.fut.take() {
                    cov.hit("dropped a response future");
                    cov.hit("dropped a response future within an inner service");
                    let gone = Arc::new(std::sync::atomic::AtomicBool::new(false));
                    f.gone = Some(gone.clone());
                    self.w.lock().later.push(Later(Some(Box::new(x)), gone));
                }
            }
            Op::DropClientWithin(i) if nc > 1 => {
                let i = i as usize % nc;
                if self.clients.iter().filter(|c| c.svc.is_some()).count() > 1 {
                    if let Some(x) = self.clients[i].svc.take() {
                        cov.hit("dropped a handle");
                        cov.hit("dropped a handle within an inner service");
                        self.w.lock().later.push(Later(Some(Box::new(x)), Default::default()));
                    }
                    self.clients[i].st = RSt::Idle;
                }
            }
            Op::DropFut(i) if nf > 0 => {
                let f = &mut self.flights[i as usize % nf];
                if f.fut.take().is_some() {
                    cov.hit("dropped a response future");
                }
            }
            Op::Clone(i) if nc > 0 => {
                let i = i as usize % nc;
                if let Some(s) = &self.clients[i].svc {
                    if s.cloneable && nc < 6 && !matches!(self.clients[i].st, RSt::Failed) {
                        cov.hit_if(matches!(self.clients[i].st, RSt::Ready), "cloned while ready");
                        let s = s.clone();
                        self.clients.push(Client { svc: Some(s), st: RSt::Idle, epoch: 0 });
                        cov.hit("cloned");
                    }
                }
            }
            Op::DropClient(i) if nc > 1 => {
                let i = i as usize % nc;
                if self.clients.iter().filter(|c| c.svc.is_some()).count() > 1 {
                    let c = &mut self.clients[i];
                    if c.svc.take().is_some() {
                        cov.hit("dropped a handle");
                        cov.hit_if(matches!(c.st, RSt::Ready), "dropped a ready handle");
                    }
                    c.st = RSt::Idle;
                }
            }
            Op::Credits(g, n) => set_credits(&self.w, self.b_groups[g as usize % self.b_groups.len()], n),
            Op::Complete(k, ok) => {
                let ws = self.w.waiting_calls();
                if !ws.is_empty() {
                    let c = ws[k as usize % ws.len()];
                    self.w.complete(c, if ok { Ok(()) } else { Err(1000 + c as u64) });
                }
            }
            Op::Fail(g) => {
                let n = self.b_groups.len();
                let g = self.b_groups[g as usize % n];
                self.w.set_fail(g, Some(500 + g as u64));
                self.failed_groups = true;
                self.fail_epoch += 1;
                cov.hit("readiness failure injected");
            }
            Op::Hiccup(g, n) => self.w.set_hiccups(self.b_groups[g as usize % self.b_groups.len()], n as u32),
            Op::Advance(ms) => advance(ms as u64).await,
            Op::Settle => settle().await,
            Op::Check => {
                match self.focus {
                    Focus::Wakeup => self.check_wakeups(cov).await?,
                    Focus::Rest => self.check_rest(cov).await?,
                    _ => {}
                }
            }
            Op::Run => self.run_woken(cov).await?,
            _ => {}
        }
        if self.focus == Focus::LetGo && !self.has(|l| matches!(l, L::Buffer(_))) {
            // only a buffer passes requests to a task of its own
            self.check_let_go("before this step ended")?;
        }
        if self.focus == Focus::Protocol {
            if let Some(v) = self.w.violation() {
                return Err(format!("stack {:?}: {v}", self.applied));
            }
        }
        Ok(())
    }
    fn open_all(&self) {
        self.w.drop_later();
        for &g in &self.b_groups {
            self.w.set_hiccups(g, 0);
            self.w.set_credits(g, FREE);
        }
        for c in self.w.waiting_calls() {
            self.w.complete(c, Ok(()));
        }
    }
    async fn drain(&mut self, cov: &mut Cov) -> R {
        // every handle makes one more request and is then dropped; everything outstanding is completed
        let mut quiet = 0;
        // nested retries multiply, and each attempt can take a few rounds
        let attempts: usize = self.applied.iter().map(|l| if let L::Retry(n, _) = l { *n as usize + 1 } else { 1 }).product();
        let rounds = 400 + 4 * attempts.min(1000) * (1 + self.flights.len() + self.clients.len());
        let mut calls = self.w.ncalls();
        for round in 0..rounds {
            self.open_all();
            settle().await;
            let mut progress = self.w.ncalls() > calls;
            calls = self.w.ncalls();
            for i in 0..self.clients.len() {
                if self.clients[i].svc.is_none() {
                    continue;
                }
                if matches!(self.clients[i].st, RSt::Failed) {
                    self.clients[i].svc = None;
                    progress = true;
                    continue;
                }
                if !matches!(self.clients[i].st, RSt::Ready) {
                    self.poll_ready(i, cov)?;
                }
                if matches!(self.clients[i].st, RSt::Ready) {
                    self.call(i, cov)?;
                    self.clients[i].svc = None;
                    progress = true;
                }
            }
            for i in 0..self.flights.len() {
                if self.flights[i].fut.is_some() {
                    self.poll_flight(i, cov)?;
                    if self.flights[i].fut.is_none() {
                        progress = true;
                    }
                }
            }
            let open = self.clients.iter().any(|c| c.svc.is_some()) || self.flights.iter().any(|f| f.fut.is_some());
            if !open {
                break;
            }
            quiet = if progress { 0 } else { quiet + 1 };
            advance(50).await;
            if round + 1 == rounds && attempts > 1000 {
                cov.hit("retries without end in sight");
                break;
            }
            if quiet > 40 + 4 * attempts.min(1000) || round + 1 == rounds {
                let c = self.clients.iter().filter(|c| c.svc.is_some()).count();
                let f: Vec<_> = self.flights.iter().filter(|f| f.fut.is_some()).map(|f| f.id).collect();
                if self.failed_groups && self.has(|l| matches!(l, L::Balance(_))) {
                    // a balancer whose endpoints all failed stays pending until discovery adds some
                    cov.hit("balancer without endpoints");
                    break;
                }
                return Err(format!(
                    "stack {:?}: no progress although every inner service is ready and every call completed: {c} handles waiting, requests {f:?} unfinished",
                    self.applied
                ));
            }
        }
        Ok(())
    }
}

pub fn run_focus(case: &StackCase, cov: &mut Cov, focus: Focus) -> R {
    block_on(async {
        let w = World::new();
        let mut layers = case.layers.clone();
        if matches!(focus, Focus::Outcome | Focus::Cleanup) {
            // A steering handle keeps the services it did not pick reserved while it is idle, so limits below it and
            // limits above it can wait for each other (hold and wait) by design: give those below plenty of room.
            if let Some(top) = layers.iter().rposition(|l| matches!(l, L::Steer(_))) {
                for l in &mut layers[..top] {
                    match l {
                        L::Conc(n) | L::GlobalConc(n) | L::Buffer(n) => *n = 100,
                        _ => {}
                    }
                }
            }
        }
        let b = build(&w, &layers);
        for &g in &b.groups {
            set_credits(&w, g, case.init_credits);
        }
        for l in &b.applied {
            cov.hit(lname(l));
        }
        let mut d = Driver {
            w: w.clone(),
            b_groups: b.groups,
            applied: b.applied,
            delta: b.delta,
            skipped: b.skipped,
            clients: vec![Client { svc: Some(b.svc), st: RSt::Idle, epoch: 0 }],
            flights: vec![],
            next_id: 1,
            focus,
            failed_groups: false,
            fail_epoch: 0,
            any_failed_client: false,
        };
        for &op in &case.ops {
            d.op(op, cov).await?;
        }
        let calls = d.flights.len();
        match focus {
            Focus::Protocol => {
                d.drain(cov).await.ok();
                if let Some(v) = w.violation() {
                    return Err(format!("stack {:?}: {v}", d.applied));
                }
                if calls >= 2 && d.applied.len() >= 2 {
                    cov.nontrivial();
                }
            }
            Focus::Sticky => {
                if cov_has(cov, "re-polled while ready") {
                    cov.nontrivial();
                }
            }
            Focus::Wakeup => {
                d.check_wakeups(cov).await?;
                d.open_all();
                d.check_wakeups(cov).await?;
                advance(100).await;
                d.check_wakeups(cov).await?;
                if cov_has(cov, "wake check on readiness") || cov_has(cov, "wake check on response") {
                    cov.nontrivial();
                }
            }
            Focus::Rest => {
                d.check_rest(cov).await?;
                d.open_all();
                d.check_rest(cov).await?;
                advance(100).await;
                d.check_rest(cov).await?;
            }
            Focus::Outcome => {
                d.drain(cov).await?;
                for i in 0..d.flights.len() {
                    if d.flights[i].out.is_some() {
                        d.check_outcome(i, cov)?;
                    }
                }
                if calls >= 2 {
                    cov.nontrivial();
                }
            }
            Focus::LetGo => {
                // a worker may wait below for what an idle handle has reserved; these stacks are left to the drain phase of other checks
                let limits = |l: &L| matches!(l, L::Conc(_) | L::GlobalConc(_) | L::Rate(..) | L::Buffer(_));
                let waits = d.applied.iter().rposition(|l| matches!(l, L::Buffer(_))).is_some_and(|top| d.applied[..top].iter().any(limits))
                    || (d.failed_groups && d.has(|l| matches!(l, L::Balance(_))));
                let over = d.flights.iter().filter(|f| f.fut.is_none()).count();
                for _ in 0..8 {
                    d.open_all();
                    settle().await;
                    for i in 0..d.flights.len() {
                        d.poll_flight(i, cov)?;
                    }
                    advance(50).await;
                }
                settle().await;
                if !waits {
                    d.check_let_go("and every inner service is ready")?;
                    if over > 0 {
                        cov.nontrivial();
                    }
                    cov.hit_if(d.has(|l| matches!(l, L::Buffer(_))), "checked a worker at rest");
                }
            }
            Focus::Cleanup => {
                if !case.abrupt {
                    d.drain(cov).await?;
                }
                let failed = d.failed_groups;
                if failed && d.has(|l| matches!(l, L::Balance(_))) {
                    // a balancer whose endpoints have all failed never becomes ready, and a buffer above it keeps
                    // waiting for it: outside the property
                    return Ok(());
                }
                // away from the runtime a load measurement would read the real clock, not the paused one
                cov.hit_if(case.abrupt, "dropped while waiting");
                w.drop_later();
                let outside = case.outside && !d.has(|l| matches!(l, L::PeakLoad));
                if outside {
                    cov.hit("dropped outside the runtime");
                    let (clients, flights) = (std::mem::take(&mut d.clients), std::mem::take(&mut d.flights));
                    std::thread::spawn(move || {
                        for c in clients {
                            drop(c.svc);
                        }
                        for f in flights {
                            drop(f.fut);
                        }
                    })
                    .join()
                    .map_err(|_| format!("stack {:?}: dropping handles and futures outside the runtime panicked", d.applied))?;
                } else {
                    d.clients.clear();
                    d.flights.clear();
                }
                settle().await;
                if !d.has(|l| matches!(l, L::Buffer(_))) {
                    let (s, f) = (w.live_svcs(), w.live_futs());
                    ensure!(s == 0 && f == 0, "stack {:?}: {s} inner services and {f} inner response futures are still alive although all handles and futures were dropped", d.applied);
                }
                // the worker of a buffer notices when what it waits for is ready
                for _ in 0..=d.applied.len() {
                    d.open_all();
                    settle().await;
                    advance(100).await;
                }
                let (s, f) = (w.live_svcs(), w.live_futs());
                ensure!(s == 0 && f == 0, "stack {:?}: after all handles and futures were dropped, {s} inner services and {f} inner response futures are still alive", d.applied);
                if cov_has(cov, "dropped a response future") || cov_has(cov, "dropped a handle") || failed {
                    cov.nontrivial();
                }
            }
        }
        Ok(())
    })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct LeakCase {
    pub layers: Vec<L>,
    pub init_credits: u8,
    pub ops: Vec<Op>,
    /// at the end of a cycle: drop what is unfinished instead of completing it
    pub abandon: bool,
}
pub fn arb_leak() -> impl Strategy<Value = LeakCase> {
    (
        prop::collection::vec(arb_layer(true), 1..=3),
        prop_oneof![2 => Just(200u8), 1 => 0u8..3],
        hist(arb_op(false), 14),
        any::<bool>(),
    )
        .prop_map(|(layers, init_credits, ops, abandon)| LeakCase { layers, init_credits, ops, abandon })
}
pub const CYCLES: usize = 1024;
/// The same history over and over on one stack, brought back to rest in between: memory in use must not keep growing.
pub fn run_leak(case: &LeakCase, cov: &mut Cov) -> R {
    block_on(async {
        let w = World::new();
        let b = build(&w, &case.layers);
        for l in &b.applied {
            cov.hit(lname(l));
        }
        let mut d = Driver {
            w: w.clone(),
            b_groups: b.groups,
            applied: b.applied,
            delta: b.delta,
            skipped: b.skipped,
            clients: Vec::with_capacity(16),
            flights: Vec::with_capacity(64),
            next_id: 1,
            focus: Focus::Cleanup,
            failed_groups: false,
            fail_epoch: 0,
            any_failed_client: false,
        };
        d.clients.push(Client { svc: Some(b.svc), st: RSt::Idle, epoch: 0 });
        let mut used = Vec::with_capacity(CYCLES);
        let (mut calls, mut cancels) = (0, 0);
        for cycle in 0..CYCLES {
            for &g in &d.b_groups {
                set_credits(&w, g, case.init_credits);
            }
            for &op in &case.ops {
                d.op(op, cov).await?;
            }
            calls = d.flights.len();
            cancels = d.flights.iter().filter(|f| f.fut.is_none() && f.out.is_none()).count();
            if case.abandon {
                d.flights.clear();
            }
            // bring it back to rest: one handle, nothing in flight
            let keep = d.clients.iter().position(|c| c.svc.is_some()).unwrap();
            d.clients.swap(0, keep);
            d.clients.truncate(1);
            for _ in 0..60 {
                d.open_all();
                settle().await;
                for i in 0..d.flights.len() {
                    d.poll_flight(i, cov)?;
                }
                if d.flights.iter().all(|f| f.fut.is_none()) && w.in_flight() == 0 {
                    break;
                }
                advance(10).await;
            }
            // a request may need what the idle handle reserved: it is dropped then
            d.flights.clear();
            for c in &mut d.clients {
                if matches!(c.st, RSt::Pending(_)) {
                    c.st = RSt::Idle;
                }
            }
            // one more readiness check lets the handle settle the same way each time
            d.poll_ready(0, cov)?;
            advance(40).await;
            if matches!(d.clients[0].st, RSt::Failed) {
                cov.hit("handle failed");
                return Ok(());
            }
            used.push(net_bytes());
            // nothing grew so far: that is enough
            if [CYCLES / 16, CYCLES / 4].contains(&cycle) && !growing(&used) {
                break;
            }
        }
        if calls > 0 {
            cov.nontrivial();
        }
        cov.hit_if(cancels > 0, "a request was cancelled in each cycle");
        ensure!(
            used.len() < CYCLES || !growing(&used),
            "stack {:?}: memory in use keeps growing with equal work: {:?} bytes after {:?} cycles",
            d.applied,
            used.iter().step_by(CYCLES / 6).map(|b| b - used[0]).collect::<Vec<_>>(),
            (0..used.len()).step_by(CYCLES / 6).collect::<Vec<_>>()
        );
        Ok(())
    })
}

pub fn cov_has(c: &Cov, l: &'static str) -> bool {
    c.has(l)
}

fn lname(l: &L) -> &'static str {
    match l {
        L::Conc(_) => "layer concurrency",
        L::GlobalConc(_) => "layer global concurrency",
        L::Rate(..) => "layer rate",
        L::Timeout(_) => "layer timeout",
        L::Shed => "layer shed",
        L::Buffer(_) => "layer buffer",
        L::Spawn => "layer spawn-ready",
        L::Retry(..) => "layer retry",
        L::Filter => "layer filter",
        L::AsyncFilter(_) => "layer async filter",
        L::MapReq => "layer map request",
        L::MapResp => "layer map response",
        L::MapErr => "layer map err",
        L::MapResult => "layer map result",
        L::MapFuture => "layer map future",
        L::AndThen(_) => "layer and then",
        L::Then(_) => "layer then",
        L::Boxed => "layer boxed",
        L::BoxClone => "layer box clone",
        L::BoxCloneSync => "layer box clone sync",
        L::Left | L::Right => "layer either",
        L::OptSome => "layer optional",
        L::Steer(_) => "layer steer",
        L::Balance(_) => "layer balance",
        L::Hedge => "layer hedge",
        L::FutureSvc(_) => "layer future service",
        L::Reconnect => "layer reconnect",
        L::PendingLoad => "layer pending load",
        L::PeakLoad => "layer peak ewma",
        L::RefBox => "layer boxed reference",
    }
}
