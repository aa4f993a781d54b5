//! C44: middleware with nothing to do, and laws of their combination.
use crate::core::*;
use crate::diff::*;
use crate::dynsvc::*;
use crate::ensure;
use crate::probe::*;
use crate::rt::*;
use crate::stack::{self, L};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;
use tower::util::ServiceExt;
use tower_layer::Layer;

/// A middleware so configured that it never has anything to do.
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum N {
    Timeout,
    Conc,
    GlobalConc,
    Rate,
    Filter,
    AsyncFilter,
    Retry,
    RetryNoClone,
    Hedge,
    MapReq,
    MapResp,
    MapErr,
    MapResult,
    MapFuture,
    AndThen,
    Then,
    Pending,
    Peak,
    Constant,
    Boxed,
    BoxClone,
    BoxCloneSync,
    Left,
    Right,
    Some,
    Future,
    Steer,
    Balance,
    Reconnect,
    Identity,
    Builder,
    OptionLayer,
    /// without bounds
    TimeoutMax,
    ConcMax,
    RateMax,
    HedgeMax,
    /// these over services that are always ready
    Shed,
    Spawn,
    Buffer,
}
const ALL: &[N] = &[
    N::Timeout, N::Conc, N::GlobalConc, N::Rate, N::Filter, N::AsyncFilter, N::Retry, N::RetryNoClone, N::Hedge, N::MapReq, N::MapResp, N::MapErr, N::MapResult, N::MapFuture, N::AndThen,
    N::Then, N::Pending, N::Peak, N::Constant, N::Boxed, N::BoxClone, N::BoxCloneSync, N::Left, N::Right, N::Some, N::Future, N::Steer, N::Balance, N::Reconnect, N::Identity, N::Builder,
    N::OptionLayer, N::TimeoutMax, N::ConcMax, N::RateMax, N::HedgeMax, N::Shed, N::Spawn, N::Buffer,
];
impl N {
    fn cloneable(self) -> bool {
        !matches!(self, N::Rate | N::RateMax | N::Hedge | N::HedgeMax | N::Pending | N::Peak | N::Constant | N::Boxed | N::Some | N::Future | N::Balance | N::Reconnect | N::Spawn)
    }
    /// has something to do if the service is not always ready
    fn free(self) -> bool {
        matches!(self, N::Shed | N::Spawn | N::Buffer)
    }
    /// needs a service that can be cloned
    fn clones(self) -> bool {
        matches!(self, N::AsyncFilter | N::Retry | N::RetryNoClone | N::Hedge | N::HedgeMax | N::BoxClone | N::BoxCloneSync)
    }
    /// remembers that the service is ready
    fn keeps(self) -> bool {
        matches!(self, N::Steer | N::Balance | N::Reconnect | N::Future)
    }
    /// dispatches when the future is polled, to the instance that was ready, and goes on with a clone of it
    fn swaps(self) -> bool {
        matches!(self, N::AsyncFilter | N::Hedge | N::HedgeMax)
    }
}
#[derive(Clone)]
struct Never(bool);
impl tower::retry::Policy<Req, Resp, BoxError> for Never {
    type Future = std::future::Ready<()>;
    fn retry(&mut self, _: &mut Req, _: &mut Result<Resp, BoxError>) -> Option<Self::Future> {
        None
    }
    fn clone_request(&mut self, r: &Req) -> Option<Req> {
        self.0.then(|| r.clone())
    }
}
impl tower::hedge::Policy<Req> for Never {
    fn clone_request(&self, r: &Req) -> Option<Req> {
        self.0.then(|| r.clone())
    }
    fn can_retry(&self, _: &Req) -> bool {
        false
    }
}
struct At(Option<Dyn>);
impl tower_service::Service<()> for At {
    type Response = Dyn;
    type Error = BoxError;
    type Future = std::future::Ready<Result<Dyn, BoxError>>;
    fn poll_ready(&mut self, _: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), BoxError>> {
        std::task::Poll::Ready(Ok(()))
    }
    fn call(&mut self, _: ()) -> Self::Future {
        std::future::ready(self.0.take().ok_or_else(|| BoxError::from("a second connection was made")))
    }
}
fn put(n: N, d: Dyn) -> Dyn {
    let cl = d.cloneable;
    let hour = Duration::from_secs(3600);
    match n {
        N::Timeout => Dyn::cn(tower::timeout::TimeoutLayer::new(hour).layer(d), cl),
        N::Conc => Dyn::cn(tower::limit::ConcurrencyLimitLayer::new(1000).layer(d), cl),
        N::GlobalConc => Dyn::cn(tower::limit::GlobalConcurrencyLimitLayer::new(1000).layer(d), cl),
        N::Rate => Dyn::n(tower::limit::RateLimitLayer::new(1000, Duration::from_nanos(1)).layer(d)),
        N::TimeoutMax => Dyn::cn(tower::timeout::TimeoutLayer::new(Duration::MAX).layer(d), cl),
        N::ConcMax => Dyn::cn(tower::limit::ConcurrencyLimitLayer::new(tokio::sync::Semaphore::MAX_PERMITS).layer(d), cl),
        N::RateMax => Dyn::n(tower::limit::RateLimitLayer::new(u64::MAX, Duration::MAX).layer(d)),
        N::HedgeMax => Dyn::n(tower::hedge::Hedge::new(d, Never(false), u64::MAX, 1.0, Duration::MAX)),
        N::Filter => Dyn::cn(tower::filter::FilterLayer::new(|r: Req| Ok::<Req, BoxError>(r)).layer(d), cl),
        N::AsyncFilter => Dyn::c(tower::filter::AsyncFilterLayer::new(|r: Req| async move { Ok::<Req, BoxError>(r) }).layer(d)),
        N::Retry => Dyn::c(tower::retry::RetryLayer::new(Never(true)).layer(d)),
        N::RetryNoClone => Dyn::c(tower::retry::RetryLayer::new(Never(false)).layer(d)),
        N::Hedge => Dyn::n(tower::hedge::Hedge::new(d, Never(true), 1, 0.5, hour)),
        N::MapReq => Dyn::cn(d.map_request(|r: Req| r), cl),
        N::MapResp => Dyn::cn(d.map_response(|r: Resp| r), cl),
        N::MapErr => Dyn::cn(d.map_err(|e: BoxError| e), cl),
        N::MapResult => Dyn::cn(d.map_result(|r: Result<Resp, BoxError>| r), cl),
        N::MapFuture => Dyn::cn(d.map_future(|f: Fut| f), cl),
        N::AndThen => Dyn::cn(d.and_then(|r: Resp| std::future::ready(Ok::<_, BoxError>(r))), cl),
        N::Then => Dyn::cn(d.then(|r: Result<Resp, BoxError>| std::future::ready(r)), cl),
        N::Pending => Dyn::n(tower::load::PendingRequests::new(d, tower::load::CompleteOnResponse::default())),
        N::Peak => Dyn::n(tower::load::PeakEwma::new(d, Duration::from_millis(1), 1e6, tower::load::CompleteOnResponse::default())),
        N::Constant => Dyn::n(tower::load::Constant::new(d, 1)),
        N::Boxed => Dyn::n(tower::util::BoxService::new(d)),
        N::BoxClone => Dyn::c(tower::util::BoxCloneService::new(d)),
        N::BoxCloneSync => Dyn::c(tower::util::BoxCloneSyncService::new(SyncDyn::new(d))),
        N::Left => Dyn::cn(tower::util::Either::<Dyn, Dyn>::Left(d), cl),
        N::Right => Dyn::cn(tower::util::Either::<Dyn, Dyn>::Right(d), cl),
        N::Some => Dyn::n(tower::util::Optional::new(Some(d))),
        N::Future => Dyn::n(tower::util::future_service(std::future::ready(Ok::<_, BoxError>(d)))),
        N::Steer => Dyn::cn(tower::steer::Steer::new(vec![d], |_: &Req, _: &[Dyn]| 0), cl),
        N::Balance => Dyn::n(tower::balance::p2c::Balance::new(tower::discover::ServiceList::new(vec![tower::load::Constant::new(d, 1)]))),
        N::Reconnect => Dyn::n(tower::reconnect::Reconnect::new(At(Some(d)), ())),
        N::Shed => Dyn::cn(tower::load_shed::LoadShedLayer::new().layer(d), cl),
        N::Spawn => Dyn::n(tower::spawn_ready::SpawnReadyLayer::new().layer(d)),
        N::Buffer => Dyn::cn(tower::buffer::BufferLayer::new(1000).layer(d), cl),
        N::Identity => Dyn::cn(tower_layer::Identity::new().layer(d), cl),
        N::Builder => Dyn::cn(tower::ServiceBuilder::new().check_clone_not().service(d), cl),
        N::OptionLayer => Dyn::cn(tower::ServiceBuilder::new().option_layer(None::<tower::limit::ConcurrencyLimitLayer>).service(d).map_err(BoxError::from), cl),
    }
}
trait Plain {
    fn check_clone_not(self) -> Self;
}
impl<L> Plain for tower::ServiceBuilder<L> {
    fn check_clone_not(self) -> Self {
        self
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct NCase {
    layers: Vec<L>,
    /// what is put where
    put: Vec<(u8, N)>,
    eager: bool,
    closed: bool,
    groups: Vec<u8>,
    ops: Vec<DOp>,
}
fn arb_n() -> impl Strategy<Value = NCase> {
    let n = || (0u8..5, prop::sample::select(ALL));
    (
        prop::collection::vec(stack::arb_layer(true), 0..4),
        prop_oneof![3 => prop::collection::vec(n(), 1..2), 1 => prop::collection::vec(n(), 2..4)],
        any::<bool>(),
        any::<bool>(),
        prop::collection::vec(0u8..4, 1..6),
        arb_ops(50),
    )
        .prop_map(|(mut layers, mut put, mut eager, mut closed, groups, mut ops)| {
            // (what an instance answers must not depend on how often it was asked)
            ops.retain(|o| !matches!(o, DOp::Hiccup(_)));
            for o in &mut ops {
                if let DOp::PollWoken(i) = *o {
                    *o = DOp::Poll(i);
                }
            }
            if put.iter().any(|x| x.1.keeps()) {
                ops.retain(|o| !matches!(o, DOp::Fail(_)));
            }
            if put.iter().any(|x| x.1.free()) {
                ops.retain(|o| !matches!(o, DOp::Fail(_) | DOp::Gate(_)));
                closed = false;
                for l in &mut layers {
                    if matches!(l, L::Conc(_) | L::GlobalConc(_) | L::Rate(..) | L::Buffer(_) | L::FutureSvc(_) | L::Reconnect | L::Balance(_)) {
                        *l = L::MapReq;
                    }
                }
            }
            if put.iter().any(|x| x.1 == N::Buffer) {
                eager = false;
                // (the worker must have its turn before the future is polled)
                for x in &mut put {
                    if x.1 == N::Buffer {
                        x.0 = layers.len() as u8;
                    } else if x.1.swaps() {
                        x.1 = N::Retry;
                    }
                }
            }
            let eager = eager || put.iter().any(|x| x.1.swaps());
            NCase { layers, put, eager, closed, groups, ops }
        })
}
struct Groups<'a>(&'a [u8], Vec<usize>);
impl Hook<Dyn> for Groups<'_> {
    fn group(&self, step: usize, _: usize) -> usize {
        self.1[self.0[step % self.0.len()] as usize % self.1.len()]
    }
}
/// The wakeups are those of tasks that find nothing to do.
fn loose(ls: &[L]) -> bool {
    ls.iter().any(|l| matches!(l, L::Shed | L::Balance(_)))
}
fn neutral(c: &NCase, cov: &mut Cov) -> R {
    let put_in = |on: bool| -> (Log, usize) {
        block_on(async {
            let w = World::new();
            let mut n = 0;
            let b = stack::build_with(&w, &c.layers, &mut |i, mut d| {
                for &(at, k) in &c.put {
                    if at as usize % (c.layers.len() + 1) != i || (k.clones() && !d.cloneable) {
                        continue;
                    }
                    // (above: the future is polled later; a clone is not as ready as what a Steer or load shedding left off with)
                    if k.swaps() && (i < c.layers.len() || c.layers.iter().any(|l| matches!(l, L::Steer(_) | L::Shed))) {
                        continue;
                    }
                    // (which of several endpoints a balancer chooses depends on the order in which it finds them ready)
                    if k.keeps() && c.layers.iter().any(|l| matches!(l, L::Balance(_))) {
                        continue;
                    }
                    n += 1;
                    if on {
                        d = put(k, d);
                    } else if !k.cloneable() {
                        d = Dyn::n(d);
                    }
                }
                d
            });
            if c.closed {
                b.groups.iter().for_each(|&g| w.set_credits(g, 0));
            }
            let cl = b.svc.cloneable.then_some(Clone::clone as fn(&Dyn) -> Dyn);
            let mut h = Groups(&c.groups, b.groups.clone());
            let mut d = Driver::new(&w, b.groups[0], b.svc, cl);
            (d.brief, d.eager, d.once) = (true, c.eager, true);
            for &op in &c.ops {
                d.step(op, &mut h).await;
            }
            (d.finish(&mut h).await, n)
        })
    };
    let ((mut a, n), (b, m)) = (put_in(false), put_in(true));
    ensure!(n == m, "harness bug: {n} and {m}");
    if loose(&c.layers) {
        a.wakes.iter_mut().flatten().for_each(|v| *v = false);
    }
    if let Some(d) = a.differs(&b) {
        return Err(format!("stack {:?}: with {:?}, which have nothing to do, it is different: {d}", c.layers, c.put));
    }
    cov.hit_if(a.waits > 0, "waited for readiness");
    cov.hit_if(a.errors > 0, "errors");
    cov.hit_if(n > 1, "several at once");
    if n > 0 && a.answers >= 1 {
        cov.nontrivial();
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct LCase {
    below: Vec<L>,
    one: Vec<L>,
    two: Vec<L>,
    brief: bool,
    above: Vec<L>,
    closed: bool,
    groups: Vec<u8>,
    ops: Vec<DOp>,
}
fn arb_law() -> impl Strategy<Value = (bool, Vec<L>, Vec<L>)> {
    prop_oneof![
        10 => arb_exact().prop_map(|(a, b)| (false, a, b)),
        // so many attempts in all
        1 => (1u8..4, 1u8..4).prop_map(|(n, m)| (true, vec![L::Retry(n, 0), L::Retry(m, 0)], vec![L::Retry((n + 1) * (m + 1) - 1, 0)])),
    ]
}
fn arb_exact() -> impl Strategy<Value = (Vec<L>, Vec<L>)> {
    let t = || prop_oneof![3 => 1u16..30, 1 => Just(60_000u16)];
    let pure = prop::sample::select(vec![L::MapReq, L::MapResp, L::MapResult, L::MapFuture, L::MapErr, L::Left, L::Right, L::BoxClone, L::BoxCloneSync, L::Filter, L::Boxed, L::OptSome, L::RefBox, L::PendingLoad]);
    let map = || prop::sample::select(vec![L::MapResp, L::MapResult, L::MapFuture, L::AndThen(0), L::Then(0)]);
    prop_oneof![
        // the shorter of two timeouts counts
        3 => (t(), t()).prop_map(|(a, b)| (vec![L::Timeout(a), L::Timeout(b)], vec![L::Timeout(a.min(b))])),
        // the smaller limit, if it is outside
        3 => (1u8..5, 0u8..5).prop_map(|(a, m)| (vec![L::Conc(a + m), L::Conc(a)], vec![L::Conc(a)])),
        2 => (1u8..5, 0u8..5).prop_map(|(a, m)| (vec![L::GlobalConc(a + m), L::Conc(a)], vec![L::GlobalConc(a)])),
        2 => (1u8..5, 1u8..30).prop_map(|(n, p)| (vec![L::Rate(n, p), L::Rate(n, p)], vec![L::Rate(n, p)])),
        2 => Just((vec![L::Shed, L::Shed], vec![L::Shed])),
        // one way of adding to a response is as good as the other
        2 => (map(), map()).prop_map(|(a, b)| (vec![a], vec![b])),
        // what only looks at requests and responses commutes with everything
        8 => (pure, stack::arb_layer(true)).prop_filter("single", |(_, l)| !matches!(l, L::Steer(_) | L::Balance(_) | L::Reconnect)).prop_map(|(m, l)| (vec![m, l], vec![l, m])),
    ]
}
fn arb_l() -> impl Strategy<Value = LCase> {
    (
        prop::collection::vec(stack::arb_layer(true), 0..3),
        arb_law(),
        prop::collection::vec(stack::arb_layer(true), 0..3),
        any::<bool>(),
        prop::collection::vec(0u8..4, 1..6),
        arb_ops(50),
    )
        .prop_map(|(mut below, (brief, one, two), above, mut closed, groups, mut ops)| {
            if brief {
                // (retries within retries go to different instances, each of which may hold something)
                below.retain(|l| matches!(l, L::MapReq | L::MapResp | L::Filter | L::Timeout(_) | L::BoxClone | L::Left | L::Right | L::Then(_) | L::AndThen(_)));
                ops.retain(|o| !matches!(o, DOp::Hiccup(_) | DOp::Gate(_) | DOp::Fail(_)));
                closed = false;
            }
            LCase { below, one, two, brief, above, closed, groups, ops }
        })
}
fn laws(c: &LCase, cov: &mut Cov) -> R {
    // (boxing once more can only take cloning away)
    let clones = |mid: &[L]| block_on(async { stack::build(&World::new(), &[&c.below, mid, &c.above].concat()).svc.cloneable });
    let cloneable = clones(&c.one) && clones(&c.two);
    let go = |mid: &[L]| -> (Log, Vec<L>, bool) {
        block_on(async {
            let w = World::new();
            let ls: Vec<L> = [&c.below, mid, &c.above].concat();
            let b = stack::build(&w, &ls);
            if c.closed {
                b.groups.iter().for_each(|&g| w.set_credits(g, 0));
            }
            let cl = cloneable.then_some(Clone::clone as fn(&Dyn) -> Dyn);
            let mut h = Groups(&c.groups, b.groups.clone());
            let skipped = b.applied.len() < ls.len();
            let mut d = Driver::new(&w, b.groups[0], b.svc, cl);
            d.brief = c.brief;
            for &op in &c.ops {
                d.step(op, &mut h).await;
            }
            (d.finish(&mut h).await, b.applied, skipped)
        })
    };
    let ((a, one, s1), (b, two, s2)) = (go(&c.one), go(&c.two));
    // (layers that need a service that can be cloned may have been left out)
    if s1 || s2 {
        return Ok(());
    }
    let (mut a, mut b) = (a, b);
    for v in a.wakes.iter_mut().chain(&mut b.wakes).flatten() {
        *v &= !loose(&one);
    }
    if let Some(d) = a.differs(&b).or_else(|| b.differs(&a)) {
        return Err(format!("the stacks {one:?} and {two:?} should be alike: {d}"));
    }
    cov.hit_if(a.waits > 0, "waited for readiness");
    cov.hit_if(a.errors > 0, "errors");
    cov.hit_if(a.clones > 0, "clones");
    if a.answers >= 1 && a.calls >= 2 {
        cov.nontrivial();
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C44",
        assumptions: &["the services inside answer alike however often they are asked"],
        subs: vec![
            sub("neutral", "something was put in and something was answered", 150_000, arb_n, neutral),
            sub("laws", "two requests and an answer", 150_000, arb_l, laws),
        ],
    }]
}
