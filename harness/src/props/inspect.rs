//! C38 looking at services: `Debug`, accessors, loads and lookups.
use crate::core::*;
use crate::diff::*;
use crate::ensure;
use crate::probe::*;
use crate::rt::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use std::task::Poll;
use std::time::Duration;
use tower::load::{CompleteOnResponse, Load, PeakEwma, PendingRequests};
use tower::util::{BoxCloneService, BoxCloneSyncService, BoxService, Either, Optional, ServiceExt, UnsyncBoxService};
use tower_service::Service;

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Kind {
    Timeout,
    Rate,
    Conc,
    ConcLoad,
    RateLoad,
    Filter,
    AsyncFilter,
    MapFuture,
    Retry,
    LoadShed,
    Buffer,
    SpawnReady,
    Hedge,
    Balance,
    Steer,
    Reconnect,
    MapRequest,
    MapResponse,
    MapErr,
    MapResult,
    AndThen,
    Then,
    Left,
    Right,
    Optional,
    Boxed,
    BoxClone,
    BoxCloneSync,
    Unsync,
    Future,
    Pending,
    Ewma,
    Ready,
}
use Kind::*;
const KINDS: [Kind; 33] = [
    Timeout,
    Rate,
    Conc,
    ConcLoad,
    RateLoad,
    Filter,
    AsyncFilter,
    MapFuture,
    Retry,
    LoadShed,
    Buffer,
    SpawnReady,
    Hedge,
    Balance,
    Steer,
    Reconnect,
    MapRequest,
    MapResponse,
    MapErr,
    MapResult,
    AndThen,
    Then,
    Left,
    Right,
    Optional,
    Boxed,
    BoxClone,
    BoxCloneSync,
    Unsync,
    Future,
    Pending,
    Ewma,
    Ready,
];
#[derive(Debug, Clone, Serialize, Deserialize)]
struct ICase {
    kind: Kind,
    n: u8,
    closed: bool,
    /// after which steps to look
    looks: Vec<bool>,
    ops: Vec<DOp>,
}
fn arb() -> impl Strategy<Value = ICase> {
    (prop::sample::select(KINDS.to_vec()), 1u8..4, any::<bool>(), prop::collection::vec(prop::bool::weighted(0.6), 1..12), arb_ops(40))
        .prop_map(|(kind, n, closed, looks, mut ops)| {
            if kind == Reconnect {
                // its connections share one state: none is to fail in its very first readiness check (C24)
                ops.retain(|o| !matches!(o, DOp::Fail(_)));
            }
            ICase { kind, n, closed, looks, ops }
        })
}

/// Where the inner service is found: by reference, by mutable reference, by taking the middleware apart.
struct Ids<S> {
    by_ref: fn(&S) -> usize,
    by_mut: fn(&mut S) -> usize,
    take: fn(S) -> Probe,
    /// calls reach that very instance at once
    direct: bool,
}
struct Insp<S: Service<Req>> {
    looks: Vec<bool>,
    at: usize,
    looked: usize,
    text: fn(&S) -> String,
    ftext: Option<fn(&S::Future) -> String>,
    ids: Option<Ids<S>>,
    loads: Option<fn(&S) -> bool>,
    expect: Option<usize>,
    err: Option<String>,
}
impl<S: Service<Req>> Insp<S> {
    fn now(&mut self) -> bool {
        self.at += 1;
        let y = self.looks[self.at % self.looks.len()];
        self.looked += y as usize;
        y
    }
    fn fail(&mut self, m: String) {
        self.err.get_or_insert(m);
    }
    fn ids(&mut self, s: &mut S) -> Option<usize> {
        let i = self.ids.as_ref()?;
        let (a, b) = ((i.by_ref)(s), (i.by_mut)(s));
        if a != b {
            self.fail(format!("get_ref gives instance {a}, get_mut instance {b}"));
        }
        Some(a)
    }
}
impl<S: Service<Req>> Hook<S> for Insp<S> {
    fn svc(&mut self, s: &mut S) {
        if !self.now() {
            return;
        }
        if (self.text)(s).is_empty() {
            self.fail("empty debug text".into());
        }
        self.ids(s);
        if self.loads.map_or(false, |l| !l(s)) {
            self.fail("the load reported differs from the wrapped service's".into());
        }
    }
    fn fut(&mut self, f: &S::Future) {
        if self.now() {
            self.ftext.map(|t| t(f));
        }
    }
    fn before_call(&mut self, s: &mut S) {
        self.expect = self.ids(s);
    }
    fn after_call(&mut self, s: &mut S, to: Option<usize>) {
        if let (Some(e), Some(t), Some(true)) = (self.expect, to, self.ids.as_ref().map(|i| i.direct)) {
            if e != t {
                self.fail(format!("the accessors gave instance {e}, the request went to {t}"));
            }
        }
        self.svc(s);
    }
    fn discard(&mut self, mut s: S) {
        let Some(a) = self.ids(&mut s) else {
            return drop(s);
        };
        let p = (self.ids.as_ref().unwrap().take)(s);
        if p.id != a || !p.world.lock().svcs[a].alive {
            self.fail(format!("the accessors gave instance {a}, taking the middleware apart gave {}", p.id));
        }
    }
}

type MkInsp<S> = (fn(&S) -> String, Option<fn(&<S as Service<Req>>::Future) -> String>, Option<Ids<S>>, Option<fn(&S) -> bool>);
/// (in two steps, so that the type of the service is known when the rest is checked)
struct With<S, F>(F, std::marker::PhantomData<S>);
fn with<S, F: Fn(Probe, &World, usize) -> S>(mk: F) -> With<S, F> {
    With(mk, std::marker::PhantomData)
}
impl<S, F: Fn(Probe, &World, usize) -> S> With<S, F>
where
    S: Service<Req, Response = Resp>,
    S::Error: Into<BoxError>,
{
    fn run(self, c: &ICase, cov: &mut Cov, cl: Option<fn(&S) -> S>, i: MkInsp<S>) -> R {
        let mk = self.0;
        let plain = block_on(async {
            let (w, g, p) = world(c.closed);
            let s = mk(p, &w, g);
            drive(&w, g, s, cl, &c.ops).await
        });
        let (looked, insp) = block_on(async {
            let (w, g, p) = world(c.closed);
            let s = mk(p, &w, g);
            let mut insp = Insp { looks: c.looks.clone(), at: 0, looked: 0, text: i.0, ftext: i.1, ids: i.2, loads: i.3, expect: None, err: None };
            let log = drive_with(&w, g, s, cl, &c.ops, &mut insp).await;
            (log, insp)
        });
        if let Some(e) = insp.err {
            return Err(format!("{:?}: {e}", c.kind));
        }
        for (a, b) in [(&plain, &looked), (&looked, &plain)] {
            if let Some(d) = a.differs(b) {
                return Err(format!("{:?}: looking at the service made a difference: {d}", c.kind));
            }
        }
        note(&plain, cov);
        cov.hit_if(insp.looked >= 10, "looked often");
        Ok(())
    }
}
macro_rules! ids {
    ($direct:expr) => {
        Some(Ids { by_ref: |s| s.get_ref().id, by_mut: |s| s.get_mut().id, take: |s| s.into_inner(), direct: $direct })
    };
}
#[derive(Clone, Debug)]
struct Again(u8);
impl tower::retry::Policy<Req, Resp, PErr> for Again {
    type Future = std::future::Ready<()>;
    fn retry(&mut self, r: &mut Req, x: &mut Result<Resp, PErr>) -> Option<Self::Future> {
        self.0 += 1;
        (x.is_err() && r.id % 2 == 0 && self.0 < 4).then(|| std::future::ready(()))
    }
    fn clone_request(&mut self, r: &Req) -> Option<Req> {
        Some(r.clone())
    }
}
#[derive(Clone, Debug)]
struct Hedged;
impl tower::hedge::Policy<Req> for Hedged {
    fn clone_request(&self, r: &Req) -> Option<Req> {
        Some(r.clone())
    }
    fn can_retry(&self, r: &Req) -> bool {
        r.id % 3 > 0
    }
}
struct Rng(u64);
impl tower::util::rng::Rng for Rng {
    fn next_u64(&mut self) -> u64 {
        super::balance::splitmix(&mut self.0)
    }
}
#[derive(Clone, Debug)]
struct Maker(World, usize);
impl Service<()> for Maker {
    type Response = Probe;
    type Error = PErr;
    type Future = std::future::Ready<Result<Probe, PErr>>;
    fn poll_ready(&mut self, _: &mut std::task::Context<'_>) -> Poll<Result<(), PErr>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, _: ()) -> Self::Future {
        std::future::ready(Ok(self.0.probe(self.1)))
    }
}
fn req_of(r: Req) -> Req {
    r
}
fn pick(r: &Req, s: &[Probe]) -> usize {
    r.id as usize % s.len()
}
fn refuse(r: Req) -> Result<Req, BoxError> {
    if r.id % 4 == 3 {
        Err(Box::new(PErr(77)))
    } else {
        Ok(r)
    }
}

fn refuse_later(r: Req) -> futures_core::future::BoxFuture<'static, Result<Req, BoxError>> {
    Box::pin(async move {
        if r.id % 3 == 0 {
            tokio::time::sleep(Duration::from_millis(5)).await;
        }
        refuse(r)
    })
}
fn run(c: &ICase, cov: &mut Cov) -> R {
    use tower::limit::{rate::Rate as Quota, ConcurrencyLimit, RateLimit};
    let n = c.n as usize;
    let ms = |x: u64| Duration::from_millis(x);
    macro_rules! c {
        () => {
            Some(Clone::clone)
        };
    }
    macro_rules! t {
        () => {
            |s| format!("{s:?}{s:#?}")
        };
    }
    macro_rules! go {
        ($cl:expr, $mk:expr, $ft:expr, $ids:expr, $l:expr) => {
            with($mk).run(c, cov, $cl, (t!(), $ft, $ids, $l))
        };
    }
    match c.kind {
        Timeout => go!(c!(), |p, _, _| tower::timeout::Timeout::new(p, ms(10 * c.n as u64)), Some(t!()), ids!(true), None),
        Rate => go!(None, |p, _, _| RateLimit::new(p, Quota::new(n as u64, ms(20))), Some(t!()), ids!(true), Some(|s| s.load() == s.get_ref().load())),
        Conc => go!(c!(), |p, _, _| ConcurrencyLimit::new(p, n), Some(t!()), ids!(true), Some(|s| s.load() == s.get_ref().load())),
        ConcLoad => {
            go!(None, |p, _, _| ConcurrencyLimit::new(PendingRequests::new(p, CompleteOnResponse::default()), n), None, None, Some(|s| s.load() == s.get_ref().load()))
        }
        RateLoad => go!(
            None,
            |p, _, _| RateLimit::new(PendingRequests::new(p, CompleteOnResponse::default()), Quota::new(n as u64, ms(20))),
            None,
            None,
            Some(|s| s.load() == s.get_ref().load())
        ),
        Filter => go!(c!(), |p, _, _| tower::filter::Filter::new(p, refuse as fn(Req) -> Result<Req, BoxError>), None, ids!(true), None),
        AsyncFilter => go!(
            c!(),
            |p, _, _| tower::filter::AsyncFilter::new(p, refuse_later as fn(Req) -> futures_core::future::BoxFuture<'static, Result<Req, BoxError>>),
            None,
            ids!(false),
            None
        ),
        MapFuture => go!(c!(), |p: Probe, _, _| p.map_future(|f: ProbeFut| f), Some(t!()), ids!(true), None),
        Retry => go!(c!(), |p, _, _| tower::retry::Retry::new(Again(0), p), None, ids!(true), None),
        LoadShed => go!(c!(), |p, _, _| tower::load_shed::LoadShed::new(p), Some(t!()), None, None),
        Buffer => go!(c!(), |p, _, _| tower::buffer::Buffer::new(p, n), Some(t!()), None, None),
        SpawnReady => go!(None, |p, _, _| tower::spawn_ready::SpawnReady::new(p), None, None, None),
        Hedge => go!(None, |p, _, _| tower::hedge::Hedge::new(p, Hedged, c.n as u64, 0.5, ms(50)), None, None, None),
        Balance => go!(
            None,
            |p: Probe, w: &World, g| {
                let mut v = vec![p];
                v.extend((1..n).map(|_| w.probe(g)));
                tower::balance::p2c::Balance::from_rng(tower::discover::ServiceList::new(v), Rng(7))
            },
            None,
            None,
            Some(|s| s.is_empty() == (s.len() == 0))
        ),
        Steer => go!(
            None,
            |p: Probe, w: &World, g| {
                let mut v = vec![p];
                v.extend((1..n).map(|_| w.probe(g)));
                tower::steer::Steer::new(v, pick as fn(&Req, &[Probe]) -> usize)
            },
            None,
            None,
            None
        ),
        Reconnect => go!(
            None,
            |p: Probe, w: &World, g| {
                drop(p);
                tower::reconnect::Reconnect::new(Maker(w.clone(), g), ())
            },
            None,
            None,
            None
        ),
        MapRequest => go!(c!(), |p: Probe, _, _| p.map_request(req_of), None, None, None),
        MapResponse => go!(c!(), |p: Probe, _, _| p.map_response(|r: Resp| r), None, None, None),
        MapErr => go!(c!(), |p: Probe, _, _| p.map_err(|e: PErr| e), None, None, None),
        MapResult => go!(c!(), |p: Probe, _, _| p.map_result(|r: Result<Resp, PErr>| r), None, None, None),
        AndThen => go!(c!(), |p: Probe, _, _| p.and_then(|r: Resp| std::future::ready(Ok::<_, PErr>(r))), Some(t!()), None, None),
        Then => go!(c!(), |p: Probe, _, _| p.then(std::future::ready::<Result<Resp, PErr>>), None, None, None),
        Left => go!(c!(), |p, _, _| Either::<_, Probe>::Left(p), None, None, None),
        Right => go!(c!(), |p, _, _| Either::<Probe, _>::Right(p), None, None, None),
        Kind::Optional => go!(None, |p, _, _| Optional::new((n > 1).then_some(p)), Some(t!()), None, None),
        Boxed => go!(None, |p, _, _| BoxService::new(p), None, None, None),
        BoxClone => go!(c!(), |p, _, _| BoxCloneService::new(p), None, None, None),
        BoxCloneSync => go!(c!(), |p: Probe, _, _| BoxCloneSyncService::new(p), None, None, None),
        Unsync => go!(None, |p, _, _| UnsyncBoxService::new(p), None, None, None),
        Kind::Future => go!(
            None,
            |p: Probe, _, _| tower::util::future_service(Box::pin(async move {
                tokio::time::sleep(Duration::from_millis(15)).await;
                Ok::<_, PErr>(p)
            })),
            None,
            None,
            None
        ),
        Pending => go!(None, |p, _, _| PendingRequests::new(p, CompleteOnResponse::default()), None, None, Some(|s| s.load() == s.load())),
        // observing a peak EWMA counts as an update: only its text is looked at
        Ewma => go!(None, |p, _, _| PeakEwma::new(p, Duration::from_secs(1), 1e6, CompleteOnResponse::default()), None, None, None),
        Ready => go!(None, |p: Probe, _, _| tower::util::BoxService::new(p.boxed()), None, None, None),
    }
}

// ---------------------------------------------------------------- the ready cache and the budget

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub enum Op {
    Push(u8),
    Evict(u8),
    Poll,
    Check(u8, bool),
    Gate(u8, u8),
    Fail(u8),
    Advance(u16),
    Deposit,
    Withdraw,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct XCase {
    ratio: u8,
    reserve: u8,
    looks: Vec<bool>,
    ops: Vec<Op>,
}
pub fn arb_x() -> impl Strategy<Value = XCase> {
    let k = || 0u8..4;
    let op = prop_oneof![
        4 => k().prop_map(Op::Push),
        2 => k().prop_map(Op::Evict),
        4 => Just(Op::Poll),
        4 => (k(), any::<bool>()).prop_map(|(a, b)| Op::Check(a, b)),
        4 => (k(), 0u8..4).prop_map(|(a, b)| Op::Gate(a, b)),
        1 => k().prop_map(Op::Fail),
        3 => (0u16..1500).prop_map(Op::Advance),
        5 => Just(Op::Deposit),
        3 => Just(Op::Withdraw),
    ];
    (0u8..20, 0u8..4, prop::collection::vec(prop::bool::weighted(0.6), 1..12), hist(op, 50)).prop_map(|(ratio, reserve, looks, ops)| XCase { ratio, reserve, looks, ops })
}
fn structures(c: &XCase, cov: &mut Cov) -> R {
    structures_by(c, cov, false)
}
pub fn structures_again(c: &XCase, cov: &mut Cov) -> R {
    structures_by(c, cov, true)
}
fn structures_by(c: &XCase, cov: &mut Cov, again: bool) -> R {
    use tower::ready_cache::ReadyCache;
    use tower::retry::budget::{Budget, TpsBudget};
    let trace = |look: bool| -> Result<(Vec<String>, usize, usize), String> {
        block_on(async {
            let w = World::new();
            let gs: Vec<usize> = (0..4).map(|_| w.group(Group { credits: if c.reserve % 2 == 0 { FREE } else { 0 }, ..Default::default() })).collect();
            let b = Arc::new(TpsBudget::new(Duration::from_secs(1), c.reserve as u32, c.ratio as f32 / 10.0));
            let mut cache: ReadyCache<u8, Probe, Req> = ReadyCache::default();
            let mut out = vec![];
            let (mut served, mut budgets) = (0, 0);
            let mut polls = 0;
            // the cache was given something since it was polled
            let mut news = true;
            let mut flag: Option<Arc<Flag>> = None;
            for (i, &op) in c.ops.iter().enumerate() {
                w.begin_step();
                let mut line = format!("{op:?}");
                match op {
                    Op::Push(k) => cache.push(k, w.probe(gs[k as usize])),
                    Op::Evict(k) => line += &format!(" {}", cache.evict(&k)),
                    Op::Poll => {
                        let (r, f) = with_waker(|cx| cache.poll_pending(cx).map_err(|e| (e.0, err_text(e.1))));
                        flag = r.is_pending().then_some(f);
                        news = false;
                        line += &format!(" {r:?}");
                    }
                    Op::Check(k, call) => {
                        let (r, _) = with_waker(|cx| cache.check_ready(cx, &k).map_err(|e| (e.0, err_text(e.1))));
                        line += &format!(" {r:?}");
                        if let (Ok(true), true) = (r, call) {
                            drop(cache.call_ready(&k, req(i as u64)));
                            served += 1;
                        }
                    }
                    Op::Gate(k, n) => w.set_credits(gs[k as usize], if n == 3 { FREE } else { n as u64 }),
                    Op::Fail(k) => w.set_fail(gs[k as usize], Some(5)),
                    Op::Advance(t) => advance(t as u64).await,
                    Op::Deposit => b.deposit(),
                    Op::Withdraw => {
                        let y = b.withdraw();
                        budgets += 1;
                        line += &format!(" {y}");
                    }
                }
                if matches!(op, Op::Push(_) | Op::Evict(_) | Op::Check(..)) {
                    news = true;
                }
                if look && again && !news && c.looks[i % c.looks.len()] && flag.as_ref().map_or(false, |f| !f.woken()) {
                    let (r, f) = with_waker(|cx| cache.poll_pending(cx).map_err(|e| (e.0, err_text(e.1))));
                    ensure!(r.is_pending(), "poll_pending waited and was not woken, polled again it gives {r:?}");
                    flag = Some(f);
                    polls += 1;
                }
                if look && !again && c.looks[i % c.looks.len()] {
                    let text = format!("{cache:?}{cache:#?}{b:?}");
                    ensure!(!text.is_empty(), "empty debug text");
                    ensure!(
                        cache.len() == cache.ready_len() + cache.pending_len(),
                        "{} services: {} ready and {} pending",
                        cache.len(),
                        cache.ready_len(),
                        cache.pending_len()
                    );
                    ensure!(cache.is_empty() == (cache.len() == 0), "is_empty is {} with {} services", cache.is_empty(), cache.len());
                    for k in 0..4u8 {
                        let a = cache.get_ready(&k).map(|(i, k, p)| (i, *k, p.id));
                        let b = cache.get_ready_mut(&k).map(|(i, k, p)| (i, *k, p.id));
                        ensure!(a == b, "get_ready gives {a:?}, get_ready_mut {b:?}");
                        if let Some((i, ..)) = a {
                            let x = cache.get_ready_index(i).map(|(k, p)| (i, *k, p.id));
                            let y = cache.get_ready_index_mut(i).map(|(k, p)| (i, *k, p.id));
                            ensure!(a == x && a == y, "get_ready gives {a:?}, by index {x:?} and {y:?}");
                            ensure!(a.unwrap().1 == k, "looking for {k} gives {a:?}");
                        }
                        let _ = cache.pending_contains(&k);
                    }
                }
                line += &format!(" | {:?} {:?}", flag.as_ref().map(|f| f.woken()), w.lock().svcs.iter().map(|s| (s.alive, s.ready)).collect::<Vec<_>>());
                out.push(line);
            }
            let mut left = 0;
            while b.withdraw() && left < 1000 {
                left += 1;
            }
            out.push(format!("left {left}"));
            Ok((out, served, if again { polls } else { budgets }))
        })
    };
    let (a, ..) = trace(false)?;
    let (b, served, budgets) = trace(true)?;
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        ensure!(x == y, "{} made a difference at step {i}: `{x}` against `{y}`", if again { "polling again" } else { "looking" });
    }
    if served > 0 && budgets > 0 {
        cov.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- futures, streams and adapters

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Helper {
    Oneshot,
    ReadyOneshot,
    Ready,
    CallAll,
    Unordered,
    Spawn,
    IntoService,
    AsService,
    MakeBalance,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub enum HOp {
    Poll,
    Call,
    Gate(u8),
    Complete(u8, bool),
    Fail,
    Hiccup(u8),
    Push,
    End,
    /// the next readiness check (or call) of the inner service panics
    Panic(bool),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct HCase {
    kind: Helper,
    looks: Vec<bool>,
    ops: Vec<HOp>,
}
pub fn arb_h() -> impl Strategy<Value = HCase> {
    use Helper::*;
    let op = prop_oneof![
        10 => Just(HOp::Poll),
        3 => Just(HOp::Call),
        4 => (0u8..4).prop_map(HOp::Gate),
        4 => (0u8..4, any::<bool>()).prop_map(|(a, b)| HOp::Complete(a, b)),
        1 => Just(HOp::Fail),
        1 => (1u8..3).prop_map(HOp::Hiccup),
        3 => Just(HOp::Push),
        1 => Just(HOp::End),
        1 => any::<bool>().prop_map(HOp::Panic),
    ];
    (
        prop::sample::select(vec![Oneshot, ReadyOneshot, Ready, CallAll, Unordered, Spawn, IntoService, AsService, MakeBalance]),
        prop::collection::vec(prop::bool::weighted(0.6), 1..12),
        hist(op, 40),
    )
        .prop_map(|(kind, looks, ops)| HCase { kind, looks, ops })
}
#[derive(Debug, Clone, Default)]
struct Reqs(Arc<std::sync::Mutex<(std::collections::VecDeque<u64>, bool, Option<std::task::Waker>)>>);
impl futures_core::Stream for Reqs {
    type Item = Req;
    fn poll_next(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Option<Req>> {
        let mut x = self.0.lock().unwrap();
        match x.0.pop_front() {
            Some(i) => Poll::Ready(Some(req(i))),
            None if x.1 => Poll::Ready(None),
            None => {
                x.2 = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
/// A service that makes discovery streams out of requests.
#[derive(Debug, Clone)]
struct MakeList(Probe);
impl Service<Req> for MakeList {
    type Response = tower::discover::ServiceList<Vec<Probe>>;
    type Error = PErr;
    type Future = std::pin::Pin<Box<dyn std::future::Future<Output = Result<Self::Response, PErr>> + Send>>;
    fn poll_ready(&mut self, cx: &mut std::task::Context<'_>) -> Poll<Result<(), PErr>> {
        self.0.poll_ready(cx)
    }
    fn call(&mut self, r: Req) -> Self::Future {
        let (p, f) = (self.0.clone(), self.0.call(r));
        Box::pin(async move { f.await.map(|_| tower::discover::ServiceList::new(vec![p])) })
    }
}
#[derive(Debug, Clone)]
struct Makes(Probe);
impl Service<Req> for Makes {
    type Response = Probe;
    type Error = PErr;
    type Future = std::pin::Pin<Box<dyn std::future::Future<Output = Result<Probe, PErr>> + Send>>;
    fn poll_ready(&mut self, cx: &mut std::task::Context<'_>) -> Poll<Result<(), PErr>> {
        self.0.poll_ready(cx)
    }
    fn call(&mut self, r: Req) -> Self::Future {
        let (p, f) = (self.0.clone(), self.0.call(r));
        Box::pin(async move { f.await.map(|_| p) })
    }
}

/// Polls the futures that have not ended; what came of them.
fn poll_all<F: std::future::Future>(futs: &mut [Option<std::pin::Pin<Box<F>>>], cx: &mut std::task::Context<'_>, show: impl Fn(Poll<F::Output>) -> String) -> String {
    let mut line = String::new();
    for f in futs {
        if let Some(x) = f.as_mut() {
            let r = x.as_mut().poll(cx);
            if r.is_ready() {
                *f = None;
            }
            line += &show(r);
        }
    }
    line
}

fn helpers(c: &HCase, cov: &mut Cov) -> R {
    helpers_by(c, cov, false)
}
pub fn helpers_again(c: &HCase, cov: &mut Cov) -> R {
    helpers_by(c, cov, true)
}
fn helpers_by(c: &HCase, cov: &mut Cov, again: bool) -> R {
    use Helper::*;
    // the others have several things to poll
    let one = matches!(c.kind, Oneshot | ReadyOneshot | Ready | CallAll | Unordered);
    let mut polls = 0;
    let mut done = 0;
    let mut panicked = false;
    let mut trace = |look: bool| -> Result<Vec<String>, String> {
        block_on(async {
            use std::future::Future as _;
            let (w, g, p) = world(true);
            let reqs = Reqs::default();
            let mut out: Vec<String> = vec![];
            // polls the object once more; None: it has ended
            let mut step: Box<dyn FnMut(bool, &mut std::task::Context<'_>) -> Option<String>>;
            let text: Box<dyn Fn() -> String>;
            macro_rules! fut {
                ($f:expr) => {{
                    let f = std::rc::Rc::new(std::cell::RefCell::new(Some(Box::pin($f))));
                    let f2 = f.clone();
                    text = Box::new(move || format!("{f2:?}{f2:#?}"));
                    step = Box::new(move |_, cx| {
                        let mut x = f.borrow_mut();
                        let r = x.as_mut()?.as_mut().poll(cx);
                        if r.is_ready() {
                            *x = None;
                        }
                        Some(format!("{r:?}"))
                    });
                }};
            }
            macro_rules! stream {
                ($f:expr) => {{
                    let f = std::rc::Rc::new(std::cell::RefCell::new(Some(Box::pin($f))));
                    let f2 = f.clone();
                    text = Box::new(move || format!("{f2:?}{f2:#?}"));
                    step = Box::new(move |_, cx| {
                        use futures_core::Stream;
                        let mut x = f.borrow_mut();
                        let r = x.as_mut()?.as_mut().poll_next(cx);
                        if matches!(r, Poll::Ready(None)) {
                            *x = None;
                        }
                        Some(format!("{r:?}"))
                    });
                }};
            }
            // a service: a poll is a readiness check, followed by a call if that is wanted
            macro_rules! svc {
                ($s:expr, $show:expr) => {{
                    let f = std::rc::Rc::new(std::cell::RefCell::new($s));
                    let f2 = f.clone();
                    text = Box::new(move || format!("{f2:?}{f2:#?}"));
                    let mut dead = false;
                    let mut futs = vec![];
                    step = Box::new(move |call, cx| {
                        let mut line = poll_all(&mut futs, cx, $show);
                        if !dead {
                            let mut s = f.borrow_mut();
                            let r = Service::<Req>::poll_ready(&mut *s, cx);
                            line += &format!("{r:?}");
                            match r {
                                Poll::Ready(Ok(())) if call => {
                                    let id = futs.len() as u64 + 1;
                                    futs.push(Some(Box::pin(Service::<Req>::call(&mut *s, req(id)))))
                                }
                                Poll::Ready(Err(_)) => dead = true,
                                _ => {}
                            }
                        }
                        Some(line)
                    });
                }};
            }
            match c.kind {
                Helper::Oneshot => fut!(p.oneshot(req(1))),
                Helper::ReadyOneshot => fut!(ServiceExt::<Req>::ready_oneshot(p)),
                Helper::Ready => {
                    // (the harness's own: keeps the borrowed service alive)
                    let p: &'static mut Probe = Box::leak(Box::new(p));
                    let at: *mut Probe = p;
                    let f = std::rc::Rc::new(std::cell::RefCell::new(Some(ServiceExt::<Req>::ready(p))));
                    let f2 = f.clone();
                    text = Box::new(move || format!("{f2:?}{f2:#?}"));
                    struct Free(*mut Probe);
                    impl Drop for Free {
                        fn drop(&mut self) {
                            // SAFETY: leaked above, and the future that borrows it is gone when this is dropped
                            drop(unsafe { Box::from_raw(self.0) })
                        }
                    }
                    let free = Free(at);
                    step = Box::new(move |_, cx| {
                        let _ = &free;
                        let mut x = f.borrow_mut();
                        let r = std::pin::Pin::new(x.as_mut()?).poll(cx);
                        let s = match &r {
                            Poll::Ready(Ok(p)) => format!("ready {}", p.id),
                            r => format!("{r:?}"),
                        };
                        if r.is_ready() {
                            *x = None;
                        }
                        Some(s)
                    });
                }
                Helper::CallAll => stream!(p.call_all(reqs.clone())),
                Helper::Unordered => stream!(p.call_all(reqs.clone()).unordered()),
                Helper::Spawn => {
                    let f = std::rc::Rc::new(std::cell::RefCell::new(tower_test::mock::Spawn::new(p)));
                    let f2 = f.clone();
                    text = Box::new(move || {
                        let mut s = f2.borrow_mut();
                        let t = format!("{s:?}{s:#?}");
                        let _ = (s.is_woken(), s.waker_ref_count());
                        if s.get_ref().id == s.get_mut().id {
                            t
                        } else {
                            String::new()
                        }
                    });
                    let mut dead = false;
                    let mut futs = vec![];
                    step = Box::new(move |call, cx| {
                        let mut s = f.borrow_mut();
                        let mut line = format!("{} ", s.is_woken());
                        if !dead {
                            let r = s.poll_ready::<Req>();
                            line += &format!("{r:?}");
                            match r {
                                Poll::Ready(Ok(())) if call => futs.push(Box::pin(s.call(req(futs.len() as u64 + 1)))),
                                Poll::Ready(Err(_)) => dead = true,
                                _ => {}
                            }
                        }
                        futs.retain_mut(|x| {
                            let r = x.as_mut().poll(cx);
                            line += &format!("{r:?}");
                            r.is_pending()
                        });
                        Some(line)
                    });
                }
                Helper::IntoService => {
                    use tower::make::MakeService;
                    svc!(MakeService::<Req, Req>::into_service(Makes(p)), |r: Poll<Result<Probe, PErr>>| match r {
                        Poll::Ready(Ok(p)) => format!("made from {}", p.id),
                        r => format!("{r:?}"),
                    })
                }
                Helper::AsService => {
                    // a mutable adapter exists for one step at a time
                    use tower::make::MakeService;
                    let f = std::rc::Rc::new(std::cell::RefCell::new(Makes(p)));
                    let f2 = f.clone();
                    text = Box::new(move || {
                        let mut m = f2.borrow_mut();
                        let a = MakeService::<Req, Req>::as_service(&mut *m);
                        format!("{a:?}{a:#?}")
                    });
                    let mut dead = false;
                    let mut futs = vec![];
                    step = Box::new(move |call, cx| {
                        let mut line = String::new();
                        let mut m = f.borrow_mut();
                        let mut a = MakeService::<Req, Req>::as_service(&mut *m);
                        if !dead {
                            let r = Service::<Req>::poll_ready(&mut a, cx);
                            line += &format!("{r:?}");
                            match r {
                                Poll::Ready(Ok(())) if call => {
                                    let id = futs.len() as u64 + 1;
                                    futs.push(Service::<Req>::call(&mut a, req(id)))
                                }
                                Poll::Ready(Err(_)) => dead = true,
                                _ => {}
                            }
                        }
                        futs.retain_mut(|x| {
                            let r = x.as_mut().poll(cx).map_ok(|p| p.id);
                            line += &format!("{r:?}");
                            r.is_pending()
                        });
                        Some(line)
                    });
                }
                Helper::MakeBalance => svc!(
                    tower::balance::p2c::MakeBalance::<_, Req>::new(MakeList(p)),
                    |r: Poll<Result<tower::balance::p2c::Balance<tower::discover::ServiceList<Vec<Probe>>, Req>, PErr>>| format!("{r:?}")
                ),
            }
            let mut flag: Option<Arc<Flag>> = None;
            let mut pushed = 0;
            let mut waits = false;
            for (i, &op) in c.ops.iter().enumerate() {
                w.begin_step();
                let mut line = format!("{op:?}");
                match op {
                    HOp::Poll | HOp::Call => {
                        let before = w.lock().panics_in_service;
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            with_waker(|cx| match step(matches!(op, HOp::Call), cx) {
                                Some(s) => Poll::Ready(s),
                                None => Poll::Pending,
                            })
                        }));
                        let (r, f) = match r {
                            Ok(x) => x,
                            Err(_) if w.lock().panics_in_service > before => {
                                // over, but it can still be looked at
                                panicked = true;
                                crate::core::take_panic();
                                if look {
                                    ensure!(!text().is_empty(), "{:?}: empty debug text after a panic of the inner service", c.kind);
                                }
                                break;
                            }
                            Err(p) => std::panic::resume_unwind(p),
                        };
                        flag = Some(f);
                        waits = matches!(&r, Poll::Ready(s) if s == "Pending");
                        if let Poll::Ready(r) = r {
                            done += r.contains("Ready(Ok") as usize + r.contains("Ready(Some") as usize;
                            line += &r;
                        }
                    }
                    HOp::Gate(n) => w.set_credits(g, if n == 3 { FREE } else { n as u64 }),
                    HOp::Complete(i, ok) => {
                        let live = w.waiting_calls();
                        if let Some(&k) = live.get(i as usize % live.len().max(1)) {
                            w.complete(k, if ok { Ok(()) } else { Err(6) });
                        }
                    }
                    HOp::Panic(call) if !again => {
                        let mut x = w.lock();
                        if call {
                            x.groups[g].panic_call = true;
                        } else {
                            x.groups[g].panic_ready = true;
                        }
                    }
                    HOp::Panic(_) => {}
                    HOp::Fail => w.set_fail(g, Some(5)),
                    HOp::Hiccup(n) => w.set_hiccups(g, if again { 0 } else { n as u32 }),
                    HOp::Push | HOp::End => {
                        let wk = {
                            let mut x = reqs.0.lock().unwrap();
                            if matches!(op, HOp::End) {
                                x.1 = true;
                            } else if !x.1 {
                                pushed += 1;
                                x.0.push_back(pushed);
                            }
                            x.2.take()
                        };
                        if let Some(wk) = wk {
                            wk.wake();
                        }
                    }
                }
                if look && again && one && c.looks[i % c.looks.len()] && flag.as_ref().map_or(false, |f| !f.woken()) && waits {
                    let (r, f) = with_waker(|cx| match step(false, cx) {
                        Some(s) => Poll::Ready(s),
                        None => Poll::Pending,
                    });
                    ensure!(matches!(&r, Poll::Ready(s) if s == "Pending"), "{:?} waited and was not woken, polled again it gives {r:?}", c.kind);
                    flag = Some(f);
                    polls += 1;
                }
                if look && !again && c.looks[i % c.looks.len()] {
                    ensure!(!text().is_empty(), "{:?}: empty debug text, or get_ref and get_mut give different instances", c.kind);
                }
                line += &format!(" | {:?} {:?}", flag.as_ref().map(|f| f.woken()), w.lock().svcs.iter().map(|s| (s.alive, s.ready)).collect::<Vec<_>>());
                out.push(line);
            }
            drop(text);
            drop(step);
            out.push(format!("end: live {}/{}", w.live_svcs(), w.live_futs()));
            Ok(out)
        })
    };
    let a = trace(false)?;
    let b = trace(true)?;
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        ensure!(x == y, "{:?}: {} made a difference at step {i}: `{x}` against `{y}`", c.kind, if again { "polling again" } else { "looking" });
    }
    cov.hit_if(panicked, "looked at after a panic");
    if done > 0 && (polls > 0 || !again) {
        cov.nontrivial();
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C38",
        assumptions: &["reading a PeakEwma load counts as an update of it (C22)"],
        subs: vec![
            sub("services", "at least two requests, one answered", 16_000, arb, run),
            sub("structures", "a request through the cache and a withdrawal from the budget", 60_000, arb_x, structures),
            sub("helpers", "something was answered or reported ready", 40_000, arb_h, helpers),
        ],
    }]
}
