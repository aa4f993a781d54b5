//! C26 layers, C27 combinators, C28 erased/optional/either/future services.
use crate::core::*;
use crate::diff::*;
use crate::dynsvc::*;
use crate::ensure;
use crate::probe::*;
use crate::rt;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tower::util::{
    future_service, service_fn, BoxCloneService, BoxCloneServiceLayer, BoxCloneSyncService, BoxCloneSyncServiceLayer, BoxLayer, BoxService, Either, FutureService,
    Optional, ServiceExt, UnsyncBoxService,
};
use tower::util::option_layer;
use tower::ServiceBuilder;
use tower_layer::{layer_fn, Identity, Layer, Stack};
use tower_service::Service;

// ---------------------------------------------------------------- C26 composition

#[derive(Debug, Clone, Serialize, Deserialize)]
enum T {
    Tag(u8),
    Id,
    Unit,
    Stack(Box<T>, Box<T>),
    Tup(Vec<T>),
    Opt(Option<Box<T>>),
    Fun(Box<T>),
    Boxed(Box<T>),
    BoxClone(Box<T>),
    BoxCloneSync(Box<T>),
    Builder(Vec<T>),
    /// the layer taken out of a builder
    Inner(Vec<T>),
    BuilderOpt(Option<Box<T>>, Box<T>),
    BuilderFn(Box<T>, Box<T>),
    Ref(Box<T>),
    Left(Box<T>),
    Right(Box<T>),
}
fn arb_t() -> BoxedStrategy<T> {
    let leaf = prop_oneof![
        8 => (0u8..200).prop_map(T::Tag),
        1 => Just(T::Id),
        1 => Just(T::Unit),
        1 => Just(T::Opt(None)),
    ];
    leaf.prop_recursive(4, 40, 16, |t| {
        let b = t.clone().prop_map(Box::new).boxed();
        prop_oneof![
            4 => (b.clone(), b.clone()).prop_map(|(x, y)| T::Stack(x, y)),
            8 => prop::collection::vec(t.clone(), 1..17).prop_map(T::Tup),
            2 => b.clone().prop_map(|x| T::Opt(Some(x))),
            1 => b.clone().prop_map(T::Fun),
            1 => b.clone().prop_map(T::Boxed),
            1 => b.clone().prop_map(T::BoxClone),
            1 => b.clone().prop_map(T::BoxCloneSync),
            5 => prop::collection::vec(t.clone(), 0..7).prop_map(T::Builder),
            2 => prop::collection::vec(t.clone(), 0..7).prop_map(T::Inner),
            2 => (prop::option::of(b.clone()), b.clone()).prop_map(|(x, y)| T::BuilderOpt(x, y)),
            2 => (b.clone(), b.clone()).prop_map(|(x, y)| T::BuilderFn(x, y)),
            1 => b.clone().prop_map(T::Ref),
            1 => b.clone().prop_map(T::Left),
            1 => b.prop_map(T::Right),
        ]
    })
    .boxed()
}
/// The tags from the outermost to the innermost.
fn flatten(t: &T, out: &mut Vec<u8>) {
    match t {
        T::Tag(n) => out.push(*n),
        T::Id | T::Unit | T::Opt(None) => {}
        T::Stack(inner, outer) => {
            flatten(outer, out);
            flatten(inner, out);
        }
        T::Tup(v) | T::Builder(v) | T::Inner(v) => v.iter().for_each(|t| flatten(t, out)),
        T::Opt(Some(t)) | T::Fun(t) | T::Boxed(t) | T::BoxClone(t) | T::BoxCloneSync(t) | T::Ref(t) | T::Left(t) | T::Right(t) => flatten(t, out),
        T::BuilderOpt(a, b) => {
            if let Some(a) = a {
                flatten(a, out)
            }
            flatten(b, out);
        }
        T::BuilderFn(a, b) => {
            flatten(a, out);
            flatten(b, out);
        }
    }
}
#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Applied(u8),
    Ready(u8),
    Call(u8, u64),
    Resp(u8, u64),
}
type Evs = Arc<Mutex<Vec<Ev>>>;
#[derive(Clone)]
struct DL(Arc<dyn Fn(Dyn) -> Dyn + Send + Sync>);
impl Layer<Dyn> for DL {
    type Service = Dyn;
    fn layer(&self, s: Dyn) -> Dyn {
        (self.0)(s)
    }
}
fn dl(f: impl Fn(Dyn) -> Dyn + Send + Sync + 'static) -> DL {
    DL(Arc::new(f))
}
/// A `dyn Layer` as it is.
fn of<L>(l: L) -> DL
where
    L: Layer<Dyn, Service = Dyn> + Send + Sync + 'static,
{
    dl(move |s| l.layer(s))
}
#[derive(Clone)]
struct Tagged {
    n: u8,
    evs: Evs,
    inner: Dyn,
}
impl Service<Req> for Tagged {
    type Response = Resp;
    type Error = BoxError;
    type Future = Fut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        self.evs.lock().unwrap().push(Ev::Ready(self.n));
        self.inner.poll_ready(cx)
    }
    fn call(&mut self, r: Req) -> Fut {
        self.evs.lock().unwrap().push(Ev::Call(self.n, r.id));
        let (n, evs, id) = (self.n, self.evs.clone(), r.id);
        let f = self.inner.call(r);
        Box::pin(async move {
            let r = f.await;
            evs.lock().unwrap().push(Ev::Resp(n, id));
            r
        })
    }
}
macro_rules! tuples {
    ($v:expr, $($n:literal => ($($i:literal)*)),*) => {
        match $v.len() {
            $($n => of(($($v[$i].clone(),)*)),)*
            _ => unreachable!(),
        }
    };
}
macro_rules! builder {
    ($v:expr, $f:expr, $($n:literal => ($($i:literal)*)),*) => {
        match $v.len() {
            $($n => {
                let b = ServiceBuilder::new()$(.layer($v[$i].clone()))*;
                $f(b)
            })*
            _ => unreachable!(),
        }
    };
}
trait Fin {
    fn fin(self, inner: bool) -> DL;
}
impl<L> Fin for ServiceBuilder<L>
where
    L: Layer<Dyn, Service = Dyn> + Send + Sync + Clone + 'static,
{
    fn fin(self, inner: bool) -> DL {
        if inner {
            of(self.into_inner())
        } else if std::mem::size_of::<L>() % 16 == 0 {
            of(self)
        } else {
            let c = self.clone();
            dl(move |s| c.service(s))
        }
    }
}
fn make(t: &T, evs: &Evs) -> DL {
    let m = |t: &T| make(t, evs);
    match t {
        T::Tag(n) => {
            let (n, evs) = (*n, evs.clone());
            dl(move |s| {
                evs.lock().unwrap().push(Ev::Applied(n));
                Dyn::c(Tagged { n, evs: evs.clone(), inner: s })
            })
        }
        T::Id => of(Identity::new()),
        T::Unit => of(()),
        T::Stack(a, b) => of(Stack::new(m(a), m(b))),
        T::Tup(v) => {
            let v: Vec<DL> = v.iter().map(m).collect();
            tuples!(v,
                1 => (0), 2 => (0 1), 3 => (0 1 2), 4 => (0 1 2 3), 5 => (0 1 2 3 4), 6 => (0 1 2 3 4 5), 7 => (0 1 2 3 4 5 6),
                8 => (0 1 2 3 4 5 6 7), 9 => (0 1 2 3 4 5 6 7 8), 10 => (0 1 2 3 4 5 6 7 8 9), 11 => (0 1 2 3 4 5 6 7 8 9 10),
                12 => (0 1 2 3 4 5 6 7 8 9 10 11), 13 => (0 1 2 3 4 5 6 7 8 9 10 11 12), 14 => (0 1 2 3 4 5 6 7 8 9 10 11 12 13),
                15 => (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14), 16 => (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15))
        }
        T::Opt(o) => {
            let l = option_layer(o.as_ref().map(|t| m(t)));
            dl(move |s| Dyn::c(l.layer(s)))
        }
        T::Fun(t) => {
            let d = m(t);
            of(layer_fn(move |s: Dyn| d.layer(s)))
        }
        T::Boxed(t) => {
            let l: BoxLayer<Dyn, Req, Resp, BoxError> = BoxLayer::new(m(t));
            let l = l.clone();
            dl(move |s| Dyn::n(l.layer(s)))
        }
        T::BoxClone(t) => {
            let l: BoxCloneServiceLayer<Dyn, Req, Resp, BoxError> = BoxCloneServiceLayer::new(m(t));
            let l = l.clone();
            dl(move |s| Dyn::c(l.layer(s)))
        }
        T::BoxCloneSync(t) => {
            let d = m(t);
            let l: BoxCloneSyncServiceLayer<Dyn, Req, Resp, BoxError> = BoxCloneSyncServiceLayer::new(layer_fn(move |s| SyncDyn::new(d.layer(s))));
            let l = l.clone();
            dl(move |s| Dyn::c(l.layer(s)))
        }
        T::Builder(v) | T::Inner(v) => {
            let inner = matches!(t, T::Inner(_));
            let v: Vec<DL> = v.iter().map(m).collect();
            builder!(v, |b| Fin::fin(b, inner), 0 => (), 1 => (0), 2 => (0 1), 3 => (0 1 2), 4 => (0 1 2 3), 5 => (0 1 2 3 4), 6 => (0 1 2 3 4 5))
        }
        T::BuilderOpt(a, b) => {
            let b = ServiceBuilder::new().option_layer(a.as_ref().map(|t| m(t))).layer(m(b));
            dl(move |s| Dyn::c(b.service(s)))
        }
        T::BuilderFn(a, b) => {
            let a = m(a);
            let b = ServiceBuilder::new().layer_fn(move |s: Dyn| a.layer(s)).layer(m(b));
            dl(move |s| b.service(s))
        }
        T::Ref(t) => {
            let d = m(t);
            dl(move |s| {
                let r: &dyn Layer<Dyn, Service = Dyn> = &d;
                Layer::layer(&r, s)
            })
        }
        T::Left(t) => {
            let e: Either<DL, Identity> = Either::Left(m(t));
            dl(move |s| Dyn::c(e.layer(s)))
        }
        T::Right(t) => {
            let e: Either<Identity, DL> = Either::Right(m(t));
            dl(move |s| Dyn::c(e.layer(s)))
        }
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct TCase {
    t: T,
    services: u8,
    fail: bool,
}
fn compose(c: &TCase, cov: &mut Cov) -> R {
    let evs: Evs = Default::default();
    let mut tags = vec![];
    flatten(&c.t, &mut tags);
    let l = make(&c.t, &evs);
    ensure!(evs.lock().unwrap().is_empty(), "a layer was applied before there was a service");
    let mut svcs = vec![];
    for i in 0..c.services {
        let (w, _, p) = world(false);
        let s = l.layer(Dyn::c(p));
        let mut a: Vec<u8> = evs.lock().unwrap().drain(..).map(|e| match e { Ev::Applied(n) => n, e => panic!("{e:?}") }).collect();
        let mut b = tags.clone();
        a.sort();
        b.sort();
        ensure!(a == b, "service {i}: layers applied {a:?}, composed {b:?}");
        svcs.push((w, s));
    }
    for (i, (w, s)) in svcs.iter_mut().enumerate() {
        let id = i as u64 + 1;
        let r = with_waker(|cx| s.poll_ready(cx)).0;
        ensure!(matches!(r, Poll::Ready(Ok(()))), "service {i} not ready");
        let seen: Vec<u8> = evs.lock().unwrap().drain(..).map(|e| if let Ev::Ready(n) = e { n } else { panic!("{e:?}") }).collect();
        ensure!(seen == tags, "readiness passes {seen:?}, composed {tags:?}");
        let mut f = s.call(req(id));
        let seen: Vec<u8> = evs.lock().unwrap().drain(..).map(|e| match e { Ev::Call(n, r) if r == id => n, e => panic!("{e:?}") }).collect();
        ensure!(seen == tags, "request passes {seen:?}, composed (outermost first) {tags:?}");
        ensure!(w.ncalls() == 1 && w.lock().calls[0].req == req(id), "request arrived as {:?}", w.lock().calls);
        ensure!(poll_fut(f.as_mut()).0.is_pending(), "answered early");
        w.complete(0, if c.fail { Err(9) } else { Ok(()) });
        let r = poll_fut(f.as_mut()).0;
        match r {
            Poll::Ready(Ok(r)) if !c.fail => ensure!(r.req == id && r.val == id, "answered {r:?}"),
            Poll::Ready(Err(e)) if c.fail => ensure!(find_perr(e.as_ref()) == Some(9), "failed with {e:?}"),
            r => return Err(format!("future gave {r:?}")),
        }
        let mut seen: Vec<u8> = evs.lock().unwrap().drain(..).map(|e| match e { Ev::Resp(n, r) if r == id => n, e => panic!("{e:?}") }).collect();
        seen.reverse();
        ensure!(seen == tags, "response passes (from the end) {seen:?}, composed {tags:?}");
        ensure!(w.violation().is_none(), "{:?}", w.violation());
    }
    cov.hit_if(tags.len() >= 10, "ten or more layers");
    cov.hit_if(c.services > 1, "several services");
    if tags.len() >= 3 {
        cov.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C26 named methods

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum M {
    Buffer(u8),
    Conc(u8),
    Shed,
    Rate(u8, u8),
    Retry(u8),
    Timeout(u8),
    Filter(u8),
    FilterAsync(u8),
    MapReq,
    MapResp,
    MapErr,
    MapFuture,
    Then,
    AndThen,
    MapResult,
    Boxed,
    BoxedClone,
    BoxedCloneSync,
    Global(u8),
    Hedge,
    Spawn,
    OptNone,
    ServiceFn,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct MCase {
    m: M,
    style: u8,
    closed: bool,
    /// requests sent first to another service made by the same builder, and left unfinished
    #[serde(default)]
    noise: u8,
    ops: Vec<DOp>,
}
fn arb_m() -> impl Strategy<Value = M> {
    prop_oneof![
        (1u8..4).prop_map(M::Buffer),
        (1u8..4).prop_map(M::Conc),
        Just(M::Shed),
        (1u8..4, 1u8..60).prop_map(|(a, b)| M::Rate(a, b)),
        (1u8..4).prop_map(M::Retry),
        (1u8..60).prop_map(M::Timeout),
        (1u8..5).prop_map(M::Filter),
        (1u8..5).prop_map(M::FilterAsync),
        Just(M::MapReq),
        Just(M::MapResp),
        Just(M::MapErr),
        Just(M::MapFuture),
        Just(M::Then),
        Just(M::AndThen),
        Just(M::MapResult),
        Just(M::Boxed),
        Just(M::BoxedClone),
        Just(M::BoxedCloneSync),
        (1u8..4).prop_map(M::Global),
        Just(M::Spawn),
        Just(M::OptNone),
        Just(M::ServiceFn),
    ]
}
#[derive(Clone)]
struct Pol(u8);
impl tower::retry::Policy<Req, Resp, BoxError> for Pol {
    type Future = std::future::Ready<()>;
    fn retry(&mut self, r: &mut Req, res: &mut Result<Resp, BoxError>) -> Option<Self::Future> {
        if res.is_err() && self.0 > 0 {
            self.0 -= 1;
            r.val += 7;
            Some(std::future::ready(()))
        } else {
            None
        }
    }
    fn clone_request(&mut self, r: &Req) -> Option<Req> {
        Some(r.clone())
    }
}
fn keep(k: u8) -> impl Fn(Req) -> Result<Req, BoxError> + Clone + Send + Sync + 'static {
    move |mut r: Req| {
        if r.id % (k as u64 + 1) == 0 {
            Err(Box::new(PErr(77_000 + r.id)) as BoxError)
        } else {
            r.val += 5;
            Ok(r)
        }
    }
}
fn keep_async(k: u8) -> impl Fn(Req) -> Pin<Box<dyn Future<Output = Result<Req, BoxError>> + Send>> + Clone + Send + Sync + 'static {
    move |r: Req| {
        let v = keep(k)(r);
        Box::pin(async move {
            if k % 2 == 1 {
                tokio::time::sleep(Duration::from_millis(k as u64 * 3)).await;
            }
            v
        })
    }
}
fn mapreq(mut r: Req) -> Req {
    r.val += 11;
    r
}
fn mapresp(mut r: Resp) -> Resp {
    r.val *= 3;
    r
}
fn maperr(e: BoxError) -> BoxError {
    Box::new(PErr(find_perr(e.as_ref()).unwrap_or(0) + 100_000))
}
fn mapresult(r: Result<Resp, BoxError>) -> Result<Resp, BoxError> {
    match r {
        Ok(r) if r.req % 3 == 0 => Err(Box::new(PErr(88_000 + r.req))),
        Err(_) => Ok(Resp { req: 0, val: 1, call: 0, svc: 0, hold: Hold::default() }),
        r => r,
    }
}
type RF = Pin<Box<dyn Future<Output = Result<Resp, BoxError>> + Send>>;
fn mapfut(f: Fut) -> RF {
    Box::pin(async move { f.await.map(mapresp) })
}
fn then(r: Result<Resp, BoxError>) -> RF {
    Box::pin(async move {
        tokio::task::yield_now().await;
        mapresult(r)
    })
}
fn andthen(r: Resp) -> RF {
    Box::pin(async move {
        tokio::task::yield_now().await;
        mapresult(Ok(r))
    })
}
fn tag(n: u8, evs: &Evs) -> DL {
    make(&T::Tag(n), evs)
}
/// By the builder's named method, between two tags.
/// The second service, if any, is made by the same builder.
fn named(m: M, evs: &Evs, s: Dyn, noise: Option<Dyn>, style: u8) -> (Dyn, Option<Dyn>) {
    let (a, b) = (tag(1, evs), tag(2, evs));
    let x = if style % 3 == 0 { ServiceBuilder::default() } else { ServiceBuilder::new() }.layer(a.clone()).layer_fn(|d: Dyn| d);
    // a clone of a builder builds the same, also after the builder is gone
    let by_clone = style % 4 > 1;
    macro_rules! c {
        ($e:expr) => {{
            let mut e = $e.layer(b).check_clone();
            if by_clone {
                e = e.clone();
            }
            let s = e.service(s);
            (s, noise.map(|n| e.service(n)))
        }};
    }
    // the result of each method is erased just outside it
    macro_rules! er {
        ($k:ident, $($call:tt)*) => { c!(x.layer_fn(|d| Dyn::$k(d))$($call)*) };
    }
    let ms = |n: u8| Duration::from_millis(n as u64);
    match m {
        M::Buffer(n) => er!(c, .buffer(n as usize)),
        M::Conc(n) => er!(c, .concurrency_limit(n as usize)),
        M::Shed => er!(c, .load_shed()),
        M::Rate(n, p) => er!(n, .rate_limit(n as u64, ms(p))),
        M::Retry(n) => er!(c, .retry(Pol(n))),
        M::Timeout(n) => er!(c, .timeout(ms(n))),
        M::Filter(k) => er!(c, .filter(keep(k))),
        M::FilterAsync(k) => er!(c, .filter_async(keep_async(k))),
        M::MapReq => er!(c, .map_request(mapreq)),
        M::MapResp => er!(c, .map_response(mapresp)),
        M::MapErr => er!(c, .map_err(maperr)),
        M::MapFuture => er!(c, .map_future(mapfut)),
        M::Then => er!(c, .then(then)),
        M::AndThen => er!(c, .and_then(andthen)),
        M::MapResult => er!(c, .map_result(mapresult)),
        M::Boxed => {
            let mut e = ServiceBuilder::new().boxed().layer(a).layer(b);
            if by_clone {
                e = e.clone();
            }
            (Dyn::n(e.service(s)), noise.map(|n| Dyn::n(e.service(n))))
        }
        M::BoxedClone => {
            let mut e = ServiceBuilder::new().boxed_clone().layer(a).layer(b);
            if by_clone {
                e = e.clone();
            }
            (Dyn::c(e.service(s)), noise.map(|n| Dyn::c(e.service(n))))
        }
        M::BoxedCloneSync => {
            let e = ServiceBuilder::new().boxed_clone_sync().layer_fn(SyncDyn::new).layer(a).layer(b);
            (Dyn::c(e.service(s)), noise.map(|n| Dyn::c(e.service(n))))
        }
        M::OptNone => er!(c, .option_layer(None::<DL>)),
        M::ServiceFn => {
            let s = Arc::new(Mutex::new(s));
            let f = move |r: Req| s.lock().unwrap().call(r);
            (ServiceBuilder::new().layer(a).layer(b).layer_fn(|f| Dyn::c(f)).service_fn(f), None)
        }
        // these have no named method
        M::Global(n) => er!(c, .layer(tower::limit::GlobalConcurrencyLimitLayer::new(n as usize))),
        M::Spawn => er!(n, .layer(tower::spawn_ready::SpawnReady::<()>::layer())),
        M::Hedge => unreachable!(),
    }
}
/// By hand: the constructors, nested.
fn by_hand(m: M, evs: &Evs, style: u8, s: Dyn) -> Dyn {
    let (a, b) = (tag(1, evs), tag(2, evs));
    let ms = |n: u8| Duration::from_millis(n as u64);
    let i = b.layer(s);
    use tower::util as u;
    macro_rules! pick {
        ($k:ident, $($e:expr),+) => {{
            let mut n = 0u8;
            $( n += 1; let _ = &n; let _ = stringify!($e); )+
            let want = style % n;
            let mut at = 0u8;
            loop {
                $( if at == want { break Dyn::$k($e); } at += 1; )+
                unreachable!("{at}")
            }
        }};
    }
    let d = match m {
        M::Buffer(n) => pick!(c, tower::buffer::Buffer::new(i, n as usize), tower::buffer::BufferLayer::new(n as usize).layer(i)),
        M::Conc(n) => pick!(
            c,
            tower::limit::ConcurrencyLimit::new(i, n as usize),
            tower::limit::ConcurrencyLimitLayer::new(n as usize).layer(i),
            tower::limit::ConcurrencyLimit::with_semaphore(i, Arc::new(tokio::sync::Semaphore::new(n as usize)))
        ),
        M::Shed => pick!(c, tower::load_shed::LoadShed::new(i), tower::load_shed::LoadShedLayer::new().layer(i)),
        M::Rate(n, p) => pick!(n, tower::limit::RateLimit::new(i, tower::limit::rate::Rate::new(n as u64, ms(p))), tower::limit::RateLimitLayer::new(n as u64, ms(p)).layer(i)),
        M::Retry(n) => pick!(c, tower::retry::Retry::new(Pol(n), i), tower::retry::RetryLayer::new(Pol(n)).layer(i)),
        M::Timeout(n) => pick!(c, tower::timeout::Timeout::new(i, ms(n)), tower::timeout::TimeoutLayer::new(ms(n)).layer(i)),
        M::Filter(k) => pick!(
            c,
            tower::filter::Filter::new(i, keep(k)),
            tower::filter::FilterLayer::new(keep(k)).layer(i),
            tower::filter::Filter::<(), _>::layer(keep(k)).layer(i),
            ServiceExt::<Req>::filter(i, keep(k))
        ),
        M::FilterAsync(k) => pick!(
            c,
            tower::filter::AsyncFilter::new(i, keep_async(k)),
            tower::filter::AsyncFilterLayer::new(keep_async(k)).layer(i),
            ServiceExt::<Req>::filter_async(i, keep_async(k))
        ),
        M::MapReq => pick!(
            c,
            u::MapRequest::new(i, mapreq),
            u::MapRequestLayer::new(mapreq).layer(i),
            u::MapRequest::<(), _>::layer(mapreq).layer(i),
            ServiceExt::<Req>::map_request(i, mapreq)
        ),
        M::MapResp => pick!(
            c,
            u::MapResponse::new(i, mapresp),
            u::MapResponseLayer::new(mapresp).layer(i),
            u::MapResponse::<(), _>::layer(mapresp).layer(i),
            ServiceExt::<Req>::map_response(i, mapresp)
        ),
        M::MapErr => pick!(c, u::MapErr::new(i, maperr), u::MapErrLayer::new(maperr).layer(i), u::MapErr::<(), _>::layer(maperr).layer(i), ServiceExt::<Req>::map_err(i, maperr)),
        M::MapFuture => pick!(
            c,
            u::MapFuture::new(i, mapfut),
            u::MapFutureLayer::new(mapfut).layer(i),
            u::MapFuture::<(), _>::layer(mapfut).layer(i),
            ServiceExt::<Req>::map_future(i, mapfut)
        ),
        M::Then => pick!(c, u::Then::new(i, then), u::ThenLayer::new(then).layer(i), u::Then::<(), _>::layer(then).layer(i), ServiceExt::<Req>::then(i, then)),
        M::AndThen => pick!(
            c,
            u::AndThen::new(i, andthen),
            u::AndThenLayer::new(andthen).layer(i),
            u::AndThen::<(), _>::layer(andthen).layer(i),
            ServiceExt::<Req>::and_then(i, andthen)
        ),
        M::MapResult => pick!(
            c,
            u::MapResult::new(i, mapresult),
            u::MapResultLayer::new(mapresult).layer(i),
            u::MapResult::<(), _>::layer(mapresult).layer(i),
            ServiceExt::<Req>::map_result(i, mapresult)
        ),
        M::Boxed => {
            let i = a.layer(i);
            return pick!(n, BoxService::new(i), BoxService::layer().layer(i), ServiceExt::<Req>::boxed(i));
        }
        M::BoxedClone => {
            let i = a.layer(i);
            return pick!(c, BoxCloneService::new(i), BoxCloneService::layer().layer(i), ServiceExt::<Req>::boxed_clone(i));
        }
        M::BoxedCloneSync => {
            let i = SyncDyn::new(a.layer(i));
            return pick!(c, BoxCloneSyncService::new(i), BoxCloneSyncService::layer().layer(i));
        }
        M::OptNone => i,
        M::ServiceFn => unreachable!(),
        M::Global(n) => Dyn::c(tower::limit::ConcurrencyLimit::new(i, n as usize)),
        M::Spawn => pick!(n, tower::spawn_ready::SpawnReady::new(i), tower::spawn_ready::SpawnReadyLayer::new().layer(i), tower::spawn_ready::SpawnReadyLayer::default().layer(i)),
        M::Hedge => unreachable!(),
    };
    a.layer(d)
}
fn methods(c: &MCase, cov: &mut Cov) -> R {
    let cl: Option<fn(&Dyn) -> Dyn> = match c.m {
        M::Rate(..) | M::Spawn | M::Boxed => None,
        _ => Some(|d: &Dyn| d.clone()),
    };
    let run = |hand: bool| {
        rt::block_on(async {
            let evs: Evs = Default::default();
            let mut others = vec![];
            let (w, g, p) = world(c.closed && !matches!(c.m, M::ServiceFn));
            let mut kept = vec![];
            let svc = if !hand {
                // (a global limit is shared on purpose)
                let other = if c.noise > 0 && !matches!(c.m, M::Global(_) | M::ServiceFn) { Some(World::simple()) } else { None };
                let (s, n) = named(c.m, &evs, Dyn::c(p), other.as_ref().map(|o| Dyn::c(o.1.clone())), c.style);
                if let Some(mut n) = n {
                    for i in 0..c.noise {
                        if let Poll::Ready(Ok(())) = with_waker(|cx| n.poll_ready(cx)).0 {
                            let mut f = Box::pin(n.call(req(i as u64)));
                            let _ = poll_fut(f.as_mut());
                            kept.push(f);
                        }
                    }
                    rt::settle().await;
                    evs.lock().unwrap().clear();
                    others.push((n, other));
                }
                s
            } else if let M::ServiceFn = c.m {
                let s = Arc::new(Mutex::new(p));
                let f = move |r: Req| s.lock().unwrap().call(r);
                tag(1, &evs).layer(tag(2, &evs).layer(Dyn::c(service_fn(f))))
            } else {
                by_hand(c.m, &evs, c.style, Dyn::c(p))
            };
            // a service function asks nobody for readiness
            let log = if let M::ServiceFn = c.m {
                // (the protocol notes of the probe do not apply)
                let mut l = drive(&w, g, svc, cl, &c.ops).await;
                l.steps.pop();
                l
            } else {
                drive(&w, g, svc, cl, &c.ops).await
            };
            let mut e = evs.lock().unwrap().clone();
            if c.noise > 0 {
                e.retain(|e| !matches!(e, Ev::Applied(_)));
            }
            (log, e, w.violation())
        })
    };
    let (a, ea, va) = run(false);
    let (b, eb, _) = run(true);
    cov.tr(|| a.steps.join("\n"));
    if let Some(d) = a.differs(&b).or_else(|| b.differs(&a)) {
        return Err(format!("{:?} by the builder's method and by hand differ: {d}", c.m));
    }
    ensure!(ea == eb, "{:?} by the builder's method and by hand pass requests differently", c.m);
    if !matches!(c.m, M::ServiceFn) {
        ensure!(va.is_none(), "{va:?}");
    }
    note(&a, cov);
    Ok(())
}

// ---------------------------------------------------------------- C27

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum K {
    Req,
    Resp,
    Err,
    Res,
    Fut,
    /// asynchronous: waits for that many polls
    And(u8),
    Then(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct KCase {
    ks: Vec<(K, u8)>,
    closed: bool,
    flip: u8,
    ops: Vec<DOp>,
    /// outcome flips
    base_fn: bool,
}
fn arb_k() -> impl Strategy<Value = KCase> {
    let k = prop_oneof![
        Just(K::Req),
        Just(K::Resp),
        Just(K::Err),
        Just(K::Res),
        Just(K::Fut),
        (0u8..3).prop_map(K::And),
        (0u8..3).prop_map(K::Then),
    ];
    (prop::collection::vec((k, 0u8..4), 1..8), any::<bool>(), 2u8..6, arb_ops(90), prop::bool::weighted(0.15))
        .prop_map(|(ks, closed, flip, ops, base_fn)| KCase { ks, closed, flip, ops, base_fn })
}
/// An outcome as a plain value: (ok, request, value).
type Val = (bool, u64, u64);
fn val(r: &Result<Resp, BoxError>) -> Val {
    match r {
        Ok(r) => (true, r.req, r.val),
        Err(e) => {
            let c = find_perr(e.as_ref()).unwrap_or(0);
            (false, c >> 32, c & 0xffff_ffff)
        }
    }
}
fn unval(v: Val) -> Result<Resp, BoxError> {
    if v.0 {
        Ok(Resp { req: v.1, val: v.2, call: 0, svc: 0, hold: Hold::default() })
    } else {
        Err(Box::new(PErr(v.1 << 32 | v.2)))
    }
}
const MASK: u64 = 0xffff_ffff;
/// What closure number `n` of each kind does.
fn f_val(n: u64, v: u64) -> u64 {
    (v * 5 + n * 3 + 1) & MASK
}
fn f_res(n: u64, flip: u64, v: Val) -> Val {
    (if (n + v.2) % flip == 0 { !v.0 } else { v.0 }, v.1, f_val(n, v.2))
}
type Runs = Arc<Mutex<Vec<(usize, Val)>>>;
struct Steps {
    left: u8,
    out: Option<Result<Resp, BoxError>>,
}
impl Future for Steps {
    type Output = Result<Resp, BoxError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.left > 0 {
            self.left -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(self.out.take().expect("polled after completion"))
    }
}
/// Errors of the probe carry only a code; this puts the request's id next to it.
#[derive(Clone)]
struct Base {
    p: Probe,
}
impl Service<Req> for Base {
    type Response = Resp;
    type Error = BoxError;
    type Future = Fut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        self.p.poll_ready(cx).map_err(|e| Box::new(PErr(e.0)) as BoxError)
    }
    fn call(&mut self, r: Req) -> Fut {
        let id = r.id;
        let f = self.p.call(r);
        Box::pin(async move { f.await.map(|mut r| { r.call = 0; r.svc = 0; r }).map_err(|e| Box::new(PErr(id << 32 | e.0 & MASK)) as BoxError) })
    }
}
fn combine(c: &KCase, runs: &Runs, mut d: Dyn) -> Dyn {
    let flip = c.flip as u64;
    use tower::util as u;
    for (i, (k, style)) in c.ks.iter().enumerate() {
        let n = i as u64;
        let log = runs.clone();
        let style = *style;
        // requests and futures are mapped by closures with a state of their own
        let mut runs_before = 0u64;
        // four ways to say the same thing
        macro_rules! mk {
            ($f:expr, $T:ident, $L:ident, $m:ident) => {{
                let f = $f;
                match style {
                    0 => Dyn::c(u::$T::new(d, f)),
                    1 => Dyn::c(u::$L::new(f).layer(d)),
                    2 => Dyn::c(ServiceExt::<Req>::$m(d, f)),
                    _ => Dyn::c(ServiceBuilder::new().$m(f).service(d)),
                }
            }};
        }
        d = match *k {
            K::Req => mk!(
                move |mut r: Req| {
                    log.lock().unwrap().push((i, (true, r.id, r.val)));
                    runs_before += 1;
                    r.val = f_val(n, r.val + runs_before);
                    r
                },
                MapRequest,
                MapRequestLayer,
                map_request
            ),
            K::Resp => mk!(
                move |mut r: Resp| {
                    log.lock().unwrap().push((i, (true, r.req, r.val)));
                    r.val = f_val(n, r.val);
                    r
                },
                MapResponse,
                MapResponseLayer,
                map_response
            ),
            K::Err => mk!(
                move |e: BoxError| {
                    let v = val(&Err(e));
                    log.lock().unwrap().push((i, v));
                    let e: BoxError = Box::new(PErr(v.1 << 32 | f_val(n, v.2)));
                    e
                },
                MapErr,
                MapErrLayer,
                map_err
            ),
            K::Res => mk!(
                move |r: Result<Resp, BoxError>| {
                    let v = val(&r);
                    log.lock().unwrap().push((i, v));
                    unval(f_res(n, flip, v))
                },
                MapResult,
                MapResultLayer,
                map_result
            ),
            K::Fut => mk!(
                move |f: Fut| {
                    let log = log.clone();
                    runs_before += 1;
                    async move {
                        let v = val(&f.await);
                        log.lock().unwrap().push((i, v));
                        unval(f_res(n, flip, (v.0, v.1, v.2 + runs_before)))
                    }
                },
                MapFuture,
                MapFutureLayer,
                map_future
            ),
            K::And(p) => mk!(
                move |r: Resp| {
                    let v = (true, r.req, r.val);
                    log.lock().unwrap().push((i, v));
                    Steps { left: p, out: Some(unval(f_res(n, flip, v))) }
                },
                AndThen,
                AndThenLayer,
                and_then
            ),
            K::Then(p) => mk!(
                move |r: Result<Resp, BoxError>| {
                    let v = val(&r);
                    log.lock().unwrap().push((i, v));
                    Steps { left: p, out: Some(unval(f_res(n, flip, v))) }
                },
                Then,
                ThenLayer,
                then
            ),
        };
    }
    d
}
/// Reference: applies the closures to request `id`, the `nth` of its handle; returns what each closure should have seen.
fn reference(c: &KCase, id: u64, nth: u64, inner: impl FnOnce(u64) -> Option<Val>) -> (u64, Vec<(usize, Val)>, Option<Val>) {
    let mut seen = vec![];
    let mut v = id & MASK;
    for (i, (k, _)) in c.ks.iter().enumerate().rev() {
        if let K::Req = k {
            seen.push((i, (true, id, v)));
            v = f_val(i as u64, v + nth);
        }
    }
    let sent = v;
    let Some(mut o) = inner(sent) else { return (sent, seen, None) };
    for (i, (k, _)) in c.ks.iter().enumerate() {
        let n = i as u64;
        match k {
            K::Req => {}
            K::Resp => {
                if o.0 {
                    seen.push((i, o));
                    o.2 = f_val(n, o.2);
                }
            }
            K::Err => {
                if !o.0 {
                    seen.push((i, o));
                    o.2 = f_val(n, o.2);
                }
            }
            K::And(_) => {
                if o.0 {
                    seen.push((i, o));
                    o = f_res(n, c.flip as u64, o);
                }
            }
            K::Fut => {
                seen.push((i, o));
                o = f_res(n, c.flip as u64, (o.0, o.1, o.2 + nth));
            }
            K::Res | K::Then(_) => {
                seen.push((i, o));
                o = f_res(n, c.flip as u64, o);
            }
        }
    }
    (sent, seen, Some(o))
}
fn combinators(c: &KCase, cov: &mut Cov) -> R {
    rt::block_on(async move {
        let (w, g, p) = world(c.closed && !c.base_fn);
        let runs: Runs = Default::default();
        let base = if c.base_fn {
            let s = Arc::new(Mutex::new(Base { p }));
            Dyn::c(service_fn(move |r: Req| {
                let mut s = s.lock().unwrap();
                // a service function has no readiness of its own
                let _ = with_waker(|cx| s.poll_ready(cx));
                s.call(r)
            }))
        } else {
            Dyn::c(Base { p })
        };
        // (handle, ready, failed, flag of a pending check, requests it and its ancestors have seen)
        let mut hs: Vec<(Dyn, bool, bool, Option<Arc<Flag>>, u64)> = vec![(combine(c, &runs, base), false, false, None, 0)];
        struct F {
            id: u64,
            nth: u64,
            f: Option<Fut>,
            call: usize,
            flag: Option<Arc<Flag>>,
            /// polls still needed after the inner outcome
            spent: u32,
        }
        let mut fs: Vec<F> = vec![];
        let mut next = 1u64;
        let (mut done, mut flips, mut ready_err) = (0, 0, 0);
        let mut touched = std::collections::BTreeSet::new();
        for &op in &c.ops {
            w.begin_step();
            let before = runs.lock().unwrap().len();
            match op {
                DOp::Poll(i) | DOp::PollWoken(i) | DOp::Call(i) | DOp::Send(i) => {
                    let k = hs.len();
                    let h = &mut hs[i as usize % k];
                    if h.2 {
                        continue;
                    }
                    if !matches!(op, DOp::Call(_)) {
                        let (r, fl) = with_waker(|cx| h.0.poll_ready(cx));
                        h.3 = None;
                        match r {
                            Poll::Ready(Ok(())) => h.1 = true,
                            Poll::Pending => {
                                ensure!(!c.base_fn, "a service function is always ready");
                                h.1 = false;
                                h.3 = Some(fl);
                            }
                            Poll::Ready(Err(e)) => {
                                // only error mapping applies to readiness errors
                                let mut v = val(&Err(Box::new(PErr(4242))));
                                let mut seen = vec![];
                                for (i, (k, _)) in c.ks.iter().enumerate() {
                                    if let K::Err = k {
                                        seen.push((i, v));
                                        v.2 = f_val(i as u64, v.2);
                                    }
                                }
                                let got = val(&Err(e));
                                ensure!(got == v, "readiness error is {got:?}, expected {v:?}");
                                ensure!(runs.lock().unwrap()[before..] == seen[..], "closures run for a readiness error: {:?}", &runs.lock().unwrap()[before..]);
                                runs.lock().unwrap().truncate(before);
                                h.1 = false;
                                h.2 = true;
                                ready_err += 1;
                            }
                        }
                        ensure!(runs.lock().unwrap().len() == before, "a readiness check ran a closure");
                    }
                    if matches!(op, DOp::Call(_) | DOp::Send(_)) && h.1 {
                        h.1 = false;
                        h.4 += 1;
                        let n = w.ncalls();
                        let f = h.0.call(req(next));
                        let (sent, seen, _) = reference(c, next, h.4, |_| None);
                        ensure!(w.ncalls() == n + 1, "request dispatched {} times", w.ncalls() - n);
                        ensure!(w.lock().calls[n].req == Req { id: next, val: sent, hold: Hold::default() }, "request dispatched as {:?}, expected value {sent}", w.lock().calls[n].req);
                        ensure!(runs.lock().unwrap()[before..] == seen[..], "closures run for a request: {:?}, expected {seen:?}", &runs.lock().unwrap()[before..]);
                        fs.push(F { id: next, nth: h.4, f: Some(f), call: n, flag: None, spent: 0 });
                        next += 1;
                    }
                }
                DOp::Clone(i) => {
                    let k = hs.len();
                    if k < 3 {
                        let n = (hs[i as usize % k].0.clone(), hs[i as usize % k].4);
                        hs.push((n.0, false, false, None, n.1));
                    }
                }
                DOp::Complete(i, ok) => {
                    let live = w.waiting_calls();
                    if let Some(&k) = live.get(i as usize % live.len().max(1)) {
                        w.complete(k, if ok { Ok(()) } else { Err(6000 + k as u64) });
                        if let Some(f) = fs.iter().find(|f| f.call == k && f.f.is_some()) {
                            if let Some(fl) = &f.flag {
                                ensure!(fl.woken(), "no wakeup when the inner outcome arrived");
                            }
                        }
                    }
                }
                DOp::PollFut(i) if !fs.is_empty() => {
                    let k = fs.len();
                    let f = &mut fs[k - 1 - i as usize % k];
                    let Some(fut) = f.f.as_mut() else { continue };
                    let st = w.lock().calls[f.call].st.clone();
                    let (r, fl) = poll_fut(fut.as_mut());
                    match st {
                        CallSt::Waiting => {
                            ensure!(r.is_pending(), "outcome {r:?} without an inner outcome");
                            f.flag = Some(fl);
                        }
                        CallSt::Done(x) | CallSt::Taken(x) => {
                            let (_, seen, want) = reference(c, f.id, f.nth, |v| Some(match x { Ok(()) => (true, f.id, v), Err(e) => (false, f.id, e & MASK) }));
                            let want = want.unwrap();
                            match r {
                                Poll::Pending => {
                                    f.spent += 1;
                                    ensure!(fl.woken(), "request {} waits without a wakeup", f.id);
                                    ensure!(f.spent <= 2 * c.ks.len() as u32, "request {} does not complete", f.id);
                                    f.flag = Some(fl);
                                }
                                Poll::Ready(r) => {
                                    let got = val(&r);
                                    ensure!(got == want, "request {} yields {got:?}, the closures give {want:?}", f.id);
                                    let all: Vec<(usize, Val)> = runs.lock().unwrap().iter().filter(|r| r.1 .1 == f.id).cloned().collect();
                                    ensure!(all == seen, "closures run for request {}: {all:?}, expected {seen:?}", f.id);
                                    touched.extend(seen.iter().map(|s| s.0));
                                    f.f = None;
                                    done += 1;
                                    if want.0 != x.is_ok() {
                                        flips += 1;
                                    }
                                }
                            }
                        }
                    }
                }
                DOp::DropFut(i) if !fs.is_empty() => {
                    let k = fs.len();
                    fs[k - 1 - i as usize % k].f = None;
                }
                DOp::Gate(n) if !c.base_fn => {
                    w.set_credits(g, if n == 4 { FREE } else { n as u64 });
                    if n > 0 {
                        for h in &hs {
                            if let Some(f) = &h.3 {
                                ensure!(f.woken(), "no wakeup when the inner service became ready");
                            }
                        }
                    }
                }
                DOp::Fail(0) if !c.base_fn => w.set_fail(g, Some(4242)),
                DOp::Auto(n) => w.lock().groups[g].auto = match n { 0 => Some(Ok(())), 1 => Some(Err(4343)), _ => None },
                _ => {}
            }
            if let Some(v) = w.violation() {
                return Err(v);
            }
        }
        // no closure ran for a request whose outcome is not there, or twice
        let all = runs.lock().unwrap().clone();
        for f in &fs {
            let st = w.lock().calls[f.call].st.clone();
            let mine: Vec<_> = all.iter().filter(|r| r.1 .1 == f.id).cloned().collect();
            let (_, seen, _) = reference(c, f.id, f.nth, |v| match st {
                CallSt::Taken(Ok(())) => Some((true, f.id, v)),
                CallSt::Taken(Err(e)) => Some((false, f.id, e & MASK)),
                _ => None,
            });
            ensure!(seen.starts_with(&mine), "closures run for request {}: {mine:?}, expected at most {seen:?}", f.id);
        }
        cov.hit_if(flips > 0, "outcome turned around");
        cov.hit_if(ready_err > 0, "readiness error");
        cov.hit_if(c.base_fn, "over a service function");
        if done >= 2 && touched.len() >= 2 {
            cov.nontrivial();
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C28

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum W {
    Box,
    Unsync,
    BoxClone,
    BoxCloneSync,
    BoxLayer,
    UnsyncLayer,
    Left,
    Right,
    Some,
    Ref,
    StdBox,
    Future,
    FutureFn,
    BoxBox,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct WCase {
    k: W,
    inner: u8,
    closed: bool,
    ops: Vec<DOp>,
}
fn arb_w() -> impl Strategy<Value = WCase> {
    use proptest::sample::select;
    let k = select(vec![
        W::Box, W::Unsync, W::BoxClone, W::BoxClone, W::BoxCloneSync, W::BoxCloneSync, W::BoxLayer, W::UnsyncLayer, W::Left, W::Right, W::Some, W::Ref, W::StdBox,
        W::Future, W::FutureFn, W::BoxBox,
    ]);
    (k, 0u8..4, any::<bool>(), arb_ops(50)).prop_map(|(k, inner, closed, ops)| WCase { k, inner, closed, ops })
}
fn wrappers(c: &WCase, cov: &mut Cov) -> R {
    rt::block_on(async {
        let cloneable = matches!(c.k, W::BoxClone | W::BoxCloneSync | W::Left | W::Right | W::Future);
        // the service inside: a bare probe or a middleware with state of its own
        let inner = |p: Probe| match c.inner {
            1 => Dyn::c(tower::limit::ConcurrencyLimit::new(p, 2)),
            2 => Dyn::c(tower::retry::Retry::new(Pol(2), Dyn::c(p))),
            _ => Dyn::c(p),
        };
        let cl: Option<fn(&Dyn) -> Dyn> = if cloneable { Some(|d| d.clone()) } else { None };
        let (w, g, p) = world(c.closed);
        let bare = drive(&w, g, inner(p), cl, &c.ops).await;
        let (w, g, p) = world(c.closed);
        let s = inner(p);
        let ops = &c.ops[..];
        macro_rules! cl {
            ($s:expr) => {
                drive(&w, g, $s, Some(|s| s.clone()), ops).await
            };
        }
        macro_rules! no {
            ($s:expr) => {
                drive(&w, g, $s, None, ops).await
            };
        }
        let log = match c.k {
            W::Box => no!(BoxService::new(s)),
            W::Unsync => no!(UnsyncBoxService::new(s)),
            W::BoxClone => cl!(BoxCloneService::new(s)),
            W::BoxCloneSync => cl!(BoxCloneSyncService::new(SyncDyn::new(s))),
            W::BoxLayer => no!(BoxService::layer().layer(s)),
            W::UnsyncLayer => no!(UnsyncBoxService::layer().layer(s)),
            W::Left => cl!(Either::<Dyn, Dyn>::Left(s)),
            W::Right => cl!(Either::<Dyn, Dyn>::Right(s)),
            W::Some => no!(Optional::new::<Req>(Some(s))),
            W::Ref => {
                let mut s = s;
                // the borrowed service outlives its user
                let mut l = no!(&mut s);
                drop(s);
                l.steps.pop();
                l.steps.push(format!("end: live {}/{} violation {:?}", w.live_svcs(), w.live_futs(), w.violation()));
                l
            }
            W::StdBox => no!(Box::new(s)),
            W::Future => {
                // cloned only once it holds the service, since `Ready` gives its value to one clone
                let mut f: FutureService<_, Dyn> = FutureService::new(CloneReady(Some(s)));
                let _ = with_waker(|cx| Service::<Req>::poll_ready(&mut f, cx));
                // undo what the extra check did
                let f = f;
                drive(&w, g, f, Some(|s| s.clone()), ops).await
            }
            W::FutureFn => no!(future_service(std::future::ready(Ok::<Dyn, BoxError>(s)))),
            W::BoxBox => no!(Box::new(BoxService::new(BoxService::new(s)))),
        };
        cov.tr(|| log.steps.join("\n"));
        // the extra readiness check above may have taken a grant
        if let (W::Future, true) = (c.k, true) {
            let (w, g, p) = world(c.closed);
            let mut s = inner(p);
            let _ = with_waker(|cx| s.poll_ready(cx));
            let bare = drive(&w, g, s, cl, &c.ops).await;
            if let Some(d) = bare.differs(&log) {
                return Err(format!("{:?} differs from the service inside: {d}", c.k));
            }
        } else if let Some(d) = bare.differs(&log) {
            return Err(format!("{:?} differs from the service inside: {d}", c.k));
        }
        note(&log, cov);
        Ok(())
    })
}
struct CloneReady(Option<Dyn>);
impl Clone for CloneReady {
    fn clone(&self) -> Self {
        CloneReady(self.0.clone())
    }
}
impl Future for CloneReady {
    type Output = Result<Dyn, BoxError>;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        Poll::Ready(Ok(self.0.take().expect("polled after completion")))
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct GCase {
    /// whether the creation resolves, and with what
    outcome: Option<bool>,
    /// when, among the operations
    at: u8,
    closed: bool,
    ops: Vec<DOp>,
}
struct Creation {
    st: Arc<Mutex<(Option<Option<Probe>>, Option<Waker>, bool)>>,
}
impl Future for Creation {
    type Output = Result<Probe, PErr>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.st.lock().unwrap();
        assert!(!s.2, "creation polled after it resolved");
        match s.0.take() {
            None => {
                s.1 = Some(cx.waker().clone());
                Poll::Pending
            }
            Some(Some(p)) => {
                s.2 = true;
                Poll::Ready(Ok(p))
            }
            Some(None) => {
                s.2 = true;
                Poll::Ready(Err(PErr(515)))
            }
        }
    }
}
/// A service under creation, and an absent optional one.
fn creation(c: &GCase, cov: &mut Cov) -> R {
    let (w, g, p) = world(c.closed);
    let mut p = Some(p);
    let st: Arc<Mutex<(Option<Option<Probe>>, Option<Waker>, bool)>> = Default::default();
    let mut s: FutureService<Creation, Probe> = FutureService::new(Creation { st: st.clone() });
    let mut none: Optional<Probe> = Optional::new::<Req>(None);
    let (mut ready, mut dead, mut resolved) = (false, false, false);
    let mut flag: Option<Arc<Flag>> = None;
    let mut next = 1u64;
    let mut futs: Vec<(Pin<Box<ProbeFut>>, u64, usize)> = vec![];
    let (mut calls, mut waited) = (0, 0);
    for (i, &op) in c.ops.iter().enumerate() {
        w.begin_step();
        if i == c.at as usize && c.outcome.is_some() {
            let wk = {
                let mut x = st.lock().unwrap();
                x.0 = Some(if c.outcome == Some(true) { p.take() } else { None });
                resolved = true;
                x.1.take()
            };
            if let Some(wk) = wk {
                wk.wake();
            }
            if let Some(f) = &flag {
                ensure!(f.woken(), "no wakeup when the service was created");
            }
        }
        match op {
            DOp::Poll(_) | DOp::Call(_) | DOp::Send(_) | DOp::PollWoken(_) if !dead => {
                if !matches!(op, DOp::Call(_)) {
                    let (r, fl) = with_waker(|cx| Service::<Req>::poll_ready(&mut s, cx));
                    flag = None;
                    match r {
                        Poll::Ready(Ok(())) => {
                            ensure!(resolved && c.outcome == Some(true) && w.is_ready(0), "ready before the service is created and ready");
                            ready = true;
                        }
                        Poll::Ready(Err(e)) => {
                            ensure!(resolved && (e.0 == 515 && c.outcome == Some(false) || c.outcome == Some(true) && w.svc(0).failed == Some(e.0)), "wrong error {e:?}");
                            dead = true;
                            ready = false;
                        }
                        Poll::Pending => {
                            ensure!(!resolved || c.outcome == Some(true) && (!w.answers(0) || fl.woken()), "pending, without a wakeup, although the service is created and ready");
                            flag = Some(fl);
                            waited += 1;
                        }
                    }
                }
                if ready && !matches!(op, DOp::Poll(_) | DOp::PollWoken(_)) {
                    let n = w.ncalls();
                    let f = s.call(req(next));
                    ensure!(w.ncalls() == n + 1 && w.lock().calls[n].req == req(next), "request not passed on");
                    futs.push((Box::pin(f), next, n));
                    next += 1;
                    calls += 1;
                    ready = false;
                }
                // the absent service
                let r = with_waker(|cx| none.poll_ready(cx)).0;
                ensure!(matches!(r, Poll::Ready(Ok(()))), "an absent service is not ready: {r:?}");
                let mut f = Box::pin(none.call(req(next)));
                match poll_fut(f.as_mut()).0 {
                    Poll::Ready(Err(e)) => ensure!(e.is::<tower::util::error::optional::None>(), "an absent service failed with {e:?}"),
                    r => return Err(format!("an absent service gave {r:?}")),
                }
            }
            DOp::Gate(n) => {
                w.set_credits(g, if n == 4 { FREE } else { n as u64 });
                if n > 0 && resolved && c.outcome == Some(true) && p.is_none() && w.svc(0).polls > 0 {
                    if let Some(f) = &flag {
                        ensure!(f.woken(), "no wakeup when the created service became ready");
                    }
                }
            }
            DOp::Fail(0) => w.set_fail(g, Some(4242)),
            DOp::Complete(i, ok) => {
                let live = w.waiting_calls();
                if let Some(&k) = live.get(i as usize % live.len().max(1)) {
                    w.complete(k, if ok { Ok(()) } else { Err(6000 + k as u64) });
                }
            }
            DOp::PollFut(i) if !futs.is_empty() => {
                let k = futs.len();
                let (f, id, call) = &mut futs[k - 1 - i as usize % k];
                let st = w.lock().calls[*call].st.clone();
                match (st, ()) {
                    (CallSt::Taken(_), _) => {}
                    (st, _) => match (poll_fut(f.as_mut()).0, st) {
                        (Poll::Pending, CallSt::Waiting) => {}
                        (Poll::Ready(Ok(r)), CallSt::Done(Ok(()))) => ensure!(r.req == *id, "answered {r:?}"),
                        (Poll::Ready(Err(e)), CallSt::Done(Err(x))) => ensure!(e.0 == x, "failed with {e:?}"),
                        (r, st) => return Err(format!("future gave {r:?}, inner {st:?}")),
                    },
                }
            }
            _ => {}
        }
        if let Some(v) = w.violation() {
            return Err(v);
        }
    }
    cov.hit_if(dead, "creation or readiness failed");
    cov.hit_if(calls > 0, "called once created");
    if waited > 0 && (calls > 0 || dead) {
        cov.nontrivial();
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C26",
            assumptions: &[],
            subs: vec![
                sub("compose", "three or more layers", 40_000, || (arb_t(), 1u8..4, any::<bool>()).prop_map(|(t, services, fail)| TCase { t, services, fail }), compose),
                sub("named", "two or more requests, one of them answered", 60_000, || (arb_m(), any::<u8>(), any::<bool>(), 0u8..6, arb_ops(40)).prop_map(|(m, style, closed, noise, ops)| MCase { m, style, closed, noise, ops }), methods),
            ],
        },
        Prop {
            id: "C27",
            assumptions: &["closures do not panic"],
            subs: vec![sub("history", "two or more outcomes that passed two or more closures", 300_000, arb_k, combinators)],
        },
        Prop {
            id: "C28",
            assumptions: &["compared against the same history on the service inside"],
            subs: vec![
                sub("transparent", "two or more requests, one of them answered", 60_000, arb_w, wrappers),
                sub(
                    "creation",
                    "waited for the creation or readiness, and then called or failed",
                    80_000,
                    || {
                        (prop::option::weighted(0.9, prop::bool::weighted(0.75)), 0u8..15, any::<bool>(), arb_ops(40)).prop_map(|(outcome, at, closed, ops)| GCase { outcome, at, closed, ops })
                    },
                    creation,
                ),
            ],
        },
    ]
}
