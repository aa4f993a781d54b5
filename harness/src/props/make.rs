//! C31 maker adapters, C32 discovery sources.
use super::balance::{Disc, Item, LP};
use crate::core::*;
use crate::diff;
use crate::ensure;
use crate::probe::*;
use crate::rt;
use futures_core::Stream;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use tower::balance::p2c::{Balance, MakeBalance, MakeBalanceLayer};
use tower::discover::{Change, Discover, ServiceList};
use tower::load::peak_ewma::PeakEwmaDiscover;
use tower::load::pending_requests::PendingRequestsDiscover;
use tower::load::{CompleteOnResponse, Constant, Load};
use tower::make::{IntoService, MakeConnection, MakeService, Shared};
use tower_layer::Layer;
use tower_service::Service;

// ---------------------------------------------------------------- C31

/// A maker: the probe decides, each success makes one service (also a connection).
#[derive(Clone, Debug)]
struct Mk {
    p: Probe,
    g: usize,
}
struct Made {
    p: Probe,
    r: Resp,
}
struct MkFut {
    f: ProbeFut,
    w: World,
    g: usize,
}
impl Future for MkFut {
    type Output = Result<Made, PErr>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match Pin::new(&mut self.f).poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Ready(Ok(r)) => Poll::Ready(Ok(Made { p: self.w.probe(self.g), r })),
        }
    }
}
impl Service<Req> for Mk {
    type Response = Made;
    type Error = PErr;
    type Future = MkFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), PErr>> {
        self.p.poll_ready(cx)
    }
    fn call(&mut self, t: Req) -> MkFut {
        MkFut { f: self.p.call(t), w: self.p.world.clone(), g: self.g }
    }
}
impl Service<Req> for Made {
    type Response = Resp;
    type Error = PErr;
    type Future = ProbeFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), PErr>> {
        self.p.poll_ready(cx)
    }
    fn call(&mut self, t: Req) -> ProbeFut {
        self.p.call(t)
    }
}
impl tokio::io::AsyncRead for Made {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        Poll::Pending
    }
}
impl tokio::io::AsyncWrite for Made {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        Poll::Ready(Ok(b.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
/// Turns a maker into a service whose response tells which service was made.
#[derive(Clone)]
struct Strip<S>(S);
struct StripFut<F>(Pin<Box<F>>);
impl<F: Future<Output = Result<Made, PErr>>> Future for StripFut<F> {
    type Output = Result<Resp, PErr>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        self.0.as_mut().poll(cx).map(|r| {
            r.map(|mut m| {
                // use it once
                let (rd, _) = with_waker(|cx| m.poll_ready(cx));
                assert!(matches!(rd, Poll::Ready(Ok(()))));
                let rec = m.call(Req { id: m.r.req, val: 77, hold: Hold::default() });
                Resp { val: m.r.val * 1_000_000 + m.p.id as u64 * 1000 + rec.n as u64, ..m.r }
            })
        })
    }
}
impl<S: Service<Req, Response = Made, Error = PErr>> Service<Req> for Strip<S> {
    type Response = Resp;
    type Error = PErr;
    type Future = StripFut<S::Future>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), PErr>> {
        self.0.poll_ready(cx)
    }
    fn call(&mut self, t: Req) -> StripFut<S::Future> {
        StripFut(Box::pin(self.0.call(t)))
    }
}
/// Through the `MakeService` trait.
#[derive(Clone)]
struct ViaMake<M>(M);
impl<M: MakeService<Req, Req, Service = Made, MakeError = PErr>> Service<Req> for ViaMake<M> {
    type Response = Made;
    type Error = PErr;
    type Future = M::Future;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), PErr>> {
        MakeService::poll_ready(&mut self.0, cx)
    }
    fn call(&mut self, t: Req) -> M::Future {
        self.0.make_service(t)
    }
}
/// Through a new `as_service` view each time.
#[derive(Clone)]
struct ViaAs<M>(M);
impl<M: Service<Req, Response = Made, Error = PErr>> Service<Req> for ViaAs<M> {
    type Response = Made;
    type Error = PErr;
    type Future = M::Future;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), PErr>> {
        Service::poll_ready(&mut MakeService::<Req, Req>::as_service(&mut self.0), cx)
    }
    fn call(&mut self, t: Req) -> M::Future {
        MakeService::<Req, Req>::as_service(&mut self.0).call(t)
    }
}
#[derive(Clone)]
struct ViaConn<M>(M);
impl<M: MakeConnection<Req, Connection = Made, Error = PErr>> Service<Req> for ViaConn<M> {
    type Response = Made;
    type Error = PErr;
    type Future = M::Future;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), PErr>> {
        MakeConnection::poll_ready(&mut self.0, cx)
    }
    fn call(&mut self, t: Req) -> M::Future {
        self.0.make_connection(t)
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct MCase {
    kind: u8,
    closed: bool,
    ops: Vec<diff::DOp>,
}
fn arb_make() -> impl Strategy<Value = MCase> {
    (0u8..6, any::<bool>(), diff::arb_ops(50)).prop_map(|(kind, closed, ops)| MCase { kind, closed, ops })
}
fn adapters(c: &MCase, cov: &mut Cov) -> R {
    let mk = || {
        let (w, g, p) = diff::world(c.closed);
        let made = w.group(Group { auto: Some(Ok(())), ..Default::default() });
        (w, g, Mk { p, g: made })
    };
    fn into<M: MakeService<Req, Req>>(m: M) -> IntoService<M, Req> {
        m.into_service()
    }
    rt::block_on(async {
        let (w, g, m) = mk();
        let a = diff::drive(&w, g, Strip(m), Some(|s: &Strip<Mk>| s.clone()), &c.ops).await;
        let (w, g, m) = mk();
        macro_rules! d {
            ($s:expr) => {
                diff::drive(&w, g, Strip($s), Some(|s| Clone::clone(s)), &c.ops).await
            };
        }
        let b = match c.kind {
            0 => d!(into(m)),
            1 => d!(ViaMake(m)),
            2 => d!(ViaAs(m)),
            3 => d!(ViaConn(m)),
            4 => d!(into(into(m))),
            _ => d!(ViaAs(ViaMake(into(m)))),
        };
        if let Some(x) = a.differs(&b).or_else(|| b.differs(&a)) {
            return Err(format!("the maker against the maker through adapter {}: {x}", c.kind));
        }
        diff::note(&a, cov);
        Ok(())
    })
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum SOp {
    Poll(u8),
    Call(u8),
    Clone(u8),
    PollFut(u8),
    DropFut(u8),
    Use(u8),
    DropH(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct SCase {
    closed: bool,
    fail: bool,
    into: bool,
    ops: Vec<SOp>,
}
fn arb_shared() -> impl Strategy<Value = SCase> {
    let i = 0u8..6;
    let op = prop_oneof![
        6 => i.clone().prop_map(SOp::Poll),
        20 => i.clone().prop_map(SOp::Call),
        4 => i.clone().prop_map(SOp::Clone),
        16 => i.clone().prop_map(SOp::PollFut),
        4 => i.clone().prop_map(SOp::DropFut),
        12 => i.clone().prop_map(SOp::Use),
        1 => i.prop_map(SOp::DropH),
    ];
    (any::<bool>(), prop::bool::weighted(0.1), any::<bool>(), hist(op, 40))
        .prop_map(|(closed, fail, into, ops)| SCase { closed, fail, into, ops })
}
#[derive(Clone)]
enum Sh {
    D(Shared<Probe>),
    I(IntoService<Shared<Probe>, Req>),
}
type ShFut = Pin<Box<dyn Future<Output = Result<Probe, std::convert::Infallible>>>>;
fn shared(c: &SCase, cov: &mut Cov) -> R {
    let w = World::new();
    // the service is not ready: making clones of it does not depend on that
    let g = w.group(Group { credits: if c.closed { 0 } else { FREE }, fail_ready: c.fail.then_some(4242), ..Default::default() });
    let p = w.probe(g);
    let root = p.id;
    let sh = if c.into { Sh::I(MakeService::<String, Req>::into_service(Shared::new(p))) } else { Sh::D(Shared::new(p)) };
    // handle, its instance
    let mut hs: Vec<Option<(Sh, usize)>> = vec![Some((sh, root))];
    let mut futs: Vec<(ShFut, usize)> = vec![];
    let mut made: Vec<(Probe, usize)> = vec![];
    let (mut n, mut used) = (0, 0);
    for (step, &op) in c.ops.iter().enumerate() {
        w.begin_step();
        let before = w.lock().svcs.len();
        match op {
            SOp::Poll(i) => {
                let k = hs.len();
                if let Some((h, id)) = &mut hs[i as usize % k] {
                    let polls = w.svc(*id).polls;
                    let (r, _) = with_waker(|cx| match h {
                        Sh::D(s) => Service::<u64>::poll_ready(s, cx),
                        Sh::I(s) => Service::<String>::poll_ready(s, cx),
                    });
                    ensure!(matches!(r, Poll::Ready(Ok(()))), "a shared maker is not ready");
                    ensure!(w.svc(*id).polls == polls, "the shared service was asked for readiness");
                }
            }
            SOp::Call(i) => {
                let k = hs.len();
                if let Some((h, id)) = &mut hs[i as usize % k] {
                    let f: ShFut = match h {
                        Sh::D(s) => match step % 3 {
                            0 => Box::pin(s.call(7u64)),
                            1 => Box::pin(s.call("target")),
                            _ => Box::pin(MakeService::<(), Req>::make_service(s, ())),
                        },
                        Sh::I(s) => Box::pin(s.call(String::from("t"))),
                    };
                    n += 1;
                    let x = w.lock();
                    ensure!(x.svcs.len() == before + 1, "{} services made by one call", x.svcs.len() - before);
                    ensure!(x.svcs[before].parent == Some(*id), "the made service is a clone of another one");
                    drop(x);
                    futs.push((f, before));
                }
            }
            SOp::Clone(i) => {
                let k = hs.len();
                if k < 4 {
                    if let Some((h, id)) = &hs[i as usize % k] {
                        let (h, id) = (h.clone(), *id);
                        ensure!(w.svc(before).parent == Some(id), "the clone is of another service");
                        hs.push(Some((h, before)));
                    }
                }
            }
            SOp::PollFut(i) if !futs.is_empty() => {
                let k = i as usize % futs.len();
                let (mut f, id) = futs.swap_remove(k);
                let (r, _) = poll_fut(f.as_mut());
                match r {
                    Poll::Ready(Ok(p)) => {
                        ensure!(p.id == id, "the call made instance {}, answered with {}", id, p.id);
                        made.push((p, id));
                    }
                    _ => return Err("making a clone did not finish at once".into()),
                }
            }
            SOp::DropFut(i) if !futs.is_empty() => {
                let k = i as usize % futs.len();
                let (f, id) = futs.swap_remove(k);
                drop(f);
                ensure!(!w.svc(id).alive, "an abandoned clone survives");
            }
            SOp::Use(i) if !made.is_empty() => {
                let k = made.len();
                let (p, _) = &mut made[i as usize % k];
                let (r, _) = with_waker(|cx| p.poll_ready(cx));
                match r {
                    Poll::Ready(Ok(())) => {
                        drop(p.call(req(1)));
                        used += 1;
                    }
                    Poll::Ready(Err(_)) => ensure!(c.fail, "failed"),
                    Poll::Pending => ensure!(c.closed, "pending"),
                }
            }
            SOp::DropH(i) => {
                let k = hs.len();
                if k > 1 {
                    hs[i as usize % k] = None;
                }
            }
            _ => {}
        }
        let x = w.lock();
        ensure!(x.svcs.len() - before <= 1, "more services made than calls");
        ensure!(x.calls.len() == used, "a request was dispatched by making services");
        drop(x);
        if let Some(v) = w.violation() {
            return Err(v);
        }
    }
    drop((hs, futs, made));
    ensure!(w.live_svcs() == 0, "services survive");
    cov.hit_if(used > 0, "used");
    if n >= 2 {
        cov.nontrivial();
    }
    Ok(())
}

/// Makes one scripted discovery per success.
#[derive(Clone)]
struct MkDisc {
    p: Probe,
    made: Arc<Mutex<Vec<(usize, Disc)>>>,
}
struct MkDiscFut(ProbeFut, Arc<Mutex<Vec<(usize, Disc)>>>);
impl Future for MkDiscFut {
    type Output = Result<Disc, PErr>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match Pin::new(&mut self.0).poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Ready(Ok(r)) => {
                let d = Disc::default();
                self.1.lock().unwrap().push((r.call, d.clone()));
                Poll::Ready(Ok(d))
            }
        }
    }
}
impl Service<Req> for MkDisc {
    type Response = Disc;
    type Error = PErr;
    type Future = MkDiscFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), PErr>> {
        self.p.poll_ready(cx)
    }
    fn call(&mut self, t: Req) -> MkDiscFut {
        MkDiscFut(self.p.call(t), self.made.clone())
    }
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum BOp {
    Send(u8),
    Clone(u8),
    Gate(u8),
    Fail,
    Complete(u8, bool),
    PollFut(u8),
    DropFut(u8),
    /// endpoints discovered by a made balancer
    Insert(u8, u8),
    Remove(u8, u8),
    /// a request to a made balancer
    Use(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct BCase {
    layer: bool,
    closed: bool,
    ops: Vec<BOp>,
}
fn arb_mb() -> impl Strategy<Value = BCase> {
    let i = 0u8..6;
    let op = prop_oneof![
        20 => i.clone().prop_map(BOp::Send),
        3 => i.clone().prop_map(BOp::Clone),
        8 => (0u8..5).prop_map(BOp::Gate),
        1 => Just(BOp::Fail),
        16 => (i.clone(), prop::bool::weighted(0.8)).prop_map(|(a, b)| BOp::Complete(a, b)),
        18 => i.clone().prop_map(BOp::PollFut),
        3 => i.clone().prop_map(BOp::DropFut),
        16 => (i.clone(), 0u8..5).prop_map(|(a, b)| BOp::Insert(a, b)),
        4 => (i.clone(), 0u8..5).prop_map(|(a, b)| BOp::Remove(a, b)),
        24 => i.prop_map(BOp::Use),
    ];
    (any::<bool>(), prop::bool::weighted(0.3), hist(op, 60)).prop_map(|(layer, closed, ops)| BCase { layer, closed, ops })
}
struct Bal {
    b: Balance<Disc, Req>,
    d: Disc,
    /// current endpoint group of each key
    eps: std::collections::BTreeMap<u8, usize>,
}
fn make_balance(c: &BCase, cov: &mut Cov) -> R {
    let w = World::new();
    let g = w.group(Group { credits: if c.closed { 0 } else { FREE }, ..Default::default() });
    let p = w.probe(g);
    let made: Arc<Mutex<Vec<(usize, Disc)>>> = Default::default();
    let reads: Arc<Mutex<Vec<usize>>> = Default::default();
    let inner = MkDisc { p, made: made.clone() };
    type MB = MakeBalance<MkDisc, Req>;
    type BF = Pin<Box<dyn Future<Output = Result<Balance<Disc, Req>, PErr>>>>;
    let first: MB = if c.layer { MakeBalanceLayer::<MkDisc, Req>::new().clone().layer(inner) } else { MakeBalance::new(inner) };
    let root = 0usize;
    // handle, inner instance, waiting
    let mut hs: Vec<(MB, usize, Option<Arc<Flag>>, bool)> = vec![(first, root, None, false)];
    let mut futs: Vec<(BF, usize, u64, Option<Arc<Flag>>)> = vec![];
    let mut bs: Vec<Bal> = vec![];
    let mut next = 1u64;
    let (mut routed, mut errs, mut several) = (0, 0, 0);
    for &op in &c.ops {
        w.begin_step();
        match op {
            BOp::Send(i) => {
                let k = hs.len();
                let (h, id, flag, dead) = &mut hs[i as usize % k];
                if *dead {
                    continue;
                }
                let (r, fl) = with_waker(|cx| Service::poll_ready(&mut *h, cx));
                *flag = None;
                match r {
                    Poll::Ready(Ok(())) => {
                        ensure!(w.is_ready(*id), "ready although the maker is not");
                        let n = w.ncalls();
                        let f = h.call(Req { id: next, val: next * 7, hold: Hold::default() });
                        let x = w.lock();
                        ensure!(x.calls.len() == n + 1, "{} makes for one call", x.calls.len() - n);
                        ensure!(x.calls[n].req == Req { id: next, val: next * 7, hold: Hold::default() }, "target changed to {:?}", x.calls[n].req);
                        ensure!(x.calls[n].svc == *id, "another instance was used");
                        drop(x);
                        futs.push((Box::pin(f), n, next, None));
                        next += 1;
                    }
                    Poll::Ready(Err(PErr(e))) => {
                        ensure!(w.svc(*id).failed == Some(e), "wrong readiness error");
                        *dead = true;
                        errs += 1;
                    }
                    Poll::Pending => {
                        ensure!(!w.answers(*id), "pending although the maker is ready");
                        *flag = Some(fl);
                    }
                }
            }
            BOp::Clone(i) => {
                let k = hs.len();
                if k < 3 {
                    let n = w.lock().svcs.len();
                    let (h, id, _, _) = &hs[i as usize % k];
                    let h = h.clone();
                    ensure!(w.svc(n).parent == Some(*id), "clone of another maker");
                    hs.push((h, n, None, false));
                }
            }
            BOp::Gate(n) => w.set_credits(g, if n == 4 { FREE } else { n as u64 }),
            BOp::Fail => w.set_fail(g, Some(4242)),
            BOp::Complete(i, ok) => {
                let live: Vec<usize> = { let x = w.lock(); (0..x.calls.len()).filter(|k| x.calls[*k].group == g && x.calls[*k].alive && x.calls[*k].st == CallSt::Waiting).collect() };
                if let Some(&k) = live.get(i as usize % live.len().max(1)) {
                    w.complete(k, if ok { Ok(()) } else { Err(6000 + k as u64) });
                }
            }
            BOp::PollFut(i) if !futs.is_empty() => {
                let k = i as usize % futs.len();
                let call = futs[k].1;
                let st = w.lock().calls[call].st.clone();
                let n = made.lock().unwrap().len();
                let (r, fl) = poll_fut(futs[k].0.as_mut());
                match r {
                    Poll::Pending => {
                        ensure!(st == CallSt::Waiting, "pending although the discovery was made");
                        futs[k].3 = Some(fl);
                    }
                    Poll::Ready(Ok(b)) => {
                        ensure!(st == CallSt::Done(Ok(())), "made out of nothing");
                        let m = made.lock().unwrap();
                        ensure!(m.len() == n + 1 && m[n].0 == call, "made from another discovery");
                        ensure!(b.len() == 0 && b.is_empty(), "a new balancer has endpoints");
                        bs.push(Bal { b, d: m[n].1.clone(), eps: Default::default() });
                        drop(m);
                        drop(futs.swap_remove(k));
                    }
                    Poll::Ready(Err(PErr(e))) => {
                        ensure!(st == CallSt::Done(Err(e)), "wrong failure {e}");
                        errs += 1;
                        drop(futs.swap_remove(k));
                    }
                }
            }
            BOp::DropFut(i) if !futs.is_empty() => {
                let k = i as usize % futs.len();
                let (f, call, ..) = futs.swap_remove(k);
                drop(f);
                ensure!(!w.lock().calls[call].alive, "an abandoned make survives");
            }
            BOp::Insert(i, key) if !bs.is_empty() => {
                let k = i as usize % bs.len();
                let eg = w.group(Group { auto: Some(Ok(())), ..Default::default() });
                bs[k].d.push(Item::Insert(key, LP { p: w.probe(eg), reads: reads.clone() }));
                bs[k].eps.insert(key, eg);
            }
            BOp::Remove(i, key) if !bs.is_empty() => {
                let k = i as usize % bs.len();
                bs[k].d.push(Item::Remove(key));
                bs[k].eps.remove(&key);
            }
            BOp::Use(i) if !bs.is_empty() => {
                let k = i as usize % bs.len();
                let b = &mut bs[k];
                let (r, _) = with_waker(|cx| b.b.poll_ready(cx));
                ensure!(b.d.queued() == 0, "changes left in the discovery");
                match r {
                    Poll::Ready(Ok(())) => {
                        ensure!(!b.eps.is_empty(), "ready without endpoints");
                        ensure!(b.b.len() == b.eps.len(), "{} endpoints, {} discovered", b.b.len(), b.eps.len());
                        let n = w.ncalls();
                        let f = b.b.call(req(next));
                        next += 1;
                        let x = w.lock();
                        ensure!(x.calls.len() == n + 1, "not dispatched once");
                        ensure!(b.eps.values().any(|e| *e == x.calls[n].group), "dispatched to an endpoint its discovery does not have");
                        drop(x);
                        drop(f);
                        routed += 1;
                        several += (b.eps.len() >= 2) as u32;
                    }
                    Poll::Pending => ensure!(b.eps.is_empty(), "pending with ready endpoints"),
                    Poll::Ready(Err(e)) => return Err(format!("balancer failed: {e}")),
                }
            }
            _ => {}
        }
        for (_, id, f, dead) in &hs {
            if let (Some(f), false) = (f, dead) {
                ensure!(f.woken() || !w.answers(*id), "no wakeup although the maker is ready");
            }
        }
        for (_, call, _, f) in &futs {
            if let Some(f) = f {
                ensure!(f.woken() || w.lock().calls[*call].st == CallSt::Waiting, "no wakeup although the discovery was made");
            }
        }
        if let Some(v) = w.violation() {
            return Err(v);
        }
    }
    cov.hit_if(errs > 0, "errors");
    cov.hit_if(bs.len() >= 2, "several balancers");
    cov.hit_if(several > 0, "balanced over several endpoints");
    if routed >= 2 {
        cov.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C32

#[derive(Debug, Clone, Serialize, Deserialize)]
struct ListCase {
    n: u16,
    kind: u8,
    via: Vec<bool>,
    extra: u8,
}
fn arb_list() -> impl Strategy<Value = ListCase> {
    (prop_oneof![100 => 0u16..8, 10 => 8u16..120, 1 => 120u16..1200], 0u8..4, prop::collection::vec(any::<bool>(), 3), 1u8..4)
        .prop_map(|(n, kind, via, extra)| ListCase { n, kind, via, extra })
}
fn poll_any<D: Discover + ?Sized>(d: Pin<&mut D>, cx: &mut Context<'_>) -> Poll<Option<Result<Change<D::Key, D::Service>, D::Error>>> {
    d.poll_discover(cx)
}
fn list(c: &ListCase, cov: &mut Cov) -> R {
    let w = World::new();
    let g = w.group(Group::default());
    let n = c.n as usize;
    let ps: Vec<Probe> = (0..n).map(|_| w.probe(g)).collect();
    type It = Pin<Box<dyn Stream<Item = Result<Change<usize, Probe>, std::convert::Infallible>>>>;
    let w2 = w.clone();
    let (mut l, ids): (It, Vec<usize>) = match c.kind {
        0 => (Box::pin(ServiceList::new::<Req>(ps)), (0..n).collect()),
        1 => (Box::pin(ServiceList::new::<Req>(ps.into_iter().rev())), (0..n).rev().collect()),
        2 => (Box::pin(ServiceList::new::<Req>(ps.into_iter().filter(|p| p.id % 3 != 1))), (0..n).filter(|i| i % 3 != 1).collect()),
        _ => {
            drop(ps);
            // made on demand
            (Box::pin(ServiceList::new::<Req>((0..n).map(move |_| w2.probe(g)))), (n..2 * n).collect())
        }
    };
    for (k, id) in ids.iter().enumerate() {
        let via = c.via[k % c.via.len()];
        let (r, _) = with_waker(|cx| if via { poll_any(l.as_mut(), cx) } else { l.as_mut().poll_next(cx) });
        match r {
            Poll::Ready(Some(Ok(Change::Insert(key, p)))) => {
                ensure!(key == k, "key {key} for service number {k}");
                ensure!(p.id == *id, "service number {k} is {} instead of {id}", p.id);
                ensure!(w.svc(p.id).polls == 0 && w.svc(p.id).parent.is_none(), "the list touched a service");
            }
            Poll::Ready(Some(Ok(Change::Remove(_)))) => return Err("a list removes a service".into()),
            Poll::Ready(None) => return Err(format!("ended after {k} of {} services", ids.len())),
            Poll::Pending => return Err("a list is pending".into()),
            Poll::Ready(Some(Err(_))) => unreachable!(),
        }
    }
    for _ in 0..c.extra {
        let (r, _) = with_waker(|cx| poll_any(l.as_mut(), cx));
        ensure!(matches!(r, Poll::Ready(None)), "not ended after the last service");
    }
    if ids.len() >= 2 {
        cov.nontrivial();
    }
    Ok(())
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum WOp {
    Insert(u8),
    Remove(u8),
    Err,
    End,
    Poll(bool),
    /// load of a discovered service, request to it, answer, time
    Load(u8),
    Call(u8),
    Answer(u8),
    Advance(u16),
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum WKind {
    Const,
    Pending,
    Ewma,
    ConstConst,
    PendingConst,
    EwmaPending,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct WCase {
    kind: WKind,
    load: u32,
    rtt_ns: u64,
    decay_ns: u64,
    ops: Vec<WOp>,
}
fn arb_wrap() -> impl Strategy<Value = WCase> {
    let op = prop_oneof![
        20 => (0u8..5).prop_map(WOp::Insert),
        10 => (0u8..5).prop_map(WOp::Remove),
        3 => Just(WOp::Err),
        1 => Just(WOp::End),
        30 => any::<bool>().prop_map(WOp::Poll),
        10 => (0u8..6).prop_map(WOp::Load),
        8 => (0u8..6).prop_map(WOp::Call),
        6 => (0u8..6).prop_map(WOp::Answer),
        5 => (0u16..2000).prop_map(WOp::Advance),
    ];
    let kind = prop_oneof![
        Just(WKind::Const),
        Just(WKind::Pending),
        Just(WKind::Ewma),
        Just(WKind::ConstConst),
        Just(WKind::PendingConst),
        Just(WKind::EwmaPending)
    ];
    (kind, any::<u32>(), prop_oneof![1_000u64..10_000_000_000], prop_oneof![1_000u64..10_000_000_000], hist(op, 60))
        .prop_map(|(kind, load, rtt_ns, decay_ns, ops)| WCase { kind, load, rtt_ns, decay_ns, ops })
}
/// One wrapped discovered service, as seen from outside.
trait Ep {
    fn load_text(&self) -> String;
    fn ready(&mut self) -> bool;
    fn send(&mut self, r: Req) -> Pin<Box<dyn Future<Output = Result<Resp, PErr>>>>;
}
impl<S> Ep for S
where
    S: Service<Req, Response = Resp, Error = PErr> + Load,
    S::Metric: std::fmt::Debug,
    S::Future: 'static,
{
    fn load_text(&self) -> String {
        format!("{:?}", self.load())
    }
    fn ready(&mut self) -> bool {
        matches!(with_waker(|cx| self.poll_ready(cx)).0, Poll::Ready(Ok(())))
    }
    fn send(&mut self, r: Req) -> Pin<Box<dyn Future<Output = Result<Resp, PErr>>>> {
        Box::pin(self.call(r))
    }
}
enum Ch {
    Insert(u8, Box<dyn Ep>),
    Remove(u8),
}
/// What the wrapped discovery reports, erased.
trait Src {
    fn next(&mut self, discover: bool, cx: &mut Context<'_>) -> Poll<Option<Result<Ch, PErr>>>;
}
struct S1<D>(Pin<Box<D>>);
impl<D, S> Src for S1<D>
where
    D: Stream<Item = Result<Change<u8, S>, PErr>>,
    S: Service<Req, Response = Resp, Error = PErr> + Load + 'static,
    S::Metric: std::fmt::Debug,
    S::Future: 'static,
{
    fn next(&mut self, discover: bool, cx: &mut Context<'_>) -> Poll<Option<Result<Ch, PErr>>> {
        let r = if discover { poll_any(self.0.as_mut(), cx) } else { self.0.as_mut().poll_next(cx) };
        r.map(|o| {
            o.map(|r| {
                r.map(|c| match c {
                    Change::Insert(k, s) => Ch::Insert(k, Box::new(s)),
                    Change::Remove(k) => Ch::Remove(k),
                })
            })
        })
    }
}
fn wrappers(c: &WCase, cov: &mut Cov) -> R {
    rt::block_on(async { wrappers_in(c, cov).await })
}
async fn wrappers_in(c: &WCase, cov: &mut Cov) -> R {
    let w = World::new();
    let d = Disc::default();
    let reads: Arc<Mutex<Vec<usize>>> = Default::default();
    let (rtt, decay) = (Duration::from_nanos(c.rtt_ns), Duration::from_nanos(c.decay_ns));
    fn pend<D>(d: D) -> PendingRequestsDiscover<D>
    where
        D: Discover,
        D::Service: Service<Req>,
    {
        PendingRequestsDiscover::new::<Req>(d, CompleteOnResponse::default())
    }
    fn ewma<D>(d: D, a: Duration, b: Duration) -> PeakEwmaDiscover<D>
    where
        D: Discover,
        D::Service: Service<Req>,
    {
        PeakEwmaDiscover::new::<Req>(d, a, b, CompleteOnResponse::default())
    }
    fn bx<D, S>(d: D) -> Box<dyn Src>
    where
        D: Stream<Item = Result<Change<u8, S>, PErr>> + 'static,
        S: Service<Req, Response = Resp, Error = PErr> + Load + 'static,
        S::Metric: std::fmt::Debug,
        S::Future: 'static,
    {
        Box::new(S1(Box::pin(d)))
    }
    let mut s: Box<dyn Src> = match c.kind {
        WKind::Const => bx(Constant::new(d.clone(), c.load)),
        WKind::Pending => bx(pend(d.clone())),
        WKind::Ewma => bx(ewma(d.clone(), rtt, decay)),
        WKind::ConstConst => bx(Constant::new(Constant::new(d.clone(), 3u8), c.load)),
        WKind::PendingConst => bx(pend(Constant::new(d.clone(), c.load))),
        WKind::EwmaPending => bx(ewma(pend(d.clone()), rtt, decay)),
    };
    #[derive(Debug, Clone, PartialEq)]
    enum E {
        I(u8, usize),
        R(u8),
        X(u64),
        End,
    }
    struct Sv {
        e: Box<dyn Ep>,
        g: usize,
        rtt: f64,
        at: tokio::time::Instant,
        open: Vec<(Pin<Box<dyn Future<Output = Result<Resp, PErr>>>>, tokio::time::Instant, usize)>,
    }
    let mut q: std::collections::VecDeque<E> = Default::default();
    let mut eps: Vec<Sv> = vec![];
    let (mut ended, mut end_seen) = (false, false);
    let mut flag: Option<Arc<Flag>> = None;
    let mut next = 1u64;
    let (mut seen, mut waits, mut loads, mut errs) = (0, 0, 0, 0);
    for &op in &c.ops {
        w.begin_step();
        match op {
            WOp::Insert(k) if !ended => {
                let g = w.group(Group::default());
                d.push(Item::Insert(k, LP { p: w.probe(g), reads: reads.clone() }));
                q.push_back(E::I(k, g));
            }
            WOp::Remove(k) if !ended => {
                d.push(Item::Remove(k));
                q.push_back(E::R(k));
            }
            WOp::Err if !ended => {
                d.push(Item::Err(next));
                q.push_back(E::X(next));
                next += 1;
            }
            WOp::End if !ended => {
                d.push(Item::End);
                q.push_back(E::End);
                ended = true;
            }
            WOp::Poll(via) if !end_seen => {
                let (r, fl) = with_waker(|cx| s.next(via, cx));
                flag = None;
                match (r, q.pop_front()) {
                    (Poll::Pending, None) => {
                        flag = Some(fl);
                        waits += 1;
                    }
                    (Poll::Ready(None), Some(E::End)) => end_seen = true,
                    (Poll::Ready(Some(Err(PErr(a)))), Some(E::X(b))) if a == b => errs += 1,
                    (Poll::Ready(Some(Ok(Ch::Remove(a)))), Some(E::R(b))) if a == b => seen += 1,
                    (Poll::Ready(Some(Ok(Ch::Insert(a, e)))), Some(E::I(b, g))) if a == b => {
                        eps.push(Sv { e, g, rtt: c.rtt_ns as f64, at: rt::now(), open: vec![] });
                        seen += 1;
                    }
                    (r, e) => {
                        let r = match r {
                            Poll::Pending => "pending".to_string(),
                            Poll::Ready(None) => "the end".into(),
                            Poll::Ready(Some(Err(e))) => format!("error {e}"),
                            Poll::Ready(Some(Ok(Ch::Insert(k, _)))) => format!("insert {k}"),
                            Poll::Ready(Some(Ok(Ch::Remove(k)))) => format!("remove {k}"),
                        };
                        return Err(format!("the wrapped source reports {r}, the source reported {e:?}"));
                    }
                }
            }
            WOp::Load(i) if !eps.is_empty() => {
                let k = eps.len();
                let sv = &mut eps[i as usize % k];
                let got = sv.e.load_text();
                loads += 1;
                match c.kind {
                    WKind::Const | WKind::ConstConst => ensure!(got == format!("{:?}", c.load), "load {got}, given {}", c.load),
                    WKind::Pending | WKind::PendingConst => {
                        ensure!(super::load::number(&got) == sv.open.len() as f64, "load {got} with {} requests open", sv.open.len())
                    }
                    WKind::Ewma | WKind::EwmaPending => {
                        let t = (rt::now() - sv.at).as_nanos() as f64;
                        sv.rtt *= (-t / c.decay_ns as f64).exp();
                        sv.at = rt::now();
                        let want = sv.rtt * (sv.open.len() + 1) as f64;
                        let x = super::load::number(&got);
                        ensure!((x - want).abs() <= 1e-6 * want.abs() + 1e-6, "load {got}, expected {want}: default rtt {} ns, decay {} ns, {t} ns on", c.rtt_ns, c.decay_ns);
                    }
                }
            }
            WOp::Call(i) if !eps.is_empty() => {
                let k = eps.len();
                let sv = &mut eps[i as usize % k];
                ensure!(sv.e.ready(), "a discovered service is not ready");
                let n = w.ncalls();
                let f = sv.e.send(req(next));
                let x = w.lock();
                ensure!(x.calls.len() == n + 1 && x.calls[n].req == req(next) && x.calls[n].group == sv.g, "request went astray");
                drop(x);
                next += 1;
                sv.open.push((f, rt::now(), n));
            }
            WOp::Answer(i) if !eps.is_empty() => {
                let k = eps.len();
                let sv = &mut eps[i as usize % k];
                if sv.open.is_empty() {
                    continue;
                }
                let (mut f, at, n) = sv.open.remove(0);
                w.complete(n, Ok(()));
                let (r, _) = poll_fut(f.as_mut());
                match r {
                    Poll::Ready(Ok(x)) => ensure!(x.call == n, "answered with {x:?}"),
                    r => return Err(format!("{r:?} instead of the response")),
                }
                // one latency sample
                let lat = (rt::now() - at).as_nanos() as f64;
                if sv.rtt < lat {
                    sv.rtt = lat;
                } else {
                    let dk = (-((rt::now() - sv.at).as_nanos() as f64) / c.decay_ns as f64).exp();
                    sv.rtt = sv.rtt * dk + lat * (1.0 - dk);
                }
                sv.at = rt::now();
            }
            WOp::Advance(ms) => rt::advance(ms as u64).await,
            _ => {}
        }
        ensure!(!d.polled_after_end(), "the source was polled after its end");
        ensure!(d.queued() == q.len(), "the wrapper took {} changes ahead", q.len() as i64 - d.queued() as i64);
        if let Some(f) = &flag {
            ensure!(f.woken() || q.is_empty(), "no wakeup although the source has a change");
        }
        if let Some(v) = w.violation() {
            return Err(v);
        }
    }
    cov.hit_if(waits > 0, "waited");
    cov.hit_if(errs > 0, "error");
    cov.hit_if(end_seen, "end");
    cov.hit_if(loads > 0, "loads read");
    if seen >= 2 && loads >= 1 {
        cov.nontrivial();
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C31",
            assumptions: &["adapters are compared against the same history on the maker itself"],
            subs: vec![
                sub("adapters", "two or more services made or tried, one answered", 80_000, arb_make, adapters),
                sub("shared", "two or more services made", 120_000, arb_shared, shared),
                sub("balance", "two or more requests through made balancers", 120_000, arb_mb, make_balance),
            ],
        },
        Prop {
            id: "C32",
            assumptions: &["latencies compared to a relative 1e-6"],
            subs: vec![
                sub("list", "two or more services", 60_000, arb_list, list),
                sub("wrappers", "two or more changes and a load read", 250_000, arb_wrap, wrappers),
            ],
        },
    ]
}
