//! C40 polling again, C41 clones and siblings: histories that must look alike.
use crate::core::*;
use crate::diff::*;
use crate::dynsvc::*;
use crate::ensure;
use crate::probe::*;
use crate::rt::*;
use crate::stack::{self, L};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::time::Duration;
use tower_layer::Layer;

fn both(what: &str, a: &Log, b: &Log) -> R {
    if let Some(d) = a.differs(b).or_else(|| b.differs(a)) {
        return Err(format!("{what}: {d}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- C40

#[derive(Debug, Clone, Serialize, Deserialize)]
struct PCase {
    layers: Vec<L>,
    /// per step: how often to poll again, and what
    again: Vec<(u8, u8)>,
    groups: Vec<u8>,
    closed: u8,
    ops: Vec<DOp>,
}
fn arb_p(n: usize) -> impl Strategy<Value = PCase> {
    let again = (prop_oneof![2 => Just(0u8), 3 => Just(1u8), 1 => 2u8..4], prop_oneof![1 => Just(1u8), 1 => Just(2u8), 3 => Just(7u8)]);
    (
        prop::collection::vec(stack::arb_layer(true), 1..=n),
        prop::collection::vec(again, 1..10),
        prop::collection::vec(0u8..4, 1..6),
        0u8..3,
        arb_ops(50),
    )
        .prop_map(|(layers, again, groups, closed, mut ops)| {
            // (what an instance answers must not depend on how often it was asked)
            ops.retain(|o| !matches!(o, DOp::Hiccup(_)));
            for o in &mut ops {
                if let DOp::PollWoken(i) = *o {
                    *o = DOp::Poll(i);
                }
            }
            PCase { layers, again, groups, closed, ops }
        })
}
struct Again<'a> {
    c: &'a PCase,
    on: bool,
    mask: u8,
    step: usize,
    groups: Vec<usize>,
}
impl Hook<Dyn> for Again<'_> {
    fn again(&mut self) -> (u8, u8) {
        self.step += 1;
        let (n, m) = self.c.again[self.step % self.c.again.len()];
        (if self.on { n } else { 0 }, m & self.mask)
    }
    fn group(&self, step: usize, _: usize) -> usize {
        self.groups[self.c.groups[step % self.c.groups.len()] as usize % self.groups.len()]
    }
}
fn again(c: &PCase, cov: &mut Cov) -> R {
    let go = |on: bool| {
        block_on(async {
            let w = World::new();
            let b = stack::build(&w, &c.layers);
            if c.closed == 1 {
                b.groups.iter().for_each(|&g| w.set_credits(g, 0));
            }
            // what reported ready may notice a failure earlier if it is asked again; a balancer and load shedding look
            // at their services anew
            let fails = c.ops.iter().any(|o| matches!(o, DOp::Fail(_)));
            let anew = fails || b.applied.iter().any(|l| matches!(l, L::Balance(_) | L::Shed | L::Reconnect));
            let cl = b.svc.cloneable.then_some(Clone::clone as fn(&Dyn) -> Dyn);
            let mut h = Again { c, on, mask: if anew { 3 } else { 7 }, step: 0, groups: b.groups.clone() };
            drive_with(&w, b.groups[0], b.svc, cl, &c.ops, &mut h).await
        })
    };
    let (a, b) = (go(false), go(true));
    let (mut a, mut b) = (a, b);
    if c.layers.iter().any(|l| matches!(l, L::Shed | L::Balance(_))) {
        // they report ready and leave the task with services inside: wakeups of which nothing comes
        for v in a.wakes.iter_mut().chain(&mut b.wakes).flatten() {
            *v = false;
        }
    }
    both(&format!("stack {:?}: polls that nothing asked for made a difference", c.layers), &a, &b)?;
    cov.hit_if(a.waits > 0, "waited for readiness");
    cov.hit_if(a.errors > 0, "errors");
    cov.hit_if(a.clones > 0, "clones");
    if b.again >= 2 && a.answers >= 1 {
        cov.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C41

type Make = Box<dyn Fn(&World, &mut Vec<usize>, Dyn) -> Dyn>;

#[derive(Clone)]
struct Again2(u8, u8);
impl tower::retry::Policy<Req, Resp, BoxError> for Again2 {
    type Future = std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>>;
    fn retry(&mut self, _: &mut Req, r: &mut Result<Resp, BoxError>) -> Option<Self::Future> {
        self.0 = self.0.checked_sub(r.is_err() as u8)?;
        let d = self.1 as u64;
        r.is_err().then(|| Box::pin(tokio::time::sleep(Duration::from_millis(d))) as Self::Future)
    }
    fn clone_request(&mut self, r: &Req) -> Option<Req> {
        Some(r.clone())
    }
}
/// Sends the requests to the services in turn.
#[derive(Clone)]
struct Turns(usize);
impl tower::steer::Picker<Dyn, Req> for Turns {
    fn pick(&mut self, _: &Req, s: &[Dyn]) -> usize {
        self.0 += 1;
        self.0 % s.len()
    }
}
/// One layer object, used for every service that is wrapped. The closures count: each service has its own state.
fn object(l: L) -> Make {
    fn go<Y>(y: Y, cl: impl Fn(bool) -> bool + 'static) -> Make
    where
        Y: Layer<Dyn> + Clone + 'static,
        Y::Service: tower_service::Service<Req, Response = Resp> + Clone + Send + 'static,
        <Y::Service as tower_service::Service<Req>>::Error: Into<BoxError>,
        <Y::Service as tower_service::Service<Req>>::Future: Send + 'static,
    {
        Box::new(move |w, _, d| {
            let c = cl(d.cloneable);
            Dyn::cn(if w.lock().groups.len() % 2 == 0 { y.layer(d) } else { y.clone().layer(d) }, c)
        })
    }
    fn once<Y>(y: Y) -> Make
    where
        Y: Layer<Dyn> + 'static,
        Y::Service: tower_service::Service<Req, Response = Resp> + Send + 'static,
        <Y::Service as tower_service::Service<Req>>::Error: Into<BoxError>,
        <Y::Service as tower_service::Service<Req>>::Future: Send + 'static,
    {
        Box::new(move |_, _, d| Dyn::n(y.layer(d)))
    }
    let same = |c| c;
    let always = |_| true;
    let ms = |n: u64| Duration::from_millis(n);
    let mut n = 0u64;
    match l {
        L::Conc(n) => go(tower::limit::ConcurrencyLimitLayer::new(n as usize), same),
        L::GlobalConc(_) => Box::new(move |_, _, d| {
            let cl = d.cloneable;
            Dyn::cn(tower::limit::ConcurrencyLimit::with_semaphore(d, std::sync::Arc::new(tokio::sync::Semaphore::new(100))), cl)
        }),
        L::Rate(n, p) => once(tower::limit::RateLimitLayer::new(n as u64, ms(p as u64))),
        L::Timeout(t) => go(tower::timeout::TimeoutLayer::new(ms(t as u64)), same),
        L::Shed => go(tower::load_shed::LoadShedLayer::new(), same),
        L::Buffer(n) => go(tower::buffer::BufferLayer::new(n as usize), always),
        L::Spawn => once(tower::spawn_ready::SpawnReadyLayer::new()),
        L::Retry(n, d) => go(tower::retry::RetryLayer::new(Again2(n, d)), same),
        L::Filter => go(
            tower::filter::FilterLayer::new(move |r: Req| {
                n += 1;
                if n % 4 == 0 {
                    Err(BoxError::from(PErr(n)))
                } else {
                    Ok(r)
                }
            }),
            same,
        ),
        L::AsyncFilter(t) => go(
            tower::filter::AsyncFilterLayer::new(move |r: Req| {
                n += 1;
                let n = n;
                async move {
                    tokio::time::sleep(Duration::from_millis(t as u64)).await;
                    if n % 4 == 0 {
                        Err(BoxError::from(PErr(n)))
                    } else {
                        Ok(r)
                    }
                }
            }),
            same,
        ),
        L::MapReq => go(
            tower::util::MapRequestLayer::new(move |mut r: Req| {
                n += 1;
                r.val += 1000 * n;
                r
            }),
            same,
        ),
        L::MapResp => go(
            // (called as often as the service's answers are changed: by a clone per request)
            tower::util::MapResponseLayer::new(move |mut r: Resp| {
                n += 1;
                r.val += 1_000_000 * n;
                r
            }),
            same,
        ),
        L::MapErr => go(
            tower::util::MapErrLayer::new(move |e: BoxError| {
                n += 1;
                BoxError::from(format!("{n}: {e}"))
            }),
            same,
        ),
        L::MapResult => go(tower::util::MapResultLayer::new(|r: Result<Resp, BoxError>| r), same),
        L::MapFuture => go(
            tower::util::MapFutureLayer::new(move |f: Fut| {
                n += 1;
                let n = n;
                async move {
                    let mut r = f.await?;
                    r.val += 1_000_000 * n;
                    Ok::<_, BoxError>(r)
                }
            }),
            same,
        ),
        L::AndThen(t) => go(
            tower::util::AndThenLayer::new(move |r: Resp| async move {
                tokio::time::sleep(Duration::from_millis(t as u64)).await;
                Ok::<_, BoxError>(r)
            }),
            same,
        ),
        L::Then(t) => go(
            tower::util::ThenLayer::new(move |r: Result<Resp, BoxError>| async move {
                tokio::time::sleep(Duration::from_millis(t as u64)).await;
                r
            }),
            same,
        ),
        L::BoxClone => {
            let y = tower::util::BoxCloneServiceLayer::<Dyn, Req, Resp, BoxError>::new(tower_layer::Identity::new());
            Box::new(move |_, _, d| if d.cloneable { Dyn::c(y.clone().layer(d)) } else { d })
        }
        L::BoxCloneSync => Box::new(move |_, _, d| if d.cloneable { Dyn::c(tower::util::BoxCloneSyncService::new(SyncDyn::new(d))) } else { d }),
        L::Steer(k) => Box::new(move |w, gs, d| {
            let cl = d.cloneable;
            let g = w.group(Group::default());
            gs.push(g);
            let extra = Dyn::c(w.probe(g));
            Dyn::cn(tower::steer::Steer::new(vec![d, extra], Turns(k as usize)), cl)
        }),
        L::Left => Box::new(|_, _, d| {
            let cl = d.cloneable;
            Dyn::cn(tower::util::Either::<Dyn, Dyn>::Left(d), cl)
        }),
        L::Right => go(tower::util::Either::<tower_layer::Identity, tower_layer::Identity>::Right(tower_layer::Identity::new()), same),
        _ => once(tower::util::BoxLayer::<Dyn, Req, Resp, BoxError>::new(tower::layer::layer_fn(tower::util::BoxService::new))),
    }
}

/// One step: an operation of the first or of the second family of handles.
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
struct Step(bool, DOp);
#[derive(Debug, Clone, Serialize, Deserialize)]
struct FCase {
    layers: Vec<L>,
    closed: bool,
    /// which handle is cloned after how many steps
    clone: (u8, u8),
    groups: Vec<u8>,
    ops: Vec<Step>,
}
fn arb_f(own: bool) -> impl Strategy<Value = FCase> {
    let layer = stack::arb_layer(true).prop_map(move |l| match l {
        // only what does not connect a service with its clones
        L::Conc(_) if own => L::GlobalConc(100),
        L::Rate(n, p) if own => L::Retry(n, p),
        L::Buffer(_) | L::Boxed | L::Hedge | L::OptSome if own => L::BoxClone,
        L::Spawn | L::FutureSvc(_) if own => L::Shed,
        // a service from one layer has its own limit
        L::GlobalConc(n) if !own => L::Conc(n),
        L::Balance(n) => L::Steer(n),
        L::Reconnect => L::MapReq,
        L::PendingLoad => L::Filter,
        L::PeakLoad => L::MapFuture,
        L::RefBox => L::MapErr,
        l => l,
    });
    (prop::collection::vec(layer, 1..4), any::<bool>(), (0u8..4, 0u8..12), prop::collection::vec(0u8..4, 1..6), prop::collection::vec(prop::bool::ANY, 60), arb_ops(60)).prop_map(
        |(layers, closed, clone, groups, fam, ops)| FCase { layers, closed, clone, groups, ops: ops.into_iter().zip(fam).map(|(o, f)| Step(f, o)).collect() },
    )
}
struct Groups<'a>(&'a FCase, Vec<usize>);
impl Hook<Dyn> for Groups<'_> {
    fn group(&self, step: usize, _: usize) -> usize {
        self.1[self.0.groups[step % self.0.groups.len()] as usize % self.1.len()]
    }
}
fn make(w: &World, c: &FCase, objs: &[Make]) -> (Dyn, Vec<usize>) {
    let mut gs = vec![w.group(Group::default())];
    let mut d = Dyn::c(w.probe(gs[0]));
    for (i, o) in objs.iter().enumerate() {
        let needs = matches!(c.layers[i], L::Retry(..) | L::AsyncFilter(_));
        if !needs || d.cloneable {
            d = o(w, &mut gs, d);
        }
    }
    if c.closed {
        gs.iter().for_each(|&g| w.set_credits(g, 0));
    }
    (d, gs)
}
/// Runs the case: `which` 1: only the first family is there, 2: after the second one began only that is used, 3: both.
fn families(c: &FCase, which: u8, clones: bool) -> Result<(Log, Option<Log>), String> {
    block_on(async {
        let objs: Vec<Make> = c.layers.iter().map(|&l| object(l)).collect();
        let w = World::new();
        // a sibling is judged against a run in which it is the only one
        let alone = which == 2 && !clones;
        let (d, gs) = if alone { (Dyn::c(World::simple().1), vec![0]) } else { make(&w, c, &objs) };
        let cl = d.cloneable.then_some(Clone::clone as fn(&Dyn) -> Dyn);
        ensure!(!clones || d.cloneable, "harness bug: not cloneable");
        let mut first = Driver::new(&w, gs[0], d, cl);
        first.own = gs.clone();
        let mut h1 = Groups(c, gs.clone());
        let mut second: Option<(Driver<Dyn>, Groups)> = None;
        for (i, &Step(of_second, op)) in c.ops.iter().enumerate() {
            let late = i >= c.clone.1 as usize;
            if i == c.clone.1 as usize && which != 1 {
                let (s, twins) = if clones {
                    let twins: Vec<usize> = gs
                        .iter()
                        .map(|&g| {
                            let s = w.lock().groups[g].clone();
                            w.group(s)
                        })
                        .collect();
                    w.lock().twins = gs.iter().copied().zip(twins.iter().copied()).collect();
                    let s = first.handle(c.clone.0).or_else(|| (0..4).find_map(|i| first.handle(i))).map(Clone::clone);
                    w.lock().twins.clear();
                    (s, twins)
                } else {
                    let (d, gs) = make(&w, c, &objs);
                    (Some(d), gs)
                };
                if let Some(s) = s {
                    let cl = s.cloneable.then_some(Clone::clone as fn(&Dyn) -> Dyn);
                    let mut d = Driver::new(&w, twins[0], s, cl).first(5001);
                    d.own = twins.clone();
                    second = Some((d, Groups(c, twins)));
                }
            }
            // time goes on for both
            if let DOp::Advance(ms) = op {
                advance(ms as u64).await;
                first.observe("time".into(), &mut h1).await;
                if let Some((d, h)) = second.as_mut() {
                    d.observe("time".into(), h).await;
                }
            } else if of_second && late {
                if let Some((d, h)) = second.as_mut() {
                    d.step(op, h).await;
                }
                first.observe("other".into(), &mut h1).await;
            } else {
                if !alone && (which != 2 || !late) {
                    first.step(op, &mut h1).await;
                }
                if let Some((d, h)) = second.as_mut() {
                    d.observe("other".into(), h).await;
                }
            }
        }
        let mut l2 = None;
        if c.clone.0 % 2 == 0 {
            if let Some((d, mut h)) = second.take() {
                l2 = Some(d.finish(&mut h).await);
            }
        }
        let l1 = first.finish(&mut h1).await;
        if let Some((d, mut h)) = second.take() {
            l2 = Some(d.finish(&mut h).await);
        }
        Ok((l1, l2))
    })
}
fn independent(c: &FCase, cov: &mut Cov, clones: bool) -> R {
    let (other, one) = if clones { ("a clone", "the original") } else { ("another service from the same layers", "a service") };
    let (a1, _) = families(c, 1, clones)?;
    let (_, b2) = families(c, 2, clones)?;
    let (a3, b3) = families(c, 3, clones)?;
    both(&format!("stack {:?}: what is done with {other} made a difference for {one}", c.layers), &a1, &a3)?;
    let (Some(b2), Some(b3)) = (b2, b3) else { return Ok(()) };
    both(&format!("stack {:?}: what is done with {one} made a difference for {other}", c.layers), &b2, &b3)?;
    cov.hit_if(a3.waits > 0 && b2.waits > 0, "both waited");
    cov.hit_if(a3.clones + b2.clones > 0, "further clones");
    cov.hit_if(a3.errors + b2.errors > 0, "errors");
    if a3.answers >= 1 && b2.answers >= 1 {
        cov.nontrivial();
    }
    Ok(())
}
fn clones(c: &FCase, cov: &mut Cov) -> R {
    independent(c, cov, true)
}
fn siblings(c: &FCase, cov: &mut Cov) -> R {
    independent(c, cov, false)
}

/// What to do with idle clones before a step.
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Idle {
    Nothing,
    Make(u8),
    Drop(u8),
    /// made and dropped at once
    Flash(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct ICase {
    p: PCase,
    idle: Vec<Idle>,
}
fn arb_i() -> impl Strategy<Value = ICase> {
    let idle = prop_oneof![2 => Just(Idle::Nothing), 2 => (0u8..4).prop_map(Idle::Make), 1 => (0u8..8).prop_map(Idle::Drop), 1 => (0u8..4).prop_map(Idle::Flash)];
    (arb_p(4), prop::collection::vec(idle, 1..20)).prop_map(|(mut p, idle)| {
        for l in &mut p.layers {
            *l = match *l {
                L::Rate(n, d) => L::Retry(n, d),
                L::Spawn => L::Conc(1),
                L::Balance(n) => L::Steer(n),
                L::Reconnect | L::Boxed | L::OptSome => L::BoxClone,
                L::FutureSvc(_) | L::Hedge => L::Buffer(1),
                L::PendingLoad => L::GlobalConc(2),
                L::PeakLoad | L::RefBox => L::Left,
                l => l,
            }
        }
        ICase { p, idle }
    })
}
fn idle(c: &ICase, cov: &mut Cov) -> R {
    let go = |on: bool| -> Result<(Log, usize), String> {
        block_on(async {
            let w = World::new();
            let b = stack::build(&w, &c.p.layers);
            if c.p.closed == 1 {
                b.groups.iter().for_each(|&g| w.set_credits(g, 0));
            }
            ensure!(b.svc.cloneable, "harness bug: not cloneable");
            let twins = b.groups.iter().map(|&g| (g, w.group(Group::default()))).collect();
            let mut h = Again { c: &c.p, on: false, mask: 0, step: 0, groups: b.groups.clone() };
            let mut d = Driver::new(&w, b.groups[0], b.svc, Some(Clone::clone as fn(&Dyn) -> Dyn));
            d.own = b.groups.clone();
            let mut idle: Vec<Dyn> = vec![];
            let mut made = 0;
            for (i, &op) in c.p.ops.iter().enumerate() {
                // (when the last handle that is used goes, there must be no other)
                if matches!(op, DOp::DropH(_)) {
                    idle.clear();
                } else if on {
                    match c.idle[i % c.idle.len()] {
                        Idle::Nothing => {}
                        Idle::Make(k) | Idle::Flash(k) => {
                            w.lock().twins = BTreeMap::clone(&twins);
                            let n = d.handle(k).map(Clone::clone);
                            w.lock().twins.clear();
                            if let Some(n) = n {
                                made += 1;
                                if matches!(c.idle[i % c.idle.len()], Idle::Make(_)) {
                                    idle.push(n);
                                }
                            }
                        }
                        Idle::Drop(k) if !idle.is_empty() => {
                            let k = k as usize % idle.len();
                            drop(idle.remove(k));
                        }
                        _ => {}
                    }
                }
                if (0..4).all(|i| d.handle(i).is_none()) {
                    idle.clear();
                }
                d.step(op, &mut h).await;
            }
            drop(idle);
            Ok((d.finish(&mut h).await, made))
        })
    };
    let ((a, _), (b, made)) = (go(false)?, go(true)?);
    both(&format!("stack {:?}: clones that are not used made a difference", c.p.layers), &a, &b)?;
    note(&a, &mut Cov::default());
    cov.hit_if(a.waits > 0, "waited for readiness");
    cov.hit_if(a.errors > 0, "errors");
    if made >= 2 && a.answers >= 1 {
        cov.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C43

#[derive(Debug, Clone, Serialize, Deserialize)]
struct TCase {
    p: PCase,
    /// ms before the service is made, and between that and its first use
    before: u64,
    unused: u64,
}
fn arb_shift() -> impl Strategy<Value = u64> {
    prop_oneof![
        2 => 1u64..100,
        2 => (0u32..6, -2i64..3).prop_map(|(k, d)| (64i64.pow(k) + d).max(0) as u64),
        2 => (0u32..35).prop_flat_map(|b| 0u64..=1 << b),
        1 => prop::sample::select(vec![999u64, 1000, 1001, 59_999, 60_000, 3_600_000, 86_400_000]),
        1 => (1u64..1000).prop_map(|n| n * 1000),
    ]
}
fn arb_t() -> impl Strategy<Value = TCase> {
    (arb_p(4), arb_shift(), prop_oneof![1 => Just(0u64), 1 => arb_shift()]).prop_map(|(p, before, unused)| {
        // (a hedge forgets latencies after an hour)
        let hedge = p.layers.iter().any(|l| matches!(l, L::Hedge));
        TCase { unused: if hedge { unused % 3_000_000 } else { unused }, p, before }
    })
}
fn later(c: &TCase, cov: &mut Cov) -> R {
    let go = |shift: bool| {
        block_on(async {
            if shift {
                advance(c.before).await;
            }
            let w = World::new();
            let b = stack::build(&w, &c.p.layers);
            if c.p.closed == 1 {
                b.groups.iter().for_each(|&g| w.set_credits(g, 0));
            }
            if shift {
                advance(c.unused).await;
            } else {
                settle().await;
            }
            let cl = b.svc.cloneable.then_some(Clone::clone as fn(&Dyn) -> Dyn);
            let mut h = Again { c: &c.p, on: false, mask: 0, step: 0, groups: b.groups.clone() };
            drive_with(&w, b.groups[0], b.svc, cl, &c.p.ops, &mut h).await
        })
    };
    let (a, b) = (go(false), go(true));
    both(&format!("stack {:?}: made {} ms later and used {} ms after that, it behaves differently", c.p.layers, c.before, c.unused), &a, &b)?;
    cov.hit_if(a.waits > 0, "waited for readiness");
    cov.hit_if(a.errors > 0, "errors");
    if a.answers >= 1 && c.p.ops.iter().any(|o| matches!(o, DOp::Advance(_))) && c.before + c.unused > 0 {
        cov.nontrivial();
    }
    Ok(())
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum TOp {
    Go,
    End(u8),
    Look,
    Pass(u16),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct KCase {
    kind: u8,
    /// ttl, period or decay: ms
    span: u16,
    n: u8,
    before: u64,
    ops: Vec<TOp>,
}
fn arb_k() -> impl Strategy<Value = KCase> {
    let op = prop_oneof![
        4 => Just(TOp::Go),
        3 => (0u8..4).prop_map(TOp::End),
        3 => Just(TOp::Look),
        4 => prop_oneof![3 => 0u16..40, 1 => 0u16..2000].prop_map(TOp::Pass),
    ];
    (0u8..4, prop_oneof![1u16..100, Just(1000u16), 100u16..3000], 0u8..4, arb_shift(), hist(op, 60)).prop_map(|(kind, span, n, before, ops)| KCase { kind, span, n, before, ops })
}
fn components(c: &KCase, cov: &mut Cov) -> R {
    use tower::load::Load;
    use tower::retry::budget::{Budget, TpsBudget};
    let mut answers = 0;
    let mut go = |shift: bool| -> Vec<String> {
        block_on(async {
            if shift {
                advance(c.before).await;
            }
            let span = Duration::from_millis(c.span as u64);
            let w = World::new();
            let g = w.group(Group::default());
            let mut out = vec![];
            let mut peak = tower::load::PeakEwma::new(w.probe(g), Duration::from_millis(5), span.as_nanos() as f64, tower::load::CompleteOnResponse::default());
            let mut hedge = tower::hedge::Hedge::new(w.probe(g), Always, 1 + c.n as u64, 0.5, span);
            // (only lifetimes that the budget accepts)
            let ttl = Duration::from_millis(1000 * (1 + c.span as u64 % 60));
            let budget = TpsBudget::new(ttl, c.n as u32, 0.5);
            let mut rate = tower::limit::RateLimit::new(w.probe(g), tower::limit::rate::Rate::new(1 + c.n as u64, span));
            let mut futs: Vec<Fut> = vec![];
            let mut next = 1;
            for &op in &c.ops {
                w.begin_step();
                let mut line = format!("{op:?}");
                match (op, c.kind) {
                    (TOp::Go, 0) => budget.deposit(),
                    (TOp::Look, 0) => line += &format!(" {}", budget.withdraw()),
                    (TOp::Pass(ms), k) => advance(ms as u64 * if k == 0 { 20 } else { 1 }).await,
                    (TOp::Go, k) => {
                        macro_rules! send {
                            ($s:expr) => {{
                                let (r, _) = with_waker(|cx| tower_service::Service::<Req>::poll_ready($s, cx).map_err(|_| ()));
                                line += &format!(" {r:?}");
                                if r.is_ready() {
                                    let f = tower_service::Service::call($s, req(next));
                                    next += 1;
                                    futs.push(Box::pin(async move { f.await.map_err(Into::into) }) as Fut);
                                }
                            }};
                        }
                        match k {
                            1 => send!(&mut peak),
                            2 => send!(&mut hedge),
                            _ => send!(&mut rate),
                        }
                    }
                    (TOp::End(i), _) => {
                        let live = w.waiting_calls();
                        if let Some(&k) = live.get(i as usize % live.len().max(1)) {
                            w.complete(k, Ok(()));
                        }
                    }
                    (TOp::Look, 1) => line += &format!(" {:?}", peak.load()),
                    (TOp::Look, _) => {}
                }
                futs.retain_mut(|f| match poll_fut(f.as_mut()).0 {
                    std::task::Poll::Ready(r) => {
                        line += &format!(" {:?}", r.map(|r| (r.req, r.call)).map_err(|e| e.to_string()));
                        answers += 1;
                        false
                    }
                    _ => true,
                });
                line += &format!(" calls {} live {}", w.ncalls(), w.live_futs());
                out.push(line);
            }
            out
        })
    };
    let (a, b) = (go(false), go(true));
    for (x, y) in a.iter().zip(&b) {
        ensure!(x == y, "made {} ms later it behaves differently: `{x}` against `{y}`", c.before);
    }
    cov.hit_if(c.kind == 0 && b.iter().any(|l| l.contains("true")), "budget");
    cov.hit_if(c.kind == 1, "load");
    cov.hit_if(c.kind == 2, "hedge");
    if c.before > 0 && (answers >= 4 || (c.kind == 0 && a.iter().any(|l| l.contains("true")))) {
        cov.nontrivial();
    }
    Ok(())
}
#[derive(Clone)]
struct Always;
impl tower::hedge::Policy<Req> for Always {
    fn clone_request(&self, r: &Req) -> Option<Req> {
        Some(r.clone())
    }
    fn can_retry(&self, _: &Req) -> bool {
        true
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C40",
            assumptions: &["services that were not woken have nothing new to say"],
            subs: vec![
                sub("single", "two polls that nothing asked for, and an answer", 60_000, || arb_p(1), again),
                sub("stacks", "two polls that nothing asked for, and an answer", 100_000, || arb_p(4), again),
                sub("helpers", "something was answered, after a poll that nothing asked for", 60_000, super::inspect::arb_h, super::inspect::helpers_again),
                sub("cache", "a request through the cache, after a poll that nothing asked for", 60_000, super::inspect::arb_x, super::inspect::structures_again),
            ],
        },
        Prop {
            id: "C41",
            assumptions: &["what is meant to be shared (a global limit's semaphore, a buffer's worker, a retry budget) is left out"],
            subs: vec![
                sub("clones", "both families had an answer", 80_000, || arb_f(true), clones),
                sub("layers", "both families had an answer", 80_000, || arb_f(false), siblings),
                sub("idle", "two idle clones, and an answer", 80_000, arb_i, idle),
            ],
        },
        Prop {
            id: "C43",
            assumptions: &["differences of whole milliseconds, the resolution of tokio's timers"],
            subs: vec![
                sub("stacks", "time passed and something was answered", 300_000, arb_t, later),
                sub("components", "four answers, or a withdrawal", 200_000, arb_k, components),
            ],
        },
    ]
}
