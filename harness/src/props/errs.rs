//! C39 errors: what fails is named by the error, through every layer.
use crate::core::*;
use crate::dynsvc::*;
use crate::ensure;
use crate::probe::*;
use crate::rt::*;
use futures_core::Stream;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::error::Error;
use std::fmt;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use tower::discover::Change;
use tower::util::{BoxCloneService, BoxCloneSyncService, BoxService, Either, Optional, ServiceExt};
use tower_service::Service;

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Root {
    Fine,
    FailsReady,
    FailsCall,
    NeverReady,
    NeverAnswers,
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum W {
    Buffer(u8),
    Timeout,
    Shed,
    Filter(bool),
    AsyncFilter(bool),
    Conc,
    Rate,
    Retry,
    Hedge,
    /// the first copy of each request hangs, the other one goes on
    HedgeB,
    Spawn,
    Boxed,
    BoxClone,
    BoxCloneSync,
    Left,
    Right,
    OptSome,
    OptNone,
    Steer,
    Balance,
    BalanceErr,
    Reconnect,
    ReconnectErr,
    ReconnectMakerErr,
    FutureSvc,
    FutureErr,
    Context,
    AndThenErr,
    ThenContext,
    Load,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct ECase {
    root: Root,
    layers: Vec<W>,
    rounds: u8,
    cache: bool,
}
fn arb() -> impl Strategy<Value = ECase> {
    let w = prop_oneof![
        5 => (1u8..4).prop_map(W::Buffer),
        3 => Just(W::Timeout),
        3 => Just(W::Shed),
        2 => prop::bool::weighted(0.8).prop_map(W::Filter),
        2 => prop::bool::weighted(0.8).prop_map(W::AsyncFilter),
        3 => Just(W::Spawn),
        1 => Just(W::Hedge),
        4 => Just(W::HedgeB),
        2 => Just(W::Retry),
        2 => Just(W::Balance),
        2 => Just(W::BalanceErr),
        2 => Just(W::Reconnect),
        2 => Just(W::ReconnectErr),
        2 => Just(W::Context),
        10 => prop::sample::select(vec![
            W::Conc, W::Rate, W::Boxed, W::BoxClone, W::BoxCloneSync, W::Left, W::Right, W::OptSome, W::OptNone, W::Steer, W::ReconnectMakerErr, W::FutureSvc, W::FutureErr,
            W::AndThenErr, W::ThenContext, W::Load,
        ]),
    ];
    let root = prop_oneof![1 => Just(Root::Fine), 4 => Just(Root::FailsReady), 2 => Just(Root::FailsCall), 1 => Just(Root::NeverReady), 1 => Just(Root::NeverAnswers)];
    (root, prop::collection::vec(w, 0..7), 1u8..4, prop::bool::weighted(0.2)).prop_map(|(root, layers, rounds, cache)| ECase { root, layers, rounds, cache })
}

/// An error of the harness's own with a cause.
#[derive(Debug)]
struct Ctx(u64, BoxError);
impl fmt::Display for Ctx {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "context {} of {}", self.0, self.1)
    }
}
impl Error for Ctx {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        Some(&*self.1)
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum X {
    P(u64),
    Ctx(u64),
    Buffered,
    Discover,
    Elapsed,
    Overloaded,
    None,
}
type Chain = Vec<X>;

/// The errors from the outermost to the root cause.
fn chain(e: &(dyn Error + 'static)) -> Result<Chain, String> {
    let mut out = vec![];
    let mut cur = Some(e);
    while let Some(e) = cur {
        let text = e.to_string();
        ensure!(!text.is_empty() && !format!("{e:?}").is_empty(), "an error without a text after {out:?}");
        let x = if let Some(p) = e.downcast_ref::<PErr>() {
            X::P(p.0)
        } else if let Some(c) = e.downcast_ref::<Ctx>() {
            X::Ctx(c.0)
        } else if e.is::<tower::buffer::error::ServiceError>() {
            X::Buffered
        } else if e.is::<tower::balance::error::Discover>() {
            X::Discover
        } else if e.is::<tower::timeout::error::Elapsed>() {
            X::Elapsed
        } else if e.is::<tower::load_shed::error::Overloaded>() {
            X::Overloaded
        } else if e.is::<tower::util::error::optional::None>() {
            X::None
        } else {
            return Err(format!("an unexpected error `{e}` ({e:?}) after {out:?}"));
        };
        if let (X::Buffered | X::Discover, Some(s)) = (x, e.source()) {
            let s = s.to_string();
            ensure!(text.contains(&s), "the text `{text}` of {x:?} does not tell the cause, `{s}`");
        }
        out.push(x);
        cur = e.source();
    }
    Ok(out)
}

// ---------------------------------------------------------------- the model

enum MR {
    Ok,
    Err(Chain),
    Stuck,
}
enum MC {
    Ok,
    Err(Chain),
    Hang,
}
struct M {
    root: Root,
    /// layer and its own error
    ls: Vec<(W, u64)>,
    dead: Vec<Option<Chain>>,
    gone: Vec<bool>,
    over: Vec<bool>,
    /// something inside waits for good: what it occupies is not modelled
    hung: bool,
}
const ROOT: u64 = 900;
fn with(x: X, c: Chain) -> Chain {
    std::iter::once(x).chain(c).collect()
}
impl M {
    /// readiness of the topmost `n` layers
    fn ready(&mut self, n: usize) -> MR {
        let Some(i) = n.checked_sub(1) else {
            return match self.root {
                Root::FailsReady => MR::Err(vec![X::P(ROOT)]),
                Root::NeverReady => MR::Stuck,
                _ => MR::Ok,
            };
        };
        let (w, own) = self.ls[i];
        match w {
            W::Buffer(_) => self.dead[i].clone().map_or(MR::Ok, MR::Err),
            W::Shed => match self.ready(i) {
                MR::Err(c) => MR::Err(c),
                r => {
                    self.over[i] = matches!(r, MR::Stuck);
                    MR::Ok
                }
            },
            W::OptNone => MR::Ok,
            W::Balance => {
                if !self.gone[i] {
                    match self.ready(i) {
                        MR::Err(_) => self.gone[i] = true,
                        r => return r,
                    }
                }
                MR::Stuck
            }
            W::BalanceErr => MR::Err(vec![X::Discover, X::P(own)]),
            W::ReconnectErr => MR::Ok,
            W::ReconnectMakerErr | W::FutureErr => MR::Err(vec![X::P(own)]),
            W::Context => match self.ready(i) {
                MR::Err(c) => MR::Err(with(X::Ctx(own), c)),
                r => r,
            },
            _ => self.ready(i),
        }
    }
    fn call(&mut self, n: usize) -> MC {
        let Some(i) = n.checked_sub(1) else {
            return match self.root {
                Root::FailsCall => MC::Err(vec![X::P(ROOT)]),
                Root::NeverAnswers => {
                    self.hung = true;
                    MC::Hang
                }
                _ => MC::Ok,
            };
        };
        let (w, own) = self.ls[i];
        match w {
            W::Buffer(_) => match self.ready(i) {
                MR::Err(c) => {
                    let c = with(X::Buffered, c);
                    self.dead[i] = Some(c.clone());
                    MC::Err(c)
                }
                MR::Stuck => {
                    self.hung = true;
                    MC::Hang
                }
                MR::Ok => self.call(i),
            },
            W::Timeout => match self.call(i) {
                MC::Hang => MC::Err(vec![X::Elapsed]),
                r => r,
            },
            W::Shed if self.over[i] => MC::Err(vec![X::Overloaded]),
            W::Filter(false) | W::AsyncFilter(false) | W::ReconnectErr => MC::Err(vec![X::P(own)]),
            W::OptNone => MC::Err(vec![X::None]),
            W::Context | W::ThenContext => match self.call(i) {
                MC::Err(c) => MC::Err(with(X::Ctx(own), c)),
                r => r,
            },
            W::AndThenErr => match self.call(i) {
                MC::Ok => MC::Err(vec![X::P(own)]),
                r => r,
            },
            _ => self.call(i),
        }
    }
}

// ---------------------------------------------------------------- the real stack

#[derive(Clone)]
struct NoRetry;
impl tower::retry::Policy<Req, Resp, BoxError> for NoRetry {
    type Future = std::future::Ready<()>;
    fn retry(&mut self, _: &mut Req, _: &mut Result<Resp, BoxError>) -> Option<Self::Future> {
        None
    }
    fn clone_request(&mut self, r: &Req) -> Option<Req> {
        Some(r.clone())
    }
}
#[derive(Clone)]
struct HedgePol;
impl tower::hedge::Policy<Req> for HedgePol {
    fn clone_request(&self, r: &Req) -> Option<Req> {
        Some(r.clone())
    }
    fn can_retry(&self, _: &Req) -> bool {
        true
    }
}
/// Passes on every request but the first one with its number, which is never answered.
#[derive(Clone)]
struct HangFirst {
    inner: Dyn,
    seen: Arc<Mutex<HashSet<u64>>>,
}
impl Service<Req> for HangFirst {
    type Response = Resp;
    type Error = BoxError;
    type Future = Fut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        self.inner.poll_ready(cx)
    }
    fn call(&mut self, r: Req) -> Fut {
        if self.seen.lock().unwrap().insert(r.id) {
            // what the instance had reserved is given back
            self.inner = self.inner.clone();
            Box::pin(std::future::pending())
        } else {
            self.inner.call(r)
        }
    }
}
struct Maker {
    made: Option<Dyn>,
    ready: Option<u64>,
    call: Option<u64>,
}
impl Service<()> for Maker {
    type Response = Dyn;
    type Error = BoxError;
    type Future = std::future::Ready<Result<Dyn, BoxError>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        Poll::Ready(self.ready.map_or(Ok(()), |e| Err(PErr(e).into())))
    }
    fn call(&mut self, _: ()) -> Self::Future {
        std::future::ready(match self.call {
            Some(e) => Err(PErr(e).into()),
            None => Ok(self.made.take().expect("harness bug: a second connection")),
        })
    }
}
/// A discovery source that fails at once.
struct Fails(u64);
impl Stream for Fails {
    type Item = Result<Change<u8, tower::load::Constant<Dyn, u8>>, BoxError>;
    fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        Poll::Ready(Some(Err(PErr(self.0).into())))
    }
}
fn build(w: &World, c: &ECase) -> (Dyn, Vec<(W, u64)>) {
    let g = w.group(Group { credits: if c.root == Root::NeverReady { 0 } else { FREE }, ..Default::default() });
    w.lock().groups[g].auto = match c.root {
        Root::FailsCall => Some(Err(ROOT)),
        Root::NeverAnswers => None,
        _ => Some(Ok(())),
    };
    if c.root == Root::FailsReady {
        w.set_fail(g, Some(ROOT));
    }
    let mut d = Dyn::c(w.probe(g));
    let mut ls = vec![];
    // may the service below fail when it is asked for readiness?
    let mut sick = c.root == Root::FailsReady;
    for (i, &l) in c.layers.iter().enumerate() {
        let own = i as u64;
        let cl = d.cloneable;
        if !cl && matches!(l, W::Retry | W::Hedge | W::HedgeB | W::AsyncFilter(_) | W::BoxClone | W::BoxCloneSync) {
            continue;
        }
        // (a connection that fails at once is made again for ever)
        if sick && l == W::Reconnect {
            continue;
        }
        sick = match l {
            W::Balance | W::OptNone | W::ReconnectErr => false,
            W::BalanceErr | W::ReconnectMakerErr | W::FutureErr => true,
            // (fails only the second time, if at all)
            _ => sick,
        };
        ls.push((l, own));
        let reject = move |ok: bool, r: Req| if ok { Ok(r) } else { Err(BoxError::from(PErr(own))) };
        d = match l {
            W::Buffer(n) => Dyn::c(tower::buffer::Buffer::new(d, n as usize)),
            W::Timeout => Dyn::cn(tower::timeout::Timeout::new(d, Duration::from_millis(100 + 20 * own)), cl),
            W::Shed => Dyn::cn(tower::load_shed::LoadShed::new(d), cl),
            W::Filter(ok) => Dyn::cn(tower::filter::Filter::new(d, move |r: Req| reject(ok, r)), cl),
            W::AsyncFilter(ok) => Dyn::c(tower::filter::AsyncFilter::new(d, move |r: Req| async move { reject(ok, r) })),
            W::Conc => Dyn::cn(tower::limit::ConcurrencyLimit::new(d, 2), cl),
            W::Rate => Dyn::n(tower::limit::RateLimit::new(d, tower::limit::rate::Rate::new(100, Duration::from_secs(1)))),
            W::Retry => Dyn::c(tower::retry::Retry::new(NoRetry, d)),
            W::Hedge => Dyn::n(tower::hedge::Hedge::new(d, HedgePol, 1_000, 0.5, Duration::from_secs(3600))),
            W::HedgeB => Dyn::n(tower::hedge::Hedge::new_with_mock_latencies(HangFirst { inner: d, seen: Default::default() }, HedgePol, 1, 0.5, Duration::from_secs(3600), &[1])),
            W::Spawn => Dyn::n(tower::spawn_ready::SpawnReady::new(d)),
            W::Boxed => Dyn::n(BoxService::new(d)),
            W::BoxClone => Dyn::c(BoxCloneService::new(d)),
            W::BoxCloneSync => Dyn::c(BoxCloneSyncService::new(SyncDyn::new(d))),
            W::Left => Dyn::cn(Either::<Dyn, Dyn>::Left(d), cl),
            W::Right => Dyn::cn(Either::<Dyn, Dyn>::Right(d), cl),
            W::OptSome => Dyn::n(Optional::new(Some(d))),
            W::OptNone => Dyn::n(Optional::new(None::<Dyn>)),
            W::Steer => Dyn::cn(tower::steer::Steer::new(vec![d], |_: &Req, _: &[Dyn]| 0), cl),
            W::Balance => Dyn::n(tower::balance::p2c::Balance::new(tower::discover::ServiceList::new(vec![tower::load::Constant::new(d, 1u8)]))),
            W::BalanceErr => Dyn::n(tower::balance::p2c::Balance::new(Fails(own))),
            W::Reconnect => Dyn::n(tower::reconnect::Reconnect::new(Maker { made: Some(d), ready: None, call: None }, ())),
            W::ReconnectErr => Dyn::n(tower::reconnect::Reconnect::new(Maker { made: Some(d), ready: None, call: Some(own) }, ())),
            W::ReconnectMakerErr => Dyn::n(tower::reconnect::Reconnect::new(Maker { made: Some(d), ready: Some(own), call: None }, ())),
            W::FutureSvc => Dyn::n(tower::util::future_service(Box::pin(async move { Ok::<Dyn, BoxError>(d) }))),
            W::FutureErr => Dyn::n(tower::util::future_service(Box::pin(async move { Err::<Dyn, BoxError>(PErr(own).into()) }))),
            W::Context => Dyn::cn(d.map_err(move |e: BoxError| Ctx(own, e)), cl),
            W::AndThenErr => Dyn::cn(d.and_then(move |_: Resp| async move { Err::<Resp, BoxError>(PErr(own).into()) }), cl),
            W::ThenContext => Dyn::cn(d.then(move |r: Result<Resp, BoxError>| async move { r.map_err(|e| BoxError::from(Ctx(own, e))) }), cl),
            W::Load => Dyn::n(tower::load::PendingRequests::new(d, tower::load::CompleteOnResponse::default())),
        };
    }
    (d, ls)
}

fn run(c: &ECase, cov: &mut Cov) -> R {
    block_on(async {
        let w = World::new();
        let (mut d, ls) = build(&w, c);
        let k = ls.len();
        let mut m = M { root: c.root, dead: vec![None; k], gone: vec![false; k], over: vec![false; k], hung: false, ls };
        let long = Duration::from_secs(10);
        if c.cache {
            let mut cache = tower::ready_cache::ReadyCache::<u8, Dyn, Req>::default();
            cache.push(42, d);
            let got = tokio::time::timeout(long, std::future::poll_fn(|cx| cache.poll_pending(cx))).await;
            match (m.ready(k), got) {
                (MR::Ok, Ok(Ok(()))) | (MR::Stuck, Err(_)) => {}
                (MR::Err(want), Ok(Err(e))) => {
                    ensure!(e.0 == 42, "the error names service {}, not 42", e.0);
                    ensure!(chain(&*e.1)? == want, "a service of a cache failed with {:?}, its own error is {want:?}", chain(&*e.1)?);
                    let s = e.source().ok_or("the cache's error has no source")?;
                    ensure!(chain(s)? == want, "the source of a cache's error is {:?}, the service's error is {want:?}", chain(s)?);
                    ensure!(e.to_string().contains(&s.to_string()), "the text `{e}` does not tell the cause, `{s}`");
                    let _ = format!("{e:?}");
                    cov.nontrivial();
                }
                (_, got) => return Err(format!("poll_pending of a cache gives {got:?}")),
            }
            return Ok(());
        }
        for round in 0..c.rounds as u64 {
            w.begin_step();
            let got = tokio::time::timeout(long, std::future::poll_fn(|cx| d.poll_ready(cx))).await;
            match (m.ready(k), got) {
                (MR::Ok, Ok(Ok(()))) => {}
                (MR::Stuck, Err(_)) => return Ok(()),
                (MR::Err(want), Ok(Err(e))) => {
                    let have = chain(&*e)?;
                    ensure!(have == want, "readiness failed with {have:?} instead of {want:?}");
                    if want.len() > 1 {
                        cov.nontrivial();
                    }
                    cov.hit("readiness errors");
                    cov.hit_if(round > 0, "errors of a later round");
                    return Ok(());
                }
                (want, got) => {
                    return Err(format!(
                        "readiness gives {got:?} instead of {}",
                        match want {
                            MR::Ok => "being reported".into(),
                            MR::Stuck => "waiting".into(),
                            MR::Err(c) => format!("{c:?}"),
                        }
                    ))
                }
            }
            let got = tokio::time::timeout(long, d.call(req(round))).await;
            match (m.call(k), got) {
                (MC::Ok, Ok(Ok(_))) => {}
                (MC::Hang, Err(_)) => {}
                (MC::Err(want), Ok(Err(e))) => {
                    let have = chain(&*e)?;
                    ensure!(have == want, "a request failed with {have:?} instead of {want:?}");
                    if want.len() > 1 || k > 2 {
                        cov.nontrivial();
                    }
                    cov.hit("request errors");
                    cov.hit_if(round > 0, "errors of a later round");
                }
                (want, got) => {
                    return Err(format!(
                        "a request ends with {got:?} instead of {}",
                        match want {
                            MC::Ok => "an answer".into(),
                            MC::Hang => "waiting".into(),
                            MC::Err(c) => format!("{c:?}"),
                        }
                    ))
                }
            }
            settle().await;
            if m.hung {
                break;
            }
        }
        Ok(())
    })
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C39",
        assumptions: &[],
        subs: vec![sub("chains", "an error with a cause, or one that passed at least three layers", 300_000, arb, run)],
    }]
}
