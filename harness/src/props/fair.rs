//! C42: those who wait for capacity get it in the order in which they came.
use crate::core::*;
use crate::dynsvc::*;
use crate::ensure;
use crate::probe::*;
use crate::rt::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use std::task::Poll;
use std::time::Duration;
use tower::util::ServiceExt;
use tower_layer::Layer;
use tower_service::Service;

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Op {
    /// poll readiness, woken or not
    Ready(u8),
    Call(u8),
    /// end of a call: completed and noticed, or dropped
    End(u8, bool),
    Clone(u8),
    DropHandle(u8),
    /// the buffer's service takes so many requests
    Take(u8),
    Pass(u8),
    /// poll what was woken
    Run,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Wrap {
    Timeout,
    Filter,
    MapReq,
    MapErr,
    Boxed,
    Left,
    Then,
    Shared,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    n: u8,
    /// 0 a limit's clones; 1 services from one global layer; 2 one semaphore; 3 a limit over two further clones' wrapper;
    /// for buffers: 0 a buffer; 1 a buffer from a layer
    mode: u8,
    wraps: Vec<Wrap>,
    ops: Vec<Op>,
}
fn arb(buffer: bool) -> impl Strategy<Value = Case> {
    let i = 0u8..8;
    let op = prop_oneof![
        10 => i.clone().prop_map(Op::Ready),
        6 => i.clone().prop_map(Op::Call),
        6 => (0u8..10, any::<bool>()).prop_map(|(a, b)| Op::End(a, b)),
        5 => i.clone().prop_map(Op::Clone),
        3 => i.prop_map(Op::DropHandle),
        (if buffer { 5 } else { 0 }) => (1u8..4).prop_map(Op::Take),
        1 => (1u8..50).prop_map(Op::Pass),
        3 => Just(Op::Run),
    ];
    let wrap = prop::sample::select(vec![Wrap::Timeout, Wrap::Filter, Wrap::MapReq, Wrap::MapErr, Wrap::Boxed, Wrap::Left, Wrap::Then, Wrap::Shared]);
    (size(1..4, 4..20), 0u8..3, prop::collection::vec(wrap, 0..3), hist(op, 70)).prop_map(|(n, mode, wraps, ops)| Case { n, mode, wraps, ops })
}

struct H {
    s: Dyn,
    ready: bool,
    /// the flag of the last poll, and when the wait began
    wait: Option<(Arc<Flag>, usize)>,
}
fn wrap(mut d: Dyn, ws: &[Wrap]) -> Dyn {
    for w in ws {
        d = match w {
            Wrap::Timeout => Dyn::c(tower::timeout::Timeout::new(d, Duration::from_millis(30))),
            Wrap::Filter => Dyn::c(tower::filter::Filter::new(d, |r: Req| Ok::<Req, BoxError>(r))),
            Wrap::MapReq => Dyn::c(d.map_request(|r: Req| r)),
            Wrap::MapErr => Dyn::c(d.map_err(|e: BoxError| e)),
            Wrap::Boxed => Dyn::c(tower::util::BoxCloneService::new(d)),
            Wrap::Left => Dyn::c(tower::util::Either::<Dyn, Dyn>::Left(d)),
            Wrap::Then => Dyn::c(d.then(|r: Result<Resp, BoxError>| async move { r })),
            Wrap::Shared => Dyn::c(tower::util::BoxCloneSyncService::new(SyncDyn::new(d))),
        };
    }
    d
}

fn run(c: &Case, cov: &mut Cov, buffer: bool) -> R {
    block_on(async {
        let w = World::new();
        let g = w.group(Group { credits: if buffer { 0 } else { FREE }, ..Default::default() });
        let n = c.n as usize;
        let mut svcs: Vec<Dyn> = vec![];
        if buffer {
            let p = w.probe(g);
            svcs.push(match c.mode {
                0 => Dyn::c(tower::buffer::Buffer::new(p, n)),
                _ => Dyn::c(tower::buffer::BufferLayer::new(n).layer(p)),
            });
        } else {
            match c.mode {
                0 => svcs.push(Dyn::c(tower::limit::ConcurrencyLimitLayer::new(n).layer(w.probe(g)))),
                1 => {
                    let l = tower::limit::GlobalConcurrencyLimitLayer::new(n);
                    svcs.push(Dyn::c(l.layer(w.probe(g))));
                    svcs.push(Dyn::c(l.clone().layer(w.probe(g))));
                }
                _ => {
                    let s = Arc::new(tokio::sync::Semaphore::new(n));
                    svcs.push(Dyn::c(tower::limit::ConcurrencyLimit::with_semaphore(w.probe(g), s.clone())));
                    svcs.push(Dyn::c(tower::limit::GlobalConcurrencyLimitLayer::with_semaphore(s).layer(w.probe(g))));
                }
            }
        }
        let mut hs: Vec<H> = svcs.into_iter().map(|s| H { s: wrap(s, &c.wraps), ready: false, wait: None }).collect();
        let mut futs: Vec<Fut> = vec![];
        let (mut next, mut clock) = (1, 0);
        let (mut most, mut served) = (0, 0);

        macro_rules! poll_ready {
            ($i:expr) => {{
                let i: usize = $i;
                w.begin_step();
                let (r, fl) = with_waker(|cx| hs[i].s.poll_ready(cx));
                cov.tr(|| format!("handle {i} ready -> {r:?}"));
                clock += 1;
                let since = hs[i].wait.as_ref().map_or(clock, |x| x.1);
                match r {
                    Poll::Pending => {
                        ensure!(!hs[i].ready, "readiness withdrawn");
                        cov.hit_if(hs[i].wait.as_ref().map_or(false, |x| !x.0.woken()), "polled again while waiting");
                        hs[i].wait = Some((fl, since));
                    }
                    Poll::Ready(Ok(())) => {
                        if !hs[i].ready {
                            served += hs[i].wait.is_some() as usize;
                            if let Some(j) = (0..hs.len()).find(|&j| j != i && hs[j].wait.as_ref().map_or(false, |x| x.1 < since && !x.0.woken())) {
                                return Err(format!("handle {i} got its turn before handle {j}, which has waited for longer and was not woken"));
                            }
                        }
                        hs[i].ready = true;
                        hs[i].wait = None;
                    }
                    Poll::Ready(Err(e)) => return Err(format!("unexpected readiness error {e}")),
                }
            }};
        }
        for &op in &c.ops {
            match op {
                Op::Ready(i) => poll_ready!(i as usize % hs.len()),
                Op::Call(i) => {
                    let i = i as usize % hs.len();
                    if !hs[i].ready {
                        poll_ready!(i)
                    }
                    if hs[i].ready {
                        w.begin_step();
                        futs.push(hs[i].s.call(req(next)));
                        hs[i].ready = false;
                        next += 1;
                    }
                }
                Op::End(i, ok) if !futs.is_empty() => {
                    let i = i as usize % futs.len();
                    if ok {
                        // whichever call it is: all are alike
                        if let Some(&k) = w.waiting_calls().get(i) {
                            w.complete(k, Ok(()));
                        }
                        settle().await;
                        futs.retain_mut(|f| poll_fut(f.as_mut()).0.is_pending());
                    } else {
                        drop(futs.remove(i));
                        cov.hit("request cancelled");
                    }
                }
                Op::Clone(i) if hs.len() < 9 => {
                    let s = hs[i as usize % hs.len()].s.clone();
                    hs.push(H { s, ready: false, wait: None });
                }
                Op::DropHandle(i) if hs.len() > 1 => {
                    let i = i as usize % hs.len();
                    cov.hit_if(hs[i].wait.is_some(), "gave up waiting");
                    cov.hit_if(hs[i].wait.as_ref().map_or(false, |x| x.0.woken()), "gave up after it was woken");
                    drop(hs.remove(i));
                }
                Op::Take(n) => w.add_credits(g, n as u64),
                Op::Pass(ms) => {
                    advance(ms as u64).await;
                    futs.retain_mut(|f| poll_fut(f.as_mut()).0.is_pending());
                }
                Op::Run => {
                    for i in 0..hs.len() {
                        if hs[i].wait.as_ref().map_or(false, |x| x.0.woken()) {
                            poll_ready!(i);
                        }
                    }
                }
                _ => {}
            }
            settle().await;
            if let Some(v) = w.violation() {
                return Err(v);
            }
            // whoever was woken is ahead of all that were not
            let waiting: Vec<(usize, usize, bool)> = (0..hs.len()).filter_map(|i| hs[i].wait.as_ref().map(|x| (x.1, i, x.0.woken()))).collect();
            most = most.max(waiting.len());
            let first = waiting.iter().filter(|x| !x.2).min();
            let last = waiting.iter().filter(|x| x.2).max();
            if let (Some(a), Some(b)) = (first, last) {
                ensure!(a.0 > b.0, "handle {} was woken before handle {}, which has waited for longer", b.1, a.1);
            }
        }
        cov.hit_if(most >= 4, "four waiting at once");
        if most >= 2 && served >= 2 {
            cov.nontrivial();
        }
        Ok(())
    })
}
fn limits(c: &Case, cov: &mut Cov) -> R {
    run(c, cov, false)
}
fn buffers(c: &Case, cov: &mut Cov) -> R {
    run(c, cov, true)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C42",
        assumptions: &["the limited service is ready; a caller that has been woken has its turn"],
        subs: vec![
            sub("limits", "two callers waited at once and two got their turn after waiting", 300_000, || arb(false), limits),
            sub("buffers", "two callers waited at once and two got their turn after waiting", 300_000, || arb(true), buffers),
        ],
    }]
}
