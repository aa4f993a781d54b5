//! C37 memory: components driven through the same history many times (stacks are in `stack.rs`).
use crate::core::*;
use crate::ensure;
use crate::probe::*;
use crate::rt::*;
use crate::stack::CYCLES;
use futures_core::Stream;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tower::balance::p2c::Balance;
use tower::discover::Change;
use tower::ready_cache::ReadyCache;
use tower::util::ServiceExt;
use tower_service::Service;

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Kind {
    Cache,
    Balance,
    CallAll,
    CallAllUnordered,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Op {
    Insert(u8),
    Remove(u8),
    Poll,
    Call(u8),
    Grant(u8, u8),
    Fail(u8),
    Hiccup(u8),
    Complete(u8, bool),
    DropFut(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct LCase {
    kind: Kind,
    ops: Vec<Op>,
    /// 0: the endpoints stay from cycle to cycle; 1: all are removed at the end of a cycle; 2: each cycle has new
    /// keys, removed at its end; 3: new keys of which only those present at the end are removed
    clear: u8,
}
fn arb() -> impl Strategy<Value = LCase> {
    let k = 0u8..5;
    let op = prop_oneof![
        5 => k.clone().prop_map(Op::Insert),
        3 => k.clone().prop_map(Op::Remove),
        6 => Just(Op::Poll),
        5 => k.clone().prop_map(Op::Call),
        3 => (k.clone(), 0u8..4).prop_map(|(a, b)| Op::Grant(a, b)),
        1 => k.clone().prop_map(Op::Fail),
        1 => k.clone().prop_map(Op::Hiccup),
        4 => (k.clone(), any::<bool>()).prop_map(|(a, b)| Op::Complete(a, b)),
        2 => k.prop_map(Op::DropFut),
    ];
    (prop_oneof![Just(Kind::Cache), Just(Kind::Balance), Just(Kind::CallAll), Just(Kind::CallAllUnordered)], hist(op, 20), 0u8..4)
        .prop_map(|(kind, ops, clear)| LCase { kind, ops, clear })
}
struct Rng(u64);
impl tower::util::rng::Rng for Rng {
    fn next_u64(&mut self) -> u64 {
        super::balance::splitmix(&mut self.0)
    }
}
#[derive(Default)]
struct Q {
    q: VecDeque<u64>,
    waker: Option<Waker>,
}
#[derive(Clone, Default)]
struct Reqs(Arc<Mutex<Q>>);
impl Reqs {
    fn push(&self, i: u64) {
        let w = {
            let mut x = self.0.lock().unwrap();
            x.q.push_back(i);
            x.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
}
impl Stream for Reqs {
    type Item = Req;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Req>> {
        let mut x = self.0.lock().unwrap();
        match x.q.pop_front() {
            Some(i) => Poll::Ready(Some(req(i))),
            None => {
                x.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

#[derive(Default)]
struct DQ {
    q: VecDeque<Change<u64, Probe>>,
    waker: Option<Waker>,
}
#[derive(Clone, Default)]
struct Disc(Arc<Mutex<DQ>>);
impl Disc {
    fn push(&self, i: Change<u64, Probe>) {
        let w = {
            let mut x = self.0.lock().unwrap();
            x.q.push_back(i);
            x.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
}
impl Stream for Disc {
    type Item = Result<Change<u64, Probe>, PErr>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let mut x = self.0.lock().unwrap();
        match x.q.pop_front() {
            Some(i) => Poll::Ready(Some(Ok(i))),
            None => {
                x.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

enum Sys {
    Cache(ReadyCache<u64, Probe, Req>),
    Bal(Disc, Balance<Disc, Req>),
    All(Reqs, Pin<Box<dyn Stream<Item = Result<Resp, PErr>>>>),
}

fn run(c: &LCase, cov: &mut Cov) -> R {
    block_on(async {
        let w = World::new();
        let gs: Vec<usize> = (0..5).map(|_| w.group(Group::default())).collect();
        let mut sys = match c.kind {
            Kind::Cache => Sys::Cache(ReadyCache::default()),
            Kind::Balance => {
                let d = Disc::default();
                Sys::Bal(d.clone(), Balance::from_rng(d, Rng(7)))
            }
            Kind::CallAll => {
                let r = Reqs::default();
                Sys::All(r.clone(), Box::pin(w.probe(gs[0]).call_all(r)))
            }
            Kind::CallAllUnordered => {
                let r = Reqs::default();
                Sys::All(r.clone(), Box::pin(w.probe(gs[0]).call_all(r).unordered()))
            }
        };
        cov.hit(match c.kind {
            Kind::Cache => "ready cache",
            Kind::Balance => "balancer",
            Kind::CallAll => "call-all",
            Kind::CallAllUnordered => "call-all unordered",
        });
        let mut futs: Vec<Option<ProbeFut>> = Vec::with_capacity(64);
        let mut bfuts: Vec<Pin<Box<dyn std::future::Future<Output = Result<Resp, tower::BoxError>>>>> = Vec::with_capacity(64);
        let mut id = 0;
        let mut used = Vec::with_capacity(CYCLES);
        let mut work = 0;
        // returns whether there may be more to do at once
        let poll = |sys: &mut Sys| {
            w.begin_step();
            match sys {
                Sys::Cache(x) => {
                    let _ = with_waker(|cx| x.poll_pending(cx));
                    false
                }
                Sys::Bal(_, b) => {
                    let _ = with_waker(|cx| b.poll_ready(cx));
                    false
                }
                Sys::All(_, s) => with_waker(|cx| s.as_mut().poll_next(cx)).0.is_ready(),
            }
        };
        for cycle in 0..CYCLES {
            work = 0;
            // the name of endpoint k in this cycle
            let key = |k: u8| if c.clear >= 2 { cycle as u64 * 8 + k as u64 } else { k as u64 };
            let mut here = [false; 5];
            for &op in &c.ops {
                match op {
                    Op::Insert(k) => match &mut sys {
                        Sys::Cache(x) => {
                            here[k as usize] = true;
                            x.push(key(k), w.probe(gs[k as usize]))
                        }
                        Sys::Bal(d, _) => {
                            here[k as usize] = true;
                            d.push(Change::Insert(key(k), w.probe(gs[k as usize])))
                        }
                        Sys::All(r, _) => {
                            id += 1;
                            work += 1;
                            r.push(id)
                        }
                    },
                    Op::Remove(k) => match &mut sys {
                        Sys::Cache(x) => {
                            x.evict(&key(k));
                        }
                        Sys::Bal(d, ..) => d.push(Change::Remove(key(k))),
                        Sys::All(..) => {}
                    },
                    Op::Poll => {
                            poll(&mut sys);
                        },
                    Op::Call(k) => {
                        id += 1;
                        w.begin_step();
                        match &mut sys {
                            Sys::Cache(x) => {
                                if let (Ok(true), _) = with_waker(|cx| x.check_ready(cx, &key(k))) {
                                    futs.push(Some(x.call_ready(&key(k), req(id))));
                                    work += 1;
                                }
                            }
                            Sys::Bal(_, b) => {
                                if let (Poll::Ready(Ok(())), _) = with_waker(|cx| b.poll_ready(cx)) {
                                    bfuts.push(Box::pin(b.call(req(id))));
                                    work += 1;
                                }
                            }
                            Sys::All(..) => {
                            poll(&mut sys);
                        },
                        }
                    }
                    Op::Grant(k, n) => w.set_credits(gs[k as usize], n as u64),
                    // a failed readiness check ends a call-all
                    Op::Fail(k) if !matches!(sys, Sys::All(..)) => w.fail_once(gs[k as usize], 1),
                    Op::Fail(_) => {}
                    Op::Hiccup(k) => w.set_hiccups(gs[k as usize], 1),
                    Op::Complete(k, ok) => {
                        let ws = uncounted(|| w.waiting_calls());
                        if !ws.is_empty() {
                            w.complete(ws[k as usize % ws.len()], if ok || matches!(sys, Sys::All(..)) { Ok(()) } else { Err(2) });
                        }
                    }
                    Op::DropFut(k) => {
                        let n = futs.len().max(1);
                        if let Some(f) = futs.get_mut(k as usize % n) {
                            *f = None;
                        }
                        if !bfuts.is_empty() {
                            let n = bfuts.len();
                            drop(bfuts.swap_remove(k as usize % n));
                        }
                    }
                }
            }
            futs.clear();
            bfuts.clear();
            let mut more = 12;
            while more > 0 {
                for &g in &gs {
                    w.set_hiccups(g, 0);
                    w.set_credits(g, FREE);
                }
                for i in uncounted(|| w.waiting_calls()) {
                    w.complete(i, Ok(()));
                }
                more = if poll(&mut sys) { 3 } else { more - 1 };
            }
            if c.clear > 0 {
                for k in 0..5 {
                    match &mut sys {
                        // an endpoint that failed is not known any more: it need not be removed
                        Sys::Cache(x) => {
                            if c.clear < 3 || x.get_ready(&key(k)).is_some() {
                                x.evict(&key(k));
                            }
                        }
                        Sys::Bal(d, ..) if here[k as usize] => d.push(Change::Remove(key(k))),
                        Sys::Bal(..) | Sys::All(..) => {}
                    }
                }
                for _ in 0..2 {
                    poll(&mut sys);
                }
            }
            used.push(net_bytes());
            if [CYCLES / 16, CYCLES / 4].contains(&cycle) && !growing(&used) {
                break;
            }
        }
        if work > 0 {
            cov.nontrivial();
        }
        cov.hit_if(used.len() > CYCLES / 4 + 1, "watched for long");
        ensure!(
            used.len() < CYCLES || !growing(&used),
            "{:?}: memory in use keeps growing with equal work: {:?} bytes after {:?} cycles",
            c.kind,
            used.iter().step_by(CYCLES / 6).map(|b| b - used[0]).collect::<Vec<_>>(),
            (0..used.len()).step_by(CYCLES / 6).collect::<Vec<_>>()
        );
        Ok(())
    })
}

pub fn components() -> Vec<Box<dyn SubDyn>> {
    vec![sub("components", "each cycle makes requests", 20_000, arb, run)]
}
