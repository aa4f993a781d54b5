//! C10, C11: buffer.
use crate::core::*;
use crate::ensure;
use crate::probe::*;
use crate::rt::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::Arc;
use std::task::Poll;
use tower::buffer::{Buffer, BufferLayer};
use tower_layer::Layer;
use tower_service::Service;

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Op {
    Ready(u8),
    Call(u8),
    /// up to n readiness checks and calls in a row, until the handle has to wait
    Burst(u8, u8),
    Poll(u8),
    DropFut(u8),
    Clone(u8),
    DropHandle(u8),
    /// poll the worker (whether woken or not)
    Worker,
    DropWorker,
    Credits(u8),
    Fail,
    Hiccup(u8),
    Complete(u8, bool),
    /// poll everything woken
    Run,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct BufCase {
    bound: u8,
    credits: u8,
    /// 0: every step by hand; 1: worker is spawned on the runtime (made by the constructor or the layer)
    spawned: u8,
    ops: Vec<Op>,
}

fn arb(faults: bool, spawned: bool) -> impl Strategy<Value = BufCase> {
    let i = 0u8..6;
    let f = |n: u32| if faults { n } else { 0 };
    let op = weighted(vec![
        (60, i.clone().prop_map(Op::Ready).boxed()),
        (120, i.clone().prop_map(Op::Call).boxed()),
        (12, (i.clone(), 2u8..150).prop_map(|(a, b)| Op::Burst(a, b)).boxed()),
        (40, (0u8..12).prop_map(Op::Poll).boxed()),
        (25, (0u8..12).prop_map(Op::DropFut).boxed()),
        (25, i.clone().prop_map(Op::Clone).boxed()),
        ((if faults { 35 } else { 15 }), i.clone().prop_map(Op::DropHandle).boxed()),
        (80, Just(Op::Worker).boxed()),
        (f(6), Just(Op::DropWorker).boxed()),
        (60, (0u8..5).prop_map(Op::Credits).boxed()),
        (f(8), Just(Op::Fail).boxed()),
        (10, (1u8..3).prop_map(Op::Hiccup).boxed()),
        (50, (0u8..12, any::<bool>()).prop_map(|(a, b)| Op::Complete(a, b)).boxed()),
        (20, Just(Op::Run).boxed()),
    ]);
    (size(1..5, 5..200), 0u8..5, if spawned { 1u8..3 } else { 0u8..1 }, hist(op, 70))
        .prop_map(|(bound, credits, spawned, ops)| BufCase { bound, credits, spawned, ops })
}

type B = Buffer<Req, ProbeFut>;
type W = tower::buffer::future::ResponseFuture<ProbeFut>;

struct H {
    s: B,
    ready: bool,
    wait: Option<Arc<Flag>>,
    dead: bool,
}
struct F {
    f: Pin<Box<W>>,
    id: u64,
    flag: Option<Arc<Flag>>,
    /// accepted (handed to the queue) as opposed to refused at call
    after_failure: bool,
}
/// A live request is one whose future has not been dropped.
#[derive(Clone, PartialEq, Debug)]
enum St {
    Queued,
    Dispatched(usize),
    Gone,
}

fn chk(c: &BufCase, cov: &mut Cov, faults: bool) -> R {
    block_on(async {
        let w = World::new();
        let cr = |n: u8| if n == 4 { FREE } else { n as u64 };
        let g = w.group(Group { credits: cr(c.credits), ..Default::default() });
        let bound = c.bound as usize;
        let probe = w.probe(g);
        let (root, mut worker): (B, Option<Pin<Box<dyn std::future::Future<Output = ()>>>>) = match c.spawned {
            0 => {
                let (b, wk) = Buffer::pair(probe, bound);
                (b, Some(Box::pin(wk)))
            }
            1 => (Buffer::new(probe, bound), None),
            _ => (BufferLayer::new(bound).layer(probe), None),
        };
        let spawned = c.spawned > 0;
        let mut hs = vec![H { s: root, ready: false, wait: None, dead: false }];
        let mut fs: Vec<F> = vec![];
        let mut next = 1u64;
        // model
        let mut queue: VecDeque<u64> = VecDeque::new();
        let mut cur: Option<u64> = None;
        let mut st: Vec<St> = vec![St::Gone]; // by id
        let mut cancelled: Vec<bool> = vec![true];
        let mut seen_calls = 0usize;
        let mut last_dispatched = 0u64;
        let mut wflag: Option<Arc<Flag>> = None;
        let mut worker_polled = false;
        let mut wdone = false;
        let mut wdropped = false;
        let mut failed = false; // the inner service reported failure to the worker
        let (mut backp, mut skipped, mut dispatched) = (0, 0, 0);
        let mut closed_seen = 0;

        // what the worker is expected to do when polled; updates the model and checks the dispatches it made
        macro_rules! after_worker {
            ($poll:expr) => {{
                let x = w.lock();
                // new dispatches in order
                let newc: Vec<(usize, u64)> = (seen_calls..x.calls.len()).map(|i| (i, x.calls[i].req.id)).collect();
                seen_calls = x.calls.len();
                failed = failed || x.svcs[0].failed.is_some();
                drop(x);
                for (ci, id) in newc {
                    ensure!(id > last_dispatched, "request {id} dispatched after request {last_dispatched}, which was accepted later (or dispatched twice)");
                    ensure!(st[id as usize] == St::Queued, "request {id} dispatched but its state is {:?}", st[id as usize]);
                    ensure!(!cancelled[id as usize], "request {id} was dispatched although its response future had been dropped");
                    // everything accepted earlier and not cancelled must have been dispatched before
                    for e in 1..id {
                        ensure!(st[e as usize] != St::Queued || cancelled[e as usize], "request {id} overtook request {e}");
                    }
                    last_dispatched = id;
                    st[id as usize] = St::Dispatched(ci);
                    dispatched += 1;
                    if cur == Some(id) {
                        cur = None;
                    }
                    while queue.front().map_or(false, |q| *q <= id) {
                        let q = queue.pop_front().unwrap();
                        if cancelled[q as usize] && q != id {
                            skipped += 1;
                        }
                    }
                }
            }};
        }
        macro_rules! poll_worker {
            () => {{
                if let Some(wk) = worker.as_mut() {
                    w.begin_step();
                    let woken = wflag.as_ref().map_or(true, |f| f.woken());
                    let (n0, cur0) = (w.ncalls(), cur);
                    let nfail0 = failed;
                    let (r, fl) = poll_fut(wk.as_mut());
                    after_worker!(r);
                    if !woken && worker_polled {
                        ensure!(w.ncalls() == n0, "the worker could dispatch a request but was not woken");
                        ensure!(failed == nfail0, "the worker could report a failure but was not woken");
                        if r.is_ready() && cur0.map_or(true, |c| !cancelled[c as usize]) {
                            return Err("the worker could finish but was not woken".into());
                        }
                    }
                    worker_polled = true;
                    // take: drop cancelled messages until one that waits for readiness
                    if cur.map_or(false, |c| cancelled[c as usize] || st[c as usize] != St::Queued) {
                        cur = None;
                    }
                    if failed {
                        cur = None;
                        queue.clear();
                    } else if cur.is_none() {
                        while let Some(q) = queue.pop_front() {
                            if cancelled[q as usize] {
                                skipped += 1;
                            } else if st[q as usize] == St::Queued {
                                cur = Some(q);
                                break;
                            }
                        }
                    }
                    if let Some(cu) = cur {
                        let x = w.lock();
                        ensure!(!(x.svcs[0].ready || x.groups[g].credits > 0) || x.groups[g].hiccups > 0 || wflag_woken(&fl),
                            "the inner service is ready but request {cu} was not dispatched");
                    }
                    match r {
                        Poll::Ready(()) => {
                            let live: Vec<u64> = (1..next).filter(|&i| st[i as usize] == St::Queued && !cancelled[i as usize]).collect();
                            ensure!(failed || live.is_empty(), "the worker finished with accepted requests {live:?} neither dispatched nor failed");
                            ensure!(failed || hs.is_empty(), "the worker finished although handles exist and the inner service has not failed");
                            wdone = true;
                            worker = None;
                            ensure!(!w.lock().svcs[0].alive, "inner service outlives the finished worker");
                        }
                        Poll::Pending => wflag = Some(fl),
                    }
                }
            }};
        }
        // capacity the model says may be in use
        macro_rules! occupied {
            () => {
                queue.len() + hs.iter().filter(|h| h.ready).count()
            };
        }
        macro_rules! poll_ready {
            ($i:expr) => {{
                let i: usize = $i;
                if spawned {
                    settle().await;
                    after_worker!(());
                }
                w.begin_step();
                let (r, flag) = with_waker(|cx| hs[i].s.poll_ready(cx));
                cov.tr(|| format!("handle {i} ready -> {r:?}"));
                let closed = failed || wdropped || wdone;
                match r {
                    Poll::Ready(Ok(())) => {
                        // a reservation made before the failure may stay valid: its request then fails
                        ensure!(!closed || hs[i].ready, "a buffer whose service failed or whose worker is gone reports ready");
                        hs[i].ready = true;
                        hs[i].wait = None;
                    }
                    Poll::Ready(Err(e)) => {
                        ensure!(closed, "readiness error {e:?} although the buffer works");
                        check_err(&e, failed)?;
                        hs[i].dead = true;
                        hs[i].ready = false;
                        hs[i].wait = None;
                    }
                    Poll::Pending => {
                        ensure!(!closed, "readiness check hangs after the buffer failed or its worker is gone");
                        ensure!(!hs[i].ready, "readiness withdrawn");
                        if !spawned {
                            let granted = hs.iter().enumerate().filter(|(j, h)| *j != i && h.wait.as_ref().map_or(false, |f| f.woken())).count();
                            let o = occupied!();
                            ensure!(o + granted >= bound, "not ready although only {o} of {bound} places are taken and {granted} granted");
                        }
                        backp += 1;
                        hs[i].wait = Some(flag);
                    }
                }
            }};
        }
        macro_rules! call {
            ($i:expr) => {{
                let i: usize = $i;
                let f = hs[i].s.call(req(next));
                hs[i].ready = false;
                st.push(St::Queued);
                cancelled.push(false);
                let closed = failed || wdropped || wdone;
                if !closed {
                    queue.push_back(next);
                } else {
                    cov.hit("called a reserved handle after failure");
                }
                fs.push(F { f: Box::pin(f), id: next, flag: None, after_failure: closed });
                next += 1;
                if spawned {
                    settle().await;
                    after_worker!(());
                }
            }};
        }
        macro_rules! poll_fut_i {
            ($i:expr) => {{
                let i: usize = $i;
                if spawned {
                    settle().await;
                    after_worker!(());
                }
                let (r, fl) = poll_fut(fs[i].f.as_mut());
                let id = fs[i].id;
                cov.tr(|| format!("request {id} poll -> {r:?}"));
                let state = st[id as usize].clone();
                match (state, r) {
                    (St::Dispatched(ci), Poll::Pending) => {
                        ensure!(w.lock().calls[ci].st == CallSt::Waiting, "finished response of request {id} not delivered");
                        fs[i].flag = Some(fl);
                    }
                    (St::Dispatched(ci), Poll::Ready(out)) => {
                        let cs = w.lock().calls[ci].st.clone();
                        let ok = match &out {
                            Ok(r) => r.req == id && r.call == ci && cs == CallSt::Taken(Ok(())),
                            Err(e) => e.downcast_ref::<PErr>().map_or(false, |p| cs == CallSt::Taken(Err(p.0))),
                        };
                        ensure!(ok, "request {id} got {out:?}, its own outcome is {cs:?}");
                        fs.remove(i);
                        st[id as usize] = St::Gone;
                    }
                    (_, Poll::Pending) => {
                        ensure!(!wdropped && !wdone && (!failed || fs[i].after_failure && !spawned), "request {id} hangs although the buffer failed or its worker is gone");
                        fs[i].flag = Some(fl);
                    }
                    (_, Poll::Ready(Err(e))) => {
                        ensure!(failed || wdropped || wdone, "request {id} failed with {e:?} although the buffer works");
                        check_err(&e, failed)?;
                        closed_seen += 1;
                        fs.remove(i);
                        st[id as usize] = St::Gone;
                    }
                    (_, Poll::Ready(Ok(r))) => return Err(format!("request {id} was not dispatched but got {r:?}")),
                }
            }};
        }

        for &op in &c.ops {
            w.begin_step();
            let n = hs.len();
            match op {
                Op::Burst(i, k) if n > 0 => {
                    let i = i as usize % n;
                    for _ in 0..k {
                        if hs[i].dead {
                            break;
                        }
                        if !hs[i].ready {
                            poll_ready!(i);
                        }
                        if !hs[i].ready {
                            break;
                        }
                        call!(i);
                    }
                    cov.hit_if(queue.len() > 32, "more than 32 requests queued");
                }
                Op::Ready(i) | Op::Call(i) if n > 0 => {
                    let i = i as usize % n;
                    if hs[i].dead {
                        continue;
                    }
                    if matches!(op, Op::Ready(_)) || !hs[i].ready {
                        poll_ready!(i);
                    }
                    if matches!(op, Op::Call(_)) && hs[i].ready {
                        call!(i);
                    }
                }
                Op::Poll(i) if !fs.is_empty() => poll_fut_i!(i as usize % fs.len()),
                Op::DropFut(i) if !fs.is_empty() => {
                    let f = fs.remove(i as usize % fs.len());
                    cancelled[f.id as usize] = true;
                    cov.hit_if(st[f.id as usize] == St::Queued, "cancelled before dispatch");
                    if let St::Dispatched(ci) = st[f.id as usize] {
                        drop(f);
                        ensure!(!w.lock().calls[ci].alive, "inner response future survives its dropped caller");
                    }
                }
                Op::Clone(i) if n > 0 && n < 6 => {
                    let i = i as usize % n;
                    let s = hs[i].s.clone();
                    hs.push(H { s, ready: false, wait: None, dead: hs[i].dead });
                }
                Op::DropHandle(i) if n > 1 || (faults && n > 0) => {
                    hs.remove(i as usize % n);
                    cov.hit_if(hs.is_empty(), "all handles dropped");
                }
                Op::Worker => {
                    if spawned {
                        settle().await;
                        after_worker!(());
                    } else {
                        poll_worker!()
                    }
                }
                Op::DropWorker => {
                    if worker.take().is_some() {
                        wdropped = true;
                        queue.clear();
                        cur = None;
                        cov.hit("worker dropped");
                        ensure!(!w.lock().svcs[0].alive, "inner service outlives the dropped worker");
                        for f in &fs {
                            if st[f.id as usize] == St::Queued {
                                ensure!(f.flag.as_ref().map_or(true, |f| f.woken()), "request {} not woken when the worker was dropped", f.id);
                            }
                        }
                        for h in &hs {
                            ensure!(h.wait.as_ref().map_or(true, |f| f.woken()), "waiting handle not woken when the worker was dropped");
                        }
                    }
                }
                Op::Credits(k) => w.set_credits(g, cr(k)),
                Op::Fail => w.set_fail(g, Some(77)),
                Op::Hiccup(k) => w.set_hiccups(g, k as u32),
                Op::Complete(k, ok) => {
                    let ws = w.waiting_calls();
                    if !ws.is_empty() {
                        let ci = ws[k as usize % ws.len()];
                        w.complete(ci, if ok { Ok(()) } else { Err(2000 + ci as u64) });
                        let id = w.lock().calls[ci].req.id;
                        if let Some(f) = fs.iter().find(|f| f.id == id) {
                            // only polled futures own a waker that must be notified; a future polled before its
                            // dispatch was woken by the dispatch
                            ensure!(f.flag.as_ref().map_or(true, |x| x.woken()) , "request {id} not woken by its response");
                        }
                    }
                }
                Op::Run => {
                    if !spawned && wflag.as_ref().map_or(true, |f| f.woken()) {
                        poll_worker!();
                    }
                    for i in 0..hs.len() {
                        if hs[i].wait.as_ref().map_or(false, |f| f.woken()) && !hs[i].dead {
                            poll_ready!(i);
                        }
                    }
                    let mut i = 0;
                    while i < fs.len() {
                        let l = fs.len();
                        if fs[i].flag.as_ref().map_or(true, |f| f.woken()) {
                            poll_fut_i!(i);
                        }
                        if fs.len() == l {
                            i += 1;
                        }
                    }
                }
                _ => {}
            }
            if spawned {
                settle().await;
                after_worker!(());
            }
            // backpressure
            if !failed && !wdropped {
                let live = (1..next).filter(|&i| st[i as usize] == St::Queued && !cancelled[i as usize]).count();
                let o = live + hs.iter().filter(|h| h.ready).count();
                ensure!(o <= bound + 1, "{o} requests accepted or reserved but not dispatched, with a bound of {bound}");
            }
            if let Some(v) = w.violation() {
                return Err(v);
            }
        }
        // drain: the inner service is freed; the worker only runs when woken; every remaining request gets its outcome
        w.set_hiccups(g, 0);
        w.set_credits(g, FREE);
        // handles holding a reservation keep the worker from finishing, not from dispatching
        for _ in 0..200 {
            if spawned {
                settle().await;
                after_worker!(());
            } else if wflag.as_ref().map_or(true, |f| f.woken()) {
                poll_worker!();
            }
            for ci in w.waiting_calls() {
                w.complete(ci, Ok(()));
            }
            let mut i = 0;
            while i < fs.len() {
                let l = fs.len();
                if fs[i].flag.as_ref().map_or(true, |f| f.woken()) {
                    poll_fut_i!(i);
                }
                if fs.len() == l {
                    i += 1;
                }
            }
            if fs.is_empty() {
                break;
            }
        }
        ensure!(fs.is_empty(), "requests {:?} never finish although the inner service is ready", fs.iter().map(|f| f.id).collect::<Vec<_>>());
        // waiting handles must have been woken by now (the queue is empty)
        let reserved = hs.iter().filter(|h| h.ready).count();
        let waiting = hs.iter().filter(|h| h.wait.is_some()).count();
        let woken = hs.iter().filter(|h| h.wait.as_ref().map_or(false, |f| f.woken())).count();
        ensure!(
            failed || wdropped || wdone || woken >= waiting.min(bound - reserved.min(bound)),
            "{waiting} handles wait for an empty queue of {bound} ({reserved} reserved) but only {woken} were woken"
        );
        if failed || wdropped {
            for i in 0..hs.len() {
                if !hs[i].dead {
                    ensure!(hs[i].wait.as_ref().map_or(true, |f| f.woken()), "a waiting handle was not woken by the failure");
                    poll_ready!(i);
                    if hs[i].ready {
                        // a reservation made before the failure: its request is failed
                        let mut f = Box::pin(hs[i].s.call(req(next)));
                        hs[i].ready = false;
                        cov.hit("called a reserved handle after failure");
                        let mut out = poll_fut(f.as_mut()).0;
                        if out.is_pending() {
                            if spawned {
                                settle().await;
                            } else if wflag.as_ref().map_or(true, |f| f.woken()) {
                                poll_worker!();
                            }
                            out = poll_fut(f.as_mut()).0;
                        }
                        match out {
                            Poll::Ready(Err(e)) => check_err(&e, failed)?,
                            o => return Err(format!("a request sent through a reservation after the failure gives {o:?}")),
                        }
                        poll_ready!(i);
                    }
                    ensure!(hs[i].dead, "handle still ready after failure");
                }
            }
        }
        // without handles the worker finishes and drops the inner service
        hs.clear();
        if !wdropped && !wdone {
            if spawned {
                settle().await;
            } else {
                for _ in 0..3 {
                    if wflag.as_ref().map_or(true, |f| f.woken()) {
                        poll_worker!();
                    }
                }
                ensure!(wdone, "the worker does not finish after all handles were dropped");
            }
            ensure!(!w.lock().svcs[0].alive, "the inner service survives although all handles are gone");
        }
        cov.hit_if(backp > 0, "backpressure");
        cov.hit_if(skipped > 0, "skipped a cancelled request");
        cov.hit_if(failed, "inner failure");
        cov.hit_if(closed_seen > 0, "a request was failed");
        if faults {
            if (failed || wdropped) && next > 2 {
                cov.nontrivial();
            }
        } else if dispatched >= 3 && (backp > 0 || skipped > 0) {
            cov.nontrivial();
        }
        Ok(())
    })
}
fn wflag_woken(f: &Arc<Flag>) -> bool {
    f.woken()
}
/// Errors after a failure carry the inner error; after a mere stop they are the closed error.
fn check_err(e: &BoxError, failed: bool) -> R {
    let p = find_perr(e.as_ref());
    if failed {
        ensure!(p == Some(77), "the failure reported to a caller is {e:?} instead of the inner service's error");
        ensure!(e.is::<tower::buffer::error::ServiceError>(), "failure is not reported as a service error: {e:?}");
    } else {
        ensure!(e.is::<tower::buffer::error::Closed>(), "a stopped buffer reports {e:?} instead of closed");
    }
    Ok(())
}
fn deliver(c: &BufCase, cov: &mut Cov) -> R {
    chk(c, cov, false)
}
fn fail(c: &BufCase, cov: &mut Cov) -> R {
    chk(c, cov, true)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            assumptions: &["bounds of at least one (the channel requires it)"],
            subs: vec![
                sub("manual-worker", "at least three dispatches with backpressure or a skipped cancelled request", 220_000, || arb(false, false), deliver),
                sub("spawned-worker", "at least three dispatches with backpressure or a skipped cancelled request", 50_000, || arb(false, true), deliver),
                sub("threads", "at least three preemptions with two clients and a dispatch", 6_000, || super::race::arb(false, false), super::race::chk),
            ],
        },
        Prop {
            id: "C11",
            assumptions: &["bounds of at least one (the channel requires it)"],
            subs: vec![
                sub("manual-worker", "a request besides an inner failure or a dropped worker", 220_000, || arb(true, false), fail),
                sub("spawned-worker", "a request besides an inner failure", 50_000, || arb(true, true), fail),
                sub("threads", "at least three preemptions with two clients and a dispatch", 10_000, || super::race::arb(true, false), super::race::chk),
            ],
        },
    ]
}
