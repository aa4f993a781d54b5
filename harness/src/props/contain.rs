//! C35: a panic inside a wrapped service is contained.
use super::balance::{Disc, Item, LP};
use crate::core::*;
use crate::ensure;
use crate::probe::*;
use crate::rt::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use tokio::sync::Semaphore;
use tower::balance::p2c::Balance;
use tower::buffer::Buffer;
use tower::limit::ConcurrencyLimit;
use tower::load::{CompleteOnResponse, Load, PeakEwma, PendingRequests};
use tower::spawn_ready::SpawnReady;
use tower_service::Service;

/// Runs `f`; `None` if it panicked with the panic a probe was told to raise. Any other panic is an error.
fn caught<T>(f: impl FnOnce() -> T) -> Result<Option<T>, String> {
    let r = catch_unwind(AssertUnwindSafe(f));
    let m = take_panic();
    match (r, m) {
        (Ok(v), None) => Ok(Some(v)),
        (Err(_), Some(m)) if m.ends_with(PANIC_MSG) => Ok(None),
        (Ok(_), Some(m)) | (Err(_), Some(m)) => Err(m),
        (Err(_), None) => Err("panic without a message".into()),
    }
}
/// A panic caught by the runtime: was it the one the probe raised?
fn background() -> Result<bool, String> {
    match take_panic() {
        None => Ok(false),
        Some(m) if m.ends_with(PANIC_MSG) => Ok(true),
        Some(m) => Err(m),
    }
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Op {
    Ready(u8),
    Call(u8),
    Poll(u8),
    DropFut(u8),
    /// 0 = response, 1 = error, 2 = panic
    Complete(u8, u8),
    Clone(u8),
    DropHandle(u8),
    Credits(u8),
    /// the next readiness check / call (of that group) panics
    ArmReady(u8),
    ArmCall(u8),
    Remove(u8),
    Insert(u8),
    Run,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    n: u8,
    credits: u8,
    ops: Vec<Op>,
}
fn arb(arm_ready: u32, arm_call: u32, disc: u32) -> impl Strategy<Value = Case> {
    let i = || 0u8..6;
    let op = weighted(vec![
        (30, i().prop_map(Op::Ready).boxed()),
        (60, i().prop_map(Op::Call).boxed()),
        (30, (0u8..10).prop_map(Op::Poll).boxed()),
        (12, (0u8..10).prop_map(Op::DropFut).boxed()),
        (30, (0u8..10, 0u8..3).prop_map(|(a, b)| Op::Complete(a, b)).boxed()),
        (15, i().prop_map(Op::Clone).boxed()),
        (10, i().prop_map(Op::DropHandle).boxed()),
        (15, (0u8..4).prop_map(Op::Credits).boxed()),
        (arm_ready, i().prop_map(Op::ArmReady).boxed()),
        (arm_call, i().prop_map(Op::ArmCall).boxed()),
        (disc, i().prop_map(Op::Remove).boxed()),
        (disc, i().prop_map(Op::Insert).boxed()),
        (20, Just(Op::Run).boxed()),
    ]);
    (size(1..5, 5..20), 0u8..4, hist(op, 50)).prop_map(|(n, credits, ops)| Case { n, credits, ops })
}
fn outcome(k: u8, id: u64) -> Result<(), u64> {
    match k {
        0 => Ok(()),
        1 => Err(1000 + id),
        _ => Err(PANIC),
    }
}
fn cr(n: u8) -> u64 {
    if n == 3 { FREE } else { n as u64 }
}

// ---------------------------------------------------------------- concurrency limit
fn limit(c: &Case, cov: &mut Cov) -> R {
    block_on(async {
        type CL = ConcurrencyLimit<Probe>;
        struct H {
            s: CL,
            ready: bool,
            /// its readiness check panicked: it may or may not hold a unit
            odd: bool,
            wait: Option<Arc<Flag>>,
        }
        let w = World::new();
        let g = w.group(Group::default());
        let max = c.n as usize;
        let root: CL = ConcurrencyLimit::with_semaphore(w.probe(g), Arc::new(Semaphore::new(max)));
        let mut hs = vec![H { s: root.clone(), ready: false, odd: false, wait: None }];
        let mut fs: Vec<(usize, u64, Pin<Box<_>>)> = vec![];
        let mut panics = 0;
        let mut waited = false;
        let mut next = 1;
        macro_rules! ready {
            ($i:expr) => {{
                let i: usize = $i;
                let h: &mut H = &mut hs[i];
                w.begin_step();
                match caught(|| with_waker(|cx| h.s.poll_ready(cx)))? {
                    None => {
                        panics += 1;
                        h.odd = true;
                        h.ready = false;
                        h.wait = None;
                        cov.hit("readiness check panicked");
                    }
                    Some((Poll::Ready(Ok(())), _)) => {
                        h.ready = true;
                        h.odd = false;
                        h.wait = None;
                    }
                    Some((Poll::Ready(Err(e)), _)) => return Err(format!("unexpected readiness error {e:?}")),
                    Some((Poll::Pending, f)) => {
                        ensure!(!h.ready, "readiness withdrawn");
                        waited = true;
                        h.odd = false;
                        h.wait = Some(f)
                    }
                }
            }};
        }
        for &op in &c.ops {
            match op {
                Op::Ready(i) => ready!(i as usize % hs.len()),
                Op::Call(i) => {
                    let i = i as usize % hs.len();
                    if !hs[i].ready {
                        ready!(i);
                    }
                    if hs[i].ready {
                        hs[i].ready = false;
                        let n = w.ncalls();
                        let s = &mut hs[i].s;
                        match caught(|| s.call(req(next)))? {
                            None => {
                                panics += 1;
                                cov.hit("call panicked");
                            }
                            Some(f) => fs.push((n, next, Box::pin(f))),
                        }
                        next += 1;
                    }
                }
                Op::Poll(i) if !fs.is_empty() => {
                    let i = i as usize % fs.len();
                    let (call, id, f) = &mut fs[i];
                    let st = w.lock().calls[*call].st.clone();
                    w.begin_step();
                    match (st, caught(|| poll_fut(f.as_mut()).0)?) {
                        (CallSt::Done(Err(PANIC)), None) => {
                            panics += 1;
                            cov.hit("response future panicked");
                        }
                        (CallSt::Waiting, Some(Poll::Pending)) => continue,
                        (CallSt::Done(Ok(())), Some(Poll::Ready(Ok(r)))) if r.req == *id && r.call == *call => {}
                        (CallSt::Done(Err(e)), Some(Poll::Ready(Err(PErr(x))))) if e == x && e != PANIC => {}
                        (st, r) => return Err(format!("inner {st:?} but outcome {r:?}")),
                    }
                    fs.remove(i);
                }
                Op::DropFut(i) if !fs.is_empty() => drop(fs.remove(i as usize % fs.len())),
                Op::Complete(i, k) if !fs.is_empty() => {
                    let (call, id, _) = &fs[i as usize % fs.len()];
                    w.complete(*call, outcome(k, *id));
                }
                Op::Clone(i) if hs.len() < 8 => {
                    let s = hs[i as usize % hs.len()].s.clone();
                    hs.push(H { s, ready: false, odd: false, wait: None });
                }
                Op::DropHandle(i) if hs.len() > 1 => drop(hs.remove(i as usize % hs.len())),
                Op::ArmReady(_) => w.lock().groups[g].panic_ready = true,
                Op::ArmCall(_) => w.lock().groups[g].panic_call = true,
                Op::Run => {
                    for i in 0..hs.len() {
                        if hs[i].wait.as_ref().map_or(false, |f| f.woken()) {
                            ready!(i);
                        }
                    }
                }
                _ => {}
            }
            let used = hs.iter().filter(|h| h.ready).count() + fs.len();
            ensure!(used <= max, "{used} units in use with a limit of {max}");
            let most = used + hs.iter().filter(|h| h.odd).count();
            let waiting = hs.iter().filter(|h| h.wait.is_some()).count();
            let woken = hs.iter().filter(|h| h.wait.as_ref().map_or(false, |f| f.woken())).count();
            ensure!(woken >= waiting.min(max.saturating_sub(most)), "at most {most} of {max} units in use, {waiting} callers waiting, only {woken} woken after {panics} panics");
            if let Some(v) = w.violation() {
                return Err(v);
            }
        }
        w.lock().groups[g].panic_ready = false;
        drop(fs);
        drop(hs);
        let mut fresh: Vec<_> = (0..max + 2).map(|_| root.clone()).collect();
        let got = fresh.iter_mut().filter_map(|h| with_waker(|cx| h.poll_ready(cx)).0.is_ready().then_some(())).count();
        ensure!(got == max, "after {panics} panics {got} reservations are possible with a limit of {max}: capacity was lost or gained");
        if panics > 0 && waited {
            cov.nontrivial();
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- buffer
fn buffer(c: &Case, cov: &mut Cov) -> R {
    block_on(async {
        type B = Buffer<Req, ProbeFut>;
        struct H {
            s: B,
            ready: bool,
            wait: Option<Arc<Flag>>,
        }
        struct F {
            id: u64,
            f: Pin<Box<dyn Future<Output = Result<Resp, BoxError>>>>,
            flag: Option<Arc<Flag>>,
        }
        let w = World::new();
        let g = w.group(Group { credits: cr(c.credits), ..Default::default() });
        let mut hs = vec![H { s: Buffer::new(w.probe(g), c.n as usize), ready: false, wait: None }];
        let mut fs: Vec<F> = vec![];
        let mut next = 1;
        let (mut panics, mut closed, mut dead) = (0, 0, false);
        macro_rules! ready {
            ($i:expr) => {{
                let i: usize = $i;
                let h: &mut H = &mut hs[i];
                match caught(|| with_waker(|cx| h.s.poll_ready(cx)))? {
                    None => return Err("the worker's panic reached a caller".into()),
                    Some((Poll::Ready(Ok(())), _)) => {
                        // a reservation made before the panic is kept; a request made with it fails
                        ensure!(!dead || h.ready, "ready although the worker is gone");
                        h.ready = true;
                        h.wait = None;
                    }
                    Some((Poll::Ready(Err(e)), _)) => {
                        ensure!(dead, "readiness error {e:?} although the worker runs");
                        ensure!(e.is::<tower::buffer::error::Closed>(), "the error of a buffer whose worker panicked is {e:?}");
                        closed += 1;
                        h.ready = false;
                        h.wait = None;
                    }
                    Some((Poll::Pending, f)) => {
                        ensure!(!dead, "pending although the worker is gone: the caller hangs");
                        ensure!(!h.ready, "readiness withdrawn");
                        h.wait = Some(f)
                    }
                }
            }};
        }
        macro_rules! poll {
            ($i:expr) => {{
                let i: usize = $i;
                let F { id, f, flag } = &mut fs[i];
                let call = w.calls_of(*id).first().copied();
                let st = call.map(|n| w.lock().calls[n].st.clone());
                match (st, caught(|| poll_fut(f.as_mut()))?) {
                    (Some(CallSt::Done(Err(PANIC))), None) => {
                        panics += 1;
                        cov.hit("response future panicked");
                        fs.remove(i);
                    }
                    (Some(CallSt::Done(Ok(()))), Some((Poll::Ready(Ok(r)), _))) if r.req == *id => {
                        cov.hit_if(dead, "answered after the worker's panic");
                        fs.remove(i);
                    }
                    (Some(CallSt::Done(Err(e))), Some((Poll::Ready(Err(x)), _))) if find_perr(x.as_ref()) == Some(e) && e != PANIC => {
                        fs.remove(i);
                    }
                    (Some(CallSt::Waiting), Some((Poll::Pending, fl))) => *flag = Some(fl),
                    (None, Some((Poll::Pending, fl))) => {
                        ensure!(!dead, "request {id} hangs although the worker panicked");
                        *flag = Some(fl)
                    }
                    (None, Some((Poll::Ready(Err(e)), _))) => {
                        ensure!(dead, "request {id} failed with {e:?} although the worker runs");
                        ensure!(e.is::<tower::buffer::error::Closed>(), "request {id} of a buffer whose worker panicked got {e:?}");
                        closed += 1;
                        cov.hit("queued request failed by the panic");
                        fs.remove(i);
                    }
                    (st, r) => return Err(format!("request {id}: inner call is {st:?} but outcome {:?}", r.map(|r| r.0))),
                }
            }};
        }
        for &op in &c.ops {
            w.begin_step();
            match op {
                Op::Ready(i) => ready!(i as usize % hs.len()),
                Op::Call(i) => {
                    let i = i as usize % hs.len();
                    if !hs[i].ready {
                        ready!(i);
                    }
                    if hs[i].ready {
                        hs[i].ready = false;
                        let s = &mut hs[i].s;
                        let Some(f) = caught(|| s.call(req(next)))? else { return Err("call panicked".into()) };
                        cov.hit_if(dead, "called with a reservation after the panic");
                        fs.push(F { id: next, f: Box::pin(f), flag: None });
                        next += 1;
                    }
                }
                Op::Poll(i) if !fs.is_empty() => poll!(i as usize % fs.len()),
                Op::DropFut(i) if !fs.is_empty() => drop(fs.remove(i as usize % fs.len())),
                Op::Complete(i, k) if !fs.is_empty() => {
                    let id = fs[i as usize % fs.len()].id;
                    if let Some(n) = w.calls_of(id).first() {
                        w.complete(*n, outcome(k, id));
                    }
                }
                Op::Clone(i) if hs.len() < 8 => {
                    let s = hs[i as usize % hs.len()].s.clone();
                    hs.push(H { s, ready: false, wait: None });
                }
                Op::DropHandle(i) if hs.len() > 1 => drop(hs.remove(i as usize % hs.len())),
                Op::Credits(n) => w.set_credits(g, cr(n)),
                Op::ArmReady(_) if !dead => w.lock().groups[g].panic_ready = true,
                Op::ArmCall(_) if !dead => w.lock().groups[g].panic_call = true,
                Op::Run => {
                    for i in 0..hs.len() {
                        if hs[i].wait.as_ref().map_or(false, |f| f.woken()) {
                            ready!(i);
                        }
                    }
                    let mut i = 0;
                    while i < fs.len() {
                        let n = fs.len();
                        if fs[i].flag.as_ref().map_or(true, |f| f.woken()) {
                            poll!(i);
                        }
                        if fs.len() == n {
                            i += 1;
                        }
                    }
                }
                _ => {}
            }
            settle().await;
            if background()? {
                ensure!(w.lock().panics_in_service == 1, "the worker went on after its panic");
                dead = true;
                panics += 1;
                cov.hit("worker panicked");
            }
            if dead {
                for h in &hs {
                    ensure!(h.wait.as_ref().map_or(true, |f| f.woken()), "the worker panicked but a waiting handle was not woken");
                }
                for f in &fs {
                    if w.calls_of(f.id).is_empty() {
                        ensure!(f.flag.as_ref().map_or(true, |f| f.woken()), "the worker panicked but the caller of queued request {} was not woken", f.id);
                    }
                }
                ensure!(w.live_svcs() == 0, "the wrapped service survives its worker");
            }
            if let Some(v) = w.violation() {
                return Err(v);
            }
        }
        if dead {
            for i in 0..hs.len() {
                ready!(i);
                if hs[i].ready {
                    let s = &mut hs[i].s;
                    let Some(f) = caught(|| s.call(req(next)))? else { return Err("call panicked".into()) };
                    hs[i].ready = false;
                    fs.push(F { id: next, f: Box::pin(f), flag: None });
                    next += 1;
                    ready!(i);
                }
            }
            for f in &fs {
                if let Some(n) = w.calls_of(f.id).first() {
                    w.complete(*n, Ok(()));
                }
            }
            while !fs.is_empty() {
                poll!(0);
            }
        }
        if closed > 1 && panics > 0 {
            cov.nontrivial();
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- spawn ready
fn spawn(c: &Case, cov: &mut Cov) -> R {
    block_on(async {
        let w = World::new();
        let g = w.group(Group { credits: cr(c.credits), ..Default::default() });
        let mut s = SpawnReady::new(w.probe(g));
        let mut fs: Vec<(u64, usize, Pin<Box<_>>)> = vec![];
        let mut ready = false;
        let mut wait: Option<Arc<Flag>> = None;
        let mut next = 1;
        let (mut own, mut bg) = (0, 0);
        let mut lost = false;
        for &op in &c.ops {
            w.begin_step();
            match op {
                Op::Ready(_) | Op::Call(_) => {
                    match caught(|| with_waker(|cx| Service::<Req>::poll_ready(&mut s, cx)))? {
                        None => {
                            ensure!(!lost, "the panic of the background task was raised again");
                            own += 1;
                            ready = false;
                            cov.hit("the caller's own readiness check panicked");
                        }
                        Some((Poll::Ready(Ok(())), _)) => {
                            ensure!(!lost, "ready although the background task panicked");
                            ready = true;
                            wait = None;
                        }
                        Some((Poll::Ready(Err(e)), _)) => {
                            ensure!(lost, "readiness error {e:?} although nothing panicked");
                            ensure!(e.downcast_ref::<tokio::task::JoinError>().map_or(false, |j| j.is_panic()), "the background panic is reported as {e:?}");
                            bg += 1;
                            break;
                        }
                        Some((Poll::Pending, f)) => {
                            ensure!(!lost, "pending although the background task panicked: the caller hangs");
                            ensure!(!ready, "readiness withdrawn");
                            wait = Some(f);
                        }
                    }
                    if ready && matches!(op, Op::Call(_)) {
                        ready = false;
                        let n = w.ncalls();
                        match caught(|| s.call(req(next)))? {
                            None => {
                                own += 1;
                                cov.hit("the caller's call panicked")
                            }
                            Some(f) => fs.push((next, n, Box::pin(f))),
                        }
                        next += 1;
                    }
                }
                Op::Poll(i) if !fs.is_empty() => {
                    let i = i as usize % fs.len();
                    let (id, call, f) = &mut fs[i];
                    let st = w.lock().calls[*call].st.clone();
                    match (st, caught(|| poll_fut(f.as_mut()).0)?) {
                        (CallSt::Done(Err(PANIC)), None) => {}
                        (CallSt::Waiting, Some(Poll::Pending)) => continue,
                        (CallSt::Done(Ok(())), Some(Poll::Ready(Ok(r)))) if r.req == *id => {}
                        (CallSt::Done(Err(e)), Some(Poll::Ready(Err(x)))) if find_perr(x.as_ref()) == Some(e) => {}
                        (st, r) => return Err(format!("request {id}: inner call is {st:?} but outcome {r:?}")),
                    }
                    fs.remove(i);
                }
                Op::DropFut(i) if !fs.is_empty() => drop(fs.remove(i as usize % fs.len())),
                Op::Complete(i, k) if !fs.is_empty() => {
                    let (id, call, _) = &fs[i as usize % fs.len()];
                    w.complete(*call, outcome(k, *id));
                }
                Op::Credits(n) => w.set_credits(g, cr(n)),
                Op::ArmReady(_) => {
                    w.lock().groups[g].panic_ready = true;
                    // a waiting service panics when it is polled next
                    let c = w.lock().groups[g].credits;
                    w.set_credits(g, c);
                }
                Op::ArmCall(_) => w.lock().groups[g].panic_call = true,
                _ => {}
            }
            settle().await;
            if background()? {
                lost = true;
                cov.hit("background readiness panicked");
                ensure!(wait.as_ref().map_or(true, |f| f.woken()), "the background task panicked but the waiting caller was not woken");
                ensure!(w.live_svcs() == 0, "the inner service survives its background task");
            }
            if let Some(v) = w.violation() {
                return Err(v);
            }
        }
        // requests already dispatched are not affected
        for (id, call, mut f) in fs {
            if w.complete(call, Ok(())) {
                let Some(r) = caught(|| poll_fut(f.as_mut()).0)? else { return Err("panic in another request's future".into()) };
                ensure!(matches!(&r, Poll::Ready(Ok(r)) if r.req == id), "request {id}: wrong outcome {r:?}");
            }
        }
        if bg > 0 || own > 0 {
            cov.nontrivial();
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- load
fn number(s: &str) -> f64 {
    let t: String = s.chars().filter(|c| c.is_ascii_digit() || "+-.e".contains(*c)).collect();
    t.parse().unwrap_or(f64::NAN)
}
fn load(c: &Case, cov: &mut Cov) -> R {
    fn go<S>(c: &Case, cov: &mut Cov, w: &World, g: usize, mut s: S, count: fn(&S) -> u64) -> R
    where
        S: Service<Req, Response = Resp, Error = PErr>,
        S::Future: 'static,
    {
        let mut fs: Vec<(usize, Pin<Box<S::Future>>)> = vec![];
        let mut ready = false;
        let mut panics = 0;
        for &op in &c.ops {
            w.begin_step();
            match op {
                Op::Ready(_) | Op::Call(_) => {
                    match caught(|| with_waker(|cx| s.poll_ready(cx)).0)? {
                        None => {
                            panics += 1;
                            ready = false
                        }
                        Some(r) => ready = matches!(r, Poll::Ready(Ok(()))),
                    }
                    if ready && matches!(op, Op::Call(_)) {
                        ready = false;
                        let n = w.ncalls();
                        match caught(|| s.call(req(1)))? {
                            None => panics += 1,
                            Some(f) => fs.push((n, Box::pin(f))),
                        }
                    }
                }
                Op::Poll(i) if !fs.is_empty() => {
                    let i = i as usize % fs.len();
                    match caught(|| poll_fut(fs[i].1.as_mut()).0)? {
                        Some(Poll::Pending) => {}
                        r => {
                            panics += r.is_none() as u32;
                            drop(fs.remove(i))
                        }
                    }
                }
                Op::DropFut(i) if !fs.is_empty() => drop(fs.remove(i as usize % fs.len())),
                Op::Complete(i, k) if !fs.is_empty() => {
                    w.complete(fs[i as usize % fs.len()].0, outcome(k, 1));
                }
                Op::Credits(n) => w.set_credits(g, cr(n)),
                Op::ArmReady(_) => w.lock().groups[g].panic_ready = true,
                Op::ArmCall(_) => w.lock().groups[g].panic_call = true,
                _ => {}
            }
            let Some(l) = caught(|| count(&s))? else { return Err("load panicked".into()) };
            ensure!(l == fs.len() as u64, "load {l} with {} requests unfinished after {panics} panics", fs.len());
        }
        if panics > 0 && !fs.is_empty() {
            cov.nontrivial();
        }
        Ok(())
    }
    block_on(async {
        let w = World::new();
        let g = w.group(Group { credits: cr(c.credits), ..Default::default() });
        if c.n % 2 == 0 {
            go(c, cov, &w, g, PendingRequests::new(w.probe(g), CompleteOnResponse::default()), |s| number(&format!("{:?}", s.load())) as u64)
        } else {
            // the clock stands still: the estimate stays what it was at the start
            let s = PeakEwma::new(w.probe(g), std::time::Duration::from_secs(1), 1e9, CompleteOnResponse::default());
            go(c, cov, &w, g, s, |s| (number(&format!("{:?}", s.load())) / 1e9).round() as u64 - 1)
        }
    })
}

// ---------------------------------------------------------------- balance
fn balance(c: &Case, cov: &mut Cov) -> R {
    block_on(async {
        let w = World::new();
        let disc = Disc::default();
        let reads = Arc::new(Mutex::new(vec![]));
        let k = c.n as usize + 1;
        let gs: Vec<usize> = (0..k).map(|i| w.group(Group { credits: cr(c.credits), load: i as u64, ..Default::default() })).collect();
        // which instance is the current one of a key; None once it was removed or panicked
        let mut cur: BTreeMap<usize, usize> = BTreeMap::new();
        let mut suspect: Vec<usize> = vec![];
        let mut gone: Vec<usize> = vec![];
        for i in 0..k {
            let p = w.probe(gs[i]);
            cur.insert(i, p.id);
            disc.push(Item::Insert(i as u8, LP { p, reads: reads.clone() }));
        }
        let mut s = Balance::new(disc.clone());
        let mut fs: Vec<(usize, u64, Pin<Box<_>>)> = vec![];
        let mut next = 1;
        let (mut panics, mut served_after) = (0, 0);
        let mut ready = false;
        for &op in &c.ops {
            w.begin_step();
            match op {
                Op::Ready(_) | Op::Call(_) => {
                    let res = caught(|| with_waker(|cx| s.poll_ready(cx)))?;
                    if res.is_some() {
                        for id in &gone {
                            ensure!(!w.svc(*id).alive, "removed endpoint {id} was not dropped");
                        }
                    }
                    match res {
                        None => {
                            panics += 1;
                            ready = false;
                            cov.hit("readiness check panicked");
                        }
                        Some((Poll::Ready(Ok(())), _)) => ready = true,
                        Some((Poll::Ready(Err(e)), _)) => return Err(format!("the balancer failed with {e:?}")),
                        Some((Poll::Pending, _)) => {
                            ensure!(!ready || !suspect.is_empty(), "readiness withdrawn");
                            ready = false;
                            // an endpoint that never panicked and would answer keeps the balancer ready
                            for (i, id) in &cur {
                                if !suspect.contains(i) && !w.lock().groups[gs[*i]].panic_ready {
                                    ensure!(!w.answers(*id), "pending although endpoint {i}, which did not panic, is ready");
                                }
                            }
                        }
                    }
                    if ready && matches!(op, Op::Call(_)) {
                        ready = false;
                        let n = w.ncalls();
                        match caught(|| s.call(req(next)))? {
                            None => {
                                panics += 1;
                                cov.hit("call panicked");
                            }
                            Some(f) => {
                                let id = w.lock().calls[n].svc;
                                ensure!(!gone.contains(&id), "request sent to removed endpoint {id}");
                                fs.push((n, next, Box::pin(f)));
                                if panics > 0 {
                                    served_after += 1;
                                }
                            }
                        }
                        next += 1;
                    }
                }
                Op::Poll(i) if !fs.is_empty() => {
                    let i = i as usize % fs.len();
                    let (call, id, f) = &mut fs[i];
                    let st = w.lock().calls[*call].st.clone();
                    match (st, caught(|| poll_fut(f.as_mut()).0)?) {
                        (CallSt::Done(Err(PANIC)), None) => panics += 1,
                        (CallSt::Waiting, Some(Poll::Pending)) => continue,
                        (CallSt::Done(Ok(())), Some(Poll::Ready(Ok(r)))) if r.req == *id => {}
                        (CallSt::Done(Err(e)), Some(Poll::Ready(Err(x)))) if find_perr(x.as_ref()) == Some(e) => {}
                        (st, r) => return Err(format!("request {id}: inner call is {st:?} but outcome {r:?}")),
                    }
                    fs.remove(i);
                }
                Op::DropFut(i) if !fs.is_empty() => drop(fs.remove(i as usize % fs.len())),
                Op::Complete(i, o) if !fs.is_empty() => {
                    let (call, id, _) = &fs[i as usize % fs.len()];
                    w.complete(*call, outcome(o, *id));
                }
                Op::Credits(n) => gs.iter().for_each(|g| w.set_credits(*g, cr(n))),
                Op::ArmReady(i) => {
                    let i = i as usize % k;
                    w.lock().groups[gs[i]].panic_ready = true;
                    suspect.push(i);
                }
                Op::ArmCall(i) => {
                    let i = i as usize % k;
                    w.lock().groups[gs[i]].panic_call = true;
                    suspect.push(i);
                }
                Op::Remove(i) => {
                    let i = i as usize % k;
                    if let Some(id) = cur.remove(&i) {
                        gone.push(id);
                        disc.push(Item::Remove(i as u8));
                        ready = false;
                    }
                }
                Op::Insert(i) => {
                    let i = i as usize % k;
                    if !cur.contains_key(&i) {
                        let mut x = w.lock();
                        x.groups[gs[i]].panic_ready = false;
                        x.groups[gs[i]].panic_call = false;
                        drop(x);
                        cov.hit_if(suspect.contains(&i), "replaced after a panic");
                        suspect.retain(|s| *s != i);
                        let p = w.probe(gs[i]);
                        cur.insert(i, p.id);
                        disc.push(Item::Insert(i as u8, LP { p, reads: reads.clone() }));
                    }
                }
                _ => {}
            }
            settle().await;
            if let Some(v) = w.violation() {
                return Err(v);
            }
        }
        cov.hit_if(served_after > 0, "served after a panic");
        if panics > 0 && served_after > 0 {
            cov.nontrivial();
        }
        drop(fs);
        drop(s);
        drop(disc);
        ensure!(w.live_svcs() == 0, "{} endpoints outlive the balancer", w.live_svcs());
        Ok(())
    })
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C35",
        assumptions: &["panics unwind", "a response future, and a spawn-ready service whose background task panicked, is not used again after its panic"],
        subs: vec![
            sub("limit", "something panicked and a caller had to wait", 150_000, || arb(6, 6, 0), limit),
            sub("buffer", "the worker panicked and at least two requests or handles got a closed error", 200_000, || arb(6, 6, 0), buffer),
            sub("spawn-ready", "a readiness check or call panicked", 100_000, || arb(12, 6, 0), spawn),
            sub("load", "something panicked while a request was unfinished", 100_000, || arb(6, 6, 0), load),
            sub("balance", "an endpoint panicked and a request was served later", 100_000, || arb(8, 8, 8), balance),
        ],
    }]
}
