//! Buffer and concurrency limit used from several threads, with generated preemption points (see `sched`).
use crate::core::*;
use crate::ensure;
use crate::sched;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tower::buffer::Buffer;
use tower::limit::ConcurrencyLimit;
use tower::BoxError;
use tower_service::Service;

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub enum COp {
    Call,
    Reserve,
    /// wait for the n-th outstanding response
    Await(u8),
    DropFut(u8),
    DropHandle,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct RaceCase {
    bound: u8,
    /// over the buffer: a shared limit of this many requests in progress
    limit: Option<u8>,
    clients: Vec<Vec<COp>>,
    /// the inner service fails at its n-th readiness check
    fail_at: Option<u8>,
    /// the worker is dropped instead of its n-th poll
    drop_at: Option<u8>,
    /// responses wait to be released by another task
    slow: bool,
    choices: Vec<u8>,
}

pub fn arb(faults: bool, limited: bool) -> impl Strategy<Value = RaceCase> {
    let op = weighted(vec![
        (60, Just(COp::Call).boxed()),
        (15, Just(COp::Reserve).boxed()),
        (25, (0u8..4).prop_map(COp::Await).boxed()),
        (15, (0u8..4).prop_map(COp::DropFut).boxed()),
        (4, Just(COp::DropHandle).boxed()),
    ]);
    let fault = if faults {
        prop_oneof![3 => (1u8..6).prop_map(|n| (Some(n), None)), 2 => (0u8..6).prop_map(|n| (None, Some(n)))].boxed()
    } else {
        Just((None, None)).boxed()
    };
    let lim = if limited { (1u8..4).prop_map(Some).boxed() } else { prop_oneof![4 => Just(None), 1 => (1u8..4).prop_map(Some)].boxed() };
    let choice = prop_oneof![6 => Just(0u8), 4 => 1u8..5];
    (
        1u8..4,
        lim,
        proptest::collection::vec(proptest::collection::vec(op, 1..7), 1..4),
        fault,
        any::<bool>(),
        proptest::collection::vec(choice, 0..160),
    )
        .prop_map(|(bound, limit, clients, (fail_at, drop_at), slow, choices)| RaceCase { bound, limit, clients, fail_at, drop_at, slow, choices })
}

#[derive(Default)]
struct Shared {
    polls: u32,
    failed: bool,
    worker_gone: bool,
    worker_done: bool,
    alive: bool,
    dispatched: Vec<u64>,
    in_flight: u32,
    max_in_flight: u32,
    waiting: Vec<Waker>,
    responder: Option<Waker>,
    errors: Vec<String>,
    finished: usize,
    clients_left: usize,
}
type Sh = Arc<Mutex<Shared>>;
#[derive(Debug)]
struct Boom;
impl std::fmt::Display for Boom {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "boom")
    }
}
impl std::error::Error for Boom {}

struct Inner {
    sh: Sh,
    fail_at: Option<u8>,
    slow: bool,
    ready: bool,
}
impl Drop for Inner {
    fn drop(&mut self) {
        self.sh.lock().unwrap().alive = false;
        sched::yield_point();
    }
}
impl Service<u64> for Inner {
    type Response = u64;
    type Error = Boom;
    type Future = Fut;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Boom>> {
        sched::yield_point();
        let mut s = self.sh.lock().unwrap();
        s.polls += 1;
        if s.failed {
            s.errors.push("the failed service was polled again".into());
        }
        if self.fail_at.map_or(false, |n| s.polls >= n as u32) {
            s.failed = true;
            drop(s);
            sched::yield_point();
            return Poll::Ready(Err(Boom));
        }
        self.ready = true;
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, id: u64) -> Fut {
        sched::yield_point();
        let mut s = self.sh.lock().unwrap();
        if !self.ready {
            s.errors.push(format!("request {id} dispatched to a service that has not reported ready"));
        }
        self.ready = false;
        if s.dispatched.contains(&id) {
            s.errors.push(format!("request {id} dispatched twice"));
        }
        if s.dispatched.iter().any(|d| d / 1000 == id / 1000 && *d > id) {
            s.errors.push(format!("request {id} dispatched after a later request of the same handle"));
        }
        s.dispatched.push(id);
        s.in_flight += 1;
        s.max_in_flight = s.max_in_flight.max(s.in_flight);
        drop(s);
        sched::yield_point();
        Fut { sh: self.sh.clone(), id, polled: !self.slow, over: false }
    }
}
struct Fut {
    sh: Sh,
    id: u64,
    polled: bool,
    over: bool,
}
impl Future for Fut {
    type Output = Result<u64, Boom>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        sched::yield_point();
        if !self.polled {
            // pending once; the responder task wakes it
            self.polled = true;
            let r = {
                let mut s = self.sh.lock().unwrap();
                s.waiting.push(cx.waker().clone());
                s.responder.take()
            };
            if let Some(r) = r {
                r.wake()
            }
            return Poll::Pending;
        }
        if !self.over {
            self.over = true;
            self.sh.lock().unwrap().in_flight -= 1;
        }
        Poll::Ready(Ok(self.id))
    }
}
impl Drop for Fut {
    fn drop(&mut self) {
        if !self.over {
            self.sh.lock().unwrap().in_flight -= 1;
        }
        sched::yield_point();
    }
}

/// what a client got for a request
fn judge(sh: &Sh, id: u64, out: Result<u64, BoxError>) {
    let mut s = sh.lock().unwrap();
    let was = s.dispatched.contains(&id);
    let m = match out {
        Ok(r) if r != id => Some(format!("request {id} got the response of request {r}")),
        Ok(_) if !was => Some(format!("request {id} was never dispatched but got a response")),
        Ok(_) => None,
        Err(e) if was => Some(format!("request {id} was dispatched and answered but got {e:?}")),
        Err(e) => err(&s, &e, &format!("request {id}")),
    };
    s.errors.extend(m);
}
fn err(s: &Shared, e: &BoxError, what: &str) -> Option<String> {
    if let Some(x) = e.downcast_ref::<tower::buffer::error::ServiceError>() {
        let inner = std::error::Error::source(x).map_or(false, |i| i.is::<Boom>());
        return if !s.failed {
            Some(format!("{what} got {e:?} although the service has not failed"))
        } else if !inner {
            Some(format!("{what} got {e:?}, which does not carry the service's error"))
        } else {
            None
        };
    }
    if e.is::<tower::buffer::error::Closed>() {
        return if s.failed {
            Some(format!("{what} got {e:?} instead of the error the service failed with"))
        } else if !s.worker_gone {
            Some(format!("{what} got {e:?} although the worker has not been dropped"))
        } else {
            None
        };
    }
    Some(format!("{what} got {e:?}"))
}

fn client<S>(sh: Sh, who: usize, ops: Vec<COp>, svc: S)
where
    S: Service<u64, Response = u64, Error = BoxError>,
{
    let mut svc = Some(svc);
    let mut ready = false;
    let mut futs: Vec<(u64, Pin<Box<S::Future>>)> = vec![];
    let mut next = 1000 * (who as u64 + 1);
    let mut hung = None;
    macro_rules! wait_ready {
        () => {{
            let s = svc.as_mut().unwrap();
            loop {
                let wk = sched::waker();
                match s.poll_ready(&mut Context::from_waker(&wk)) {
                    Poll::Ready(Ok(())) => {
                        ready = true;
                        break true;
                    }
                    Poll::Ready(Err(e)) => {
                        let mut g = sh.lock().unwrap();
                        let m = err(&g, &e, "a readiness check");
                        g.errors.extend(m);
                        break false;
                    }
                    Poll::Pending => {
                        if !sched::block() {
                            hung = Some("a readiness check".to_string());
                            break false;
                        }
                    }
                }
            }
        }};
    }
    macro_rules! wait_fut {
        ($i:expr) => {{
            let (id, mut f) = futs.remove($i);
            loop {
                let wk = sched::waker();
                match f.as_mut().poll(&mut Context::from_waker(&wk)) {
                    Poll::Ready(r) => {
                        drop(f);
                        judge(&sh, id, r);
                        break;
                    }
                    Poll::Pending => {
                        if !sched::block() {
                            hung = Some(format!("request {id}"));
                            break;
                        }
                    }
                }
            }
        }};
    }
    for op in ops {
        sched::yield_point();
        match op {
            COp::Call | COp::Reserve if svc.is_some() => {
                // a handle that waits for capacity must not keep finished work of its own
                if !ready {
                    while futs.len() >= 1 && !LOOSE.with(|l| l.get()) {
                        wait_fut!(0);
                        if hung.is_some() {
                            break;
                        }
                    }
                    if hung.is_some() || !wait_ready!() {
                        break;
                    }
                }
                if matches!(op, COp::Call) {
                    next += 1;
                    ready = false;
                    let f = svc.as_mut().unwrap().call(next);
                    futs.push((next, Box::pin(f)));
                }
            }
            COp::Await(k) if !futs.is_empty() => wait_fut!(k as usize % futs.len()),
            COp::DropFut(k) if !futs.is_empty() => {
                let k = k as usize % futs.len();
                let _ = futs.remove(k);
            }
            COp::DropHandle => svc = None,
            _ => {}
        }
        if hung.is_some() {
            break;
        }
    }
    drop(svc);
    while !futs.is_empty() && hung.is_none() {
        wait_fut!(0);
    }
    let mut s = sh.lock().unwrap();
    s.finished += 1;
    s.clients_left -= 1;
    if let Some(h) = hung {
        s.errors.push(format!("{h} hangs: nothing can run any more"));
    }
    let r = s.responder.take();
    drop(s);
    if let Some(r) = r {
        r.wake()
    }
}
thread_local! {
    static LOOSE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn chk(c: &RaceCase, cov: &mut Cov) -> R {
    let sh: Sh = Arc::new(Mutex::new(Shared { alive: true, clients_left: c.clients.len(), ..Default::default() }));
    let inner = Inner { sh: sh.clone(), fail_at: c.fail_at, slow: c.slow, ready: false };
    let (buf, worker) = Buffer::<u64, Fut>::pair(inner, c.bound as usize);
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = vec![];
    let res: Arc<Mutex<Vec<String>>> = Default::default();
    let sem = c.limit.map(|n| Arc::new(tokio::sync::Semaphore::new(n as usize)));
    // a client without a limit of its own never waits for itself, however many responses it holds (places in the
    // queue are freed by the worker); with a limit it must finish what it started
    let mut handles: Vec<Buffer<u64, Fut>> = (1..c.clients.len()).map(|_| buf.clone()).collect();
    handles.push(buf);
    for (i, (ops, h)) in c.clients.iter().cloned().zip(handles).enumerate() {
        let (sh, res, sem) = (sh.clone(), res.clone(), sem.clone());
        tasks.push(Box::new(move || {
            let r = guarded(|| {
                sched::events_yield(|| match sem {
                    None => {
                        LOOSE.with(|l| l.set(true));
                        client(sh.clone(), i, ops, h)
                    }
                    Some(s) => client(sh.clone(), i, ops, ConcurrencyLimit::with_semaphore(h, s)),
                });
                Ok(())
            });
            if let Err(e) = r {
                res.lock().unwrap().push(e);
            }
        }));
    }
    {
        let (sh, res, drop_at) = (sh.clone(), res.clone(), c.drop_at);
        tasks.push(Box::new(move || {
            let r = guarded(|| {
                sched::events_yield(|| {
                    let mut w = Some(Box::pin(worker));
                    let mut polls = 0;
                    while let Some(wk) = w.as_mut() {
                        if drop_at == Some(polls) {
                            sh.lock().unwrap().worker_gone = true;
                            w = None;
                            break;
                        }
                        polls += 1;
                        let waker = sched::waker();
                        if wk.as_mut().poll(&mut Context::from_waker(&waker)).is_ready() {
                            sh.lock().unwrap().worker_done = true;
                            w = None;
                        } else if !sched::block() {
                            break;
                        }
                    }
                    drop(w);
                });
                Ok(())
            });
            if let Err(e) = r {
                res.lock().unwrap().push(e);
            }
        }));
    }
    if c.slow {
        // releases responses whenever it gets to run
        let sh = sh.clone();
        tasks.push(Box::new(move || loop {
            let ws = {
                let mut s = sh.lock().unwrap();
                if s.clients_left == 0 && s.waiting.is_empty() {
                    return;
                }
                std::mem::take(&mut s.waiting)
            };
            if ws.is_empty() {
                // let the others go on; runs again when somebody waits for a response
                let wk = sched::waker();
                {
                    let mut s = sh.lock().unwrap();
                    if s.clients_left == 0 || !s.waiting.is_empty() {
                        continue;
                    }
                    s.responder = Some(wk);
                }
                if !sched::block() {
                    return;
                }
            }
            for w in ws {
                w.wake();
            }
        }));
    }
    let (switches, points, takeovers) = sched::run(&c.choices, tasks);
    let s = sh.lock().unwrap();
    if let Some(e) = res.lock().unwrap().first() {
        return Err(e.clone());
    }
    if let Some(e) = s.errors.first() {
        return Err(e.clone());
    }
    ensure!(s.finished == c.clients.len(), "harness: {} of {} clients finished", s.finished, c.clients.len());
    ensure!(s.worker_done || s.worker_gone, "the worker does not finish although all handles are gone");
    ensure!(!s.alive, "the inner service is still alive although the worker is gone");
    if let Some(n) = c.limit {
        ensure!(s.max_in_flight <= n as u32, "{} requests in progress with a limit of {n}", s.max_in_flight);
    }
    cov.hit_if(takeovers > 0, "a task waited for a lock of a preempted one");
    cov.hit_if(s.failed, "inner failure");
    cov.hit_if(s.worker_gone, "worker dropped");
    cov.hit_if(points > 100, "more than 100 yield points");
    if switches >= 3 && s.dispatched.len() >= 1 && c.clients.len() >= 2 {
        cov.nontrivial();
    }
    Ok(())
}
