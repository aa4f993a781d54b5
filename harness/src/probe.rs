//! The instrumented world: probe services whose readiness, responses and failures the case controls, and that check
//! the service protocol at the receiving end.
use std::collections::BTreeMap;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Wake, Waker};
use tower_service::Service;

/// Shows who still has a request or a response: every copy of either has a clone of the same token.
#[derive(Clone, Default)]
pub struct Hold(Option<Arc<()>>);
impl Hold {
    pub fn new() -> Hold {
        Hold(Some(Arc::new(())))
    }
    /// How many besides this one there are.
    pub fn others(&self) -> usize {
        self.0.as_ref().map_or(0, |a| Arc::strong_count(a) - 1)
    }
}
impl fmt::Debug for Hold {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("_")
    }
}
impl PartialEq for Hold {
    fn eq(&self, _: &Hold) -> bool {
        true
    }
}
impl Eq for Hold {}
impl std::hash::Hash for Hold {
    fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}

/// A request. `val` may be rewritten by middleware under test; `id` identifies it.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Req {
    pub id: u64,
    pub val: u64,
    pub hold: Hold,
}
pub fn req(id: u64) -> Req {
    Req { id, val: id, hold: Hold::default() }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Resp {
    pub req: u64,
    pub val: u64,
    pub call: usize,
    pub svc: usize,
    pub hold: Hold,
}
/// Error with a unique identity.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct PErr(pub u64);
impl fmt::Display for PErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "probe error {}", self.0)
    }
}
impl std::error::Error for PErr {}
pub type BoxError = Box<dyn std::error::Error + Send + Sync>;

/// Finds a `PErr` in an error or its source chain.
pub fn find_perr(e: &(dyn std::error::Error + 'static)) -> Option<u64> {
    let mut cur = Some(e);
    while let Some(e) = cur {
        if let Some(p) = e.downcast_ref::<PErr>() {
            return Some(p.0);
        }
        cur = e.source();
    }
    None
}

/// An inner response future completed with this error panics when it is polled.
pub const PANIC: u64 = u64::MAX - 7;
pub const PANIC_MSG: &str = "probe panic";
pub const FREE: u64 = u64::MAX / 4;

#[derive(Debug, Clone)]
pub struct Group {
    /// readiness grants left (each Ready given to an instance takes one, returned if the instance is dropped unused)
    pub credits: u64,
    pub fail_ready: Option<u64>,
    /// the next readiness check fails with this, later ones do not
    pub fail_once: Option<u64>,
    /// number of Pending results, each with an immediate wake, before a readiness check is answered
    pub hiccups: u32,
    /// outcome given to new calls immediately: None = the case completes them
    pub auto: Option<Result<(), u64>>,
    /// first poll_ready failure makes the instance stay failed
    pub load: u64,
    /// the next readiness check panics
    pub panic_ready: bool,
    /// the next call panics
    pub panic_call: bool,
}
impl Default for Group {
    fn default() -> Self {
        Group { credits: FREE, fail_ready: None, fail_once: None, hiccups: 0, auto: None, load: 0, panic_ready: false, panic_call: false }
    }
}

#[derive(Debug, Clone)]
pub struct SvcSt {
    pub group: usize,
    pub parent: Option<usize>,
    pub alive: bool,
    pub ready: bool,
    pub failed: Option<u64>,
    /// the last one-time failure it reported
    pub blip: Option<u64>,
    pub waker: Option<Waker>,
    pub polls: u64,
    pub calls: u64,
}

#[derive(Debug, Clone, PartialEq)]
pub enum CallSt {
    Waiting,
    Done(Result<(), u64>),
    Taken(Result<(), u64>),
}
#[derive(Debug, Clone)]
pub struct CallRec {
    pub req: Req,
    pub svc: usize,
    pub group: usize,
    pub st: CallSt,
    pub alive: bool,
    pub waker: Option<Waker>,
    pub polls: u64,
}

#[derive(Default)]
pub struct Inner {
    pub groups: Vec<Group>,
    pub svcs: Vec<SvcSt>,
    pub calls: Vec<CallRec>,
    pub violations: Vec<String>,
    pub polls_in_step: u64,
    /// panics in readiness checks and calls
    pub panics_in_service: u64,
    pub notes: BTreeMap<&'static str, u64>,
    /// while this is set, clones of a group's instances go to the group given here
    pub twins: BTreeMap<usize, usize>,
    /// dropped by the next readiness check or call of an inner service, while it runs
    pub later: Vec<Later>,
}

/// A future or handle that is dropped from within an inner service; the flag shows that it is gone.
pub struct Later(pub Option<Box<dyn std::any::Any + Send>>, pub Arc<std::sync::atomic::AtomicBool>);
impl Drop for Later {
    fn drop(&mut self) {
        self.0 = None;
        self.1.store(true, Ordering::SeqCst);
    }
}

#[derive(Clone, Default)]
pub struct World(Arc<Mutex<Inner>>);

const POLL_BUDGET: u64 = 20_000;

impl Inner {
    fn tick(&mut self) {
        self.polls_in_step += 1;
        if self.polls_in_step > POLL_BUDGET {
            self.polls_in_step = 0;
            panic!("livelock: more than {POLL_BUDGET} inner polls within one step");
        }
    }
    fn take_wakers(&mut self, group: usize) -> Vec<Waker> {
        self.svcs
            .iter_mut()
            .filter(|s| s.group == group && s.alive)
            .filter_map(|s| s.waker.take())
            .collect()
    }
}

impl World {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        // a panic in tower code while the lock is held cannot happen (we never call out under it), except the
        // livelock panic above, after which the state is still consistent
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn group(&self, g: Group) -> usize {
        let mut w = self.lock();
        w.groups.push(g);
        w.groups.len() - 1
    }
    pub fn probe(&self, group: usize) -> Probe {
        let mut w = self.lock();
        crate::core::uncounted(|| w.svcs.push(SvcSt {
            group,
            parent: None,
            alive: true,
            ready: false,
            failed: None,
            blip: None,
            waker: None,
            polls: 0,
            calls: 0,
        }));
        let id = w.svcs.len() - 1;
        drop(w);
        Probe { id, world: self.clone() }
    }
    /// One free-running group and a probe in it.
    pub fn simple() -> (World, Probe) {
        let w = World::new();
        let g = w.group(Group::default());
        let p = w.probe(g);
        (w, p)
    }
    pub fn begin_step(&self) {
        self.lock().polls_in_step = 0;
    }
    pub fn set_credits(&self, g: usize, n: u64) {
        let ws = {
            let mut w = self.lock();
            w.groups[g].credits = n;
            if n > 0 {
                w.take_wakers(g)
            } else {
                vec![]
            }
        };
        ws.into_iter().for_each(Waker::wake);
    }
    pub fn add_credits(&self, g: usize, n: u64) {
        let c = self.lock().groups[g].credits;
        self.set_credits(g, (c + n).min(FREE));
    }
    pub fn set_fail(&self, g: usize, e: Option<u64>) {
        let ws = {
            let mut w = self.lock();
            w.groups[g].fail_ready = e;
            if e.is_some() {
                w.take_wakers(g)
            } else {
                vec![]
            }
        };
        ws.into_iter().for_each(Waker::wake);
    }
    /// Lets the next readiness check of the group fail, once.
    pub fn fail_once(&self, g: usize, e: u64) {
        let ws = {
            let mut w = self.lock();
            w.groups[g].fail_once = Some(e);
            w.take_wakers(g)
        };
        ws.into_iter().for_each(Waker::wake);
    }
    pub fn set_hiccups(&self, g: usize, n: u32) {
        self.lock().groups[g].hiccups = n;
    }
    pub fn set_load(&self, g: usize, n: u64) {
        self.lock().groups[g].load = n;
    }
    /// Completes call `i`; returns false if it was not waiting.
    pub fn complete(&self, i: usize, r: Result<(), u64>) -> bool {
        let wk = {
            let mut w = self.lock();
            let Some(c) = w.calls.get_mut(i) else { return false };
            if c.st != CallSt::Waiting {
                return false;
            }
            c.st = CallSt::Done(r);
            c.waker.take()
        };
        if let Some(wk) = wk {
            wk.wake();
        }
        true
    }
    pub fn waiting_calls(&self) -> Vec<usize> {
        let w = self.lock();
        (0..w.calls.len())
            .filter(|&i| w.calls[i].st == CallSt::Waiting && w.calls[i].alive)
            .collect()
    }
    pub fn ncalls(&self) -> usize {
        self.lock().calls.len()
    }
    pub fn calls_of(&self, id: u64) -> Vec<usize> {
        let w = self.lock();
        (0..w.calls.len()).filter(|&i| w.calls[i].req.id == id).collect()
    }
    pub fn in_flight(&self) -> usize {
        self.lock()
            .calls
            .iter()
            .filter(|c| c.alive && !matches!(c.st, CallSt::Taken(_)))
            .count()
    }
    pub fn live_svcs(&self) -> usize {
        self.lock().svcs.iter().filter(|s| s.alive).count()
    }
    pub fn live_futs(&self) -> usize {
        self.lock().calls.iter().filter(|c| c.alive).count()
    }
    pub fn violation(&self) -> Option<String> {
        self.lock().violations.first().cloned()
    }
    pub fn is_ready(&self, svc: usize) -> bool {
        self.lock().svcs[svc].ready
    }
}

pub struct Probe {
    pub id: usize,
    pub world: World,
}
impl fmt::Debug for Probe {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Probe({})", self.id)
    }
}
impl Clone for Probe {
    fn clone(&self) -> Self {
        let mut w = self.world.lock();
        let group = w.svcs[self.id].group;
        let group = w.twins.get(&group).copied().unwrap_or(group);
        crate::core::uncounted(|| w.svcs.push(SvcSt {
            group,
            parent: Some(self.id),
            alive: true,
            ready: false,
            failed: None,
            blip: None,
            waker: None,
            polls: 0,
            calls: 0,
        }));
        let id = w.svcs.len() - 1;
        drop(w);
        Probe { id, world: self.world.clone() }
    }
}
impl Drop for Probe {
    fn drop(&mut self) {
        let ws = {
            let mut w = self.world.lock();
            let g = w.svcs[self.id].group;
            w.svcs[self.id].alive = false;
            w.svcs[self.id].waker = None;
            if w.svcs[self.id].ready {
                w.svcs[self.id].ready = false;
                if w.groups[g].credits < FREE {
                    w.groups[g].credits += 1;
                }
                w.take_wakers(g)
            } else {
                vec![]
            }
        };
        ws.into_iter().for_each(Waker::wake);
    }
}

impl Service<Req> for Probe {
    type Response = Resp;
    type Error = PErr;
    type Future = ProbeFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), PErr>> {
        self.world.drop_later();
        let mut w = self.world.lock();
        w.tick();
        let id = self.id;
        w.svcs[id].polls += 1;
        let g = w.svcs[id].group;
        if w.groups[g].panic_ready {
            w.groups[g].panic_ready = false;
            w.panics_in_service += 1;
            drop(w);
            panic!("{PANIC_MSG}");
        }
        if let Some(e) = w.svcs[id].failed {
            return Poll::Ready(Err(PErr(e)));
        }
        if let Some(e) = w.groups[g].fail_ready {
            w.svcs[id].failed = Some(e);
            w.svcs[id].ready = false;
            return Poll::Ready(Err(PErr(e)));
        }
        if let Some(e) = w.groups[g].fail_once.take() {
            w.svcs[id].blip = Some(e);
            let ws = if w.svcs[id].ready {
                w.svcs[id].ready = false;
                if w.groups[g].credits < FREE {
                    w.groups[g].credits += 1;
                }
                w.take_wakers(g)
            } else {
                vec![]
            };
            drop(w);
            ws.into_iter().for_each(Waker::wake);
            return Poll::Ready(Err(PErr(e)));
        }
        if w.svcs[id].ready {
            return Poll::Ready(Ok(()));
        }
        if w.groups[g].hiccups > 0 {
            w.groups[g].hiccups -= 1;
            drop(w);
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if w.groups[g].credits > 0 {
            if w.groups[g].credits < FREE {
                w.groups[g].credits -= 1;
            }
            w.svcs[id].ready = true;
            w.svcs[id].waker = None;
            Poll::Ready(Ok(()))
        } else {
            w.svcs[id].waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
    fn call(&mut self, mut req: Req) -> ProbeFut {
        let hold = std::mem::take(&mut req.hold);
        self.world.drop_later();
        let mut w = self.world.lock();
        w.tick();
        let id = self.id;
        if !w.svcs[id].ready {
            let msg = format!(
                "request {} dispatched to inner instance {} (clone of {:?}) which has not reported ready since its last call{}",
                req.id,
                id,
                w.svcs[id].parent,
                if w.svcs[id].failed.is_some() { " (it had failed)" } else { "" }
            );
            w.violations.push(msg);
        }
        w.svcs[id].ready = false;
        w.svcs[id].calls += 1;
        let group = w.svcs[id].group;
        if w.groups[group].panic_call {
            w.groups[group].panic_call = false;
            w.panics_in_service += 1;
            drop(w);
            panic!("{PANIC_MSG}");
        }
        let st = match w.groups[group].auto {
            Some(r) => CallSt::Done(r),
            None => CallSt::Waiting,
        };
        crate::core::uncounted(|| w.calls.push(CallRec { req, svc: id, group, st, alive: true, waker: None, polls: 0 }));
        let n = w.calls.len() - 1;
        drop(w);
        ProbeFut { n, world: self.world.clone(), hold }
    }
}

impl tower::load::Load for Probe {
    type Metric = u64;
    fn load(&self) -> u64 {
        let w = self.world.lock();
        w.groups[w.svcs[self.id].group].load
    }
}

#[derive(Debug)]
pub struct ProbeFut {
    pub n: usize,
    world: World,
    /// the response has the token of its request
    hold: Hold,
}
impl fmt::Debug for World {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("World")
    }
}
impl Future for ProbeFut {
    type Output = Result<Resp, PErr>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = &mut *self;
        let mut w = me.world.lock();
        w.tick();
        let n = me.n;
        w.calls[n].polls += 1;
        match w.calls[n].st.clone() {
            CallSt::Waiting => {
                w.calls[n].waker = Some(cx.waker().clone());
                Poll::Pending
            }
            CallSt::Done(r) => {
                w.calls[n].st = CallSt::Taken(r);
                if r == Err(PANIC) {
                    drop(w);
                    panic!("{PANIC_MSG}");
                }
                let c = &w.calls[n];
                Poll::Ready(match r {
                    Ok(()) => Ok(Resp { req: c.req.id, val: c.req.val, call: n, svc: c.svc, hold: std::mem::take(&mut me.hold) }),
                    Err(e) => Err(PErr(e)),
                })
            }
            CallSt::Taken(_) => {
                let msg = format!("inner response future of request {} polled after completion", w.calls[n].req.id);
                w.violations.push(msg);
                Poll::Pending
            }
        }
    }
}
impl Drop for ProbeFut {
    fn drop(&mut self) {
        let mut w = self.world.lock();
        w.calls[self.n].alive = false;
        w.calls[self.n].waker = None;
    }
}

/// A waker that counts wakes; the harness uses a new one for every poll.
#[derive(Default)]
pub struct Flag(AtomicUsize);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
impl Flag {
    pub fn new() -> Arc<Flag> {
        Arc::new(Flag::default())
    }
    pub fn woken(&self) -> bool {
        self.0.load(Ordering::SeqCst) > 0
    }
}

/// Polls `f` with a new waker; returns the result and the flag.
pub fn with_waker<T>(f: impl FnOnce(&mut Context<'_>) -> T) -> (T, Arc<Flag>) {
    let flag = Flag::new();
    let w: Waker = flag.clone().into();
    let mut cx = Context::from_waker(&w);
    (f(&mut cx), flag)
}

pub fn poll_fut<F: Future + ?Sized>(f: Pin<&mut F>) -> (Poll<F::Output>, Arc<Flag>) {
    with_waker(|cx| f.poll(cx))
}

impl World {
    pub fn drop_later(&self) {
        let gone = std::mem::take(&mut self.lock().later);
        drop(gone);
    }
    /// Takes back a reported readiness (a lost connection, say); a new grant is needed.
    pub fn revoke(&self, svc: usize) {
        self.lock().svcs[svc].ready = false;
    }
    pub fn svc(&self, id: usize) -> SvcSt {
        self.lock().svcs[id].clone()
    }
    /// Would instance `id` answer a readiness check with something else than pending?
    pub fn answers(&self, id: usize) -> bool {
        let x = self.lock();
        let s = &x.svcs[id];
        s.ready || s.failed.is_some() || x.groups[s.group].fail_ready.is_some() || x.groups[s.group].fail_once.is_some() || x.groups[s.group].credits > 0
    }
}
