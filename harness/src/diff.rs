//! Drives a service with a random client history and records everything observable, for differential checks.
use crate::core::*;
use crate::probe::*;
use crate::rt;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::pin::Pin;
use std::sync::Arc;
use std::task::Poll;
use tower_service::Service;

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub enum DOp {
    Poll(u8),
    PollWoken(u8),
    Call(u8),
    Send(u8),
    Clone(u8),
    DropH(u8),
    Complete(u8, bool),
    PollFut(u8),
    DropFut(u8),
    Advance(u8),
    Gate(u8),
    Fail(u8),
    Hiccup(u8),
    Auto(u8),
}
pub fn arb_ops(max: usize) -> impl Strategy<Value = Vec<DOp>> {
    let h = 0u8..4;
    let op = prop_oneof![
        14 => h.clone().prop_map(DOp::Poll),
        6 => h.clone().prop_map(DOp::PollWoken),
        8 => h.clone().prop_map(DOp::Call),
        30 => h.clone().prop_map(DOp::Send),
        4 => h.clone().prop_map(DOp::Clone),
        3 => h.prop_map(DOp::DropH),
        20 => (0u8..8, prop::bool::weighted(0.6)).prop_map(|(a, b)| DOp::Complete(a, b)),
        24 => (0u8..8).prop_map(DOp::PollFut),
        4 => (0u8..8).prop_map(DOp::DropFut),
        10 => (0u8..40).prop_map(DOp::Advance),
        12 => (0u8..5).prop_map(DOp::Gate),
        2 => (0u8..4).prop_map(DOp::Fail),
        4 => (1u8..4).prop_map(DOp::Hiccup),
        4 => (0u8..4).prop_map(DOp::Auto),
    ];
    hist(op, max)
}

#[derive(Default)]
pub struct Log {
    /// what was observed at each step
    pub steps: Vec<String>,
    /// per step: which of the waiting callers have been woken
    pub wakes: Vec<Vec<bool>>,
    pub calls: usize,
    pub answers: usize,
    pub waits: usize,
    pub errors: usize,
    pub clones: usize,
    pub max_open: usize,
    /// polls besides the history
    pub again: usize,
}
impl Log {
    /// The first difference; `other` may wake more.
    pub fn differs(&self, other: &Log) -> Option<String> {
        for (i, (a, b)) in self.steps.iter().zip(&other.steps).enumerate() {
            if a != b {
                return Some(format!("step {i}: `{a}` against `{b}`"));
            }
            for (x, y) in self.wakes[i].iter().zip(&other.wakes[i]) {
                if *x && !*y {
                    return Some(format!("step {i} (`{a}`): a wakeup is missing"));
                }
            }
        }
        if self.steps.len() != other.steps.len() {
            return Some("histories of different length".into());
        }
        None
    }
}

pub fn err_text<E: Into<BoxError>>(e: E) -> String {
    let e: BoxError = e.into();
    // identity of the harness's own errors; shape of the others
    match find_perr(e.as_ref()) {
        Some(p) if e.downcast_ref::<PErr>().is_some() => format!("E{p}"),
        Some(p) => format!("{e}/E{p}"),
        None => format!("{e}"),
    }
}

/// What a driver does besides the history.
pub trait Hook<S: Service<Req>> {
    /// between steps, for each handle
    fn svc(&mut self, _s: &mut S) {}
    fn fut(&mut self, _f: &S::Future) {}
    fn before_call(&mut self, _s: &mut S) {}
    /// `to`: the instance that the call reached synchronously
    fn after_call(&mut self, _s: &mut S, _to: Option<usize>) {}
    fn discard(&mut self, s: S) {
        drop(s)
    }
    /// After this step, everything that waits and was not woken is polled this many times more. Flags: 1 the handles
    /// that wait, 2 the futures, 4 the handles that reported ready.
    fn again(&mut self) -> (u8, u8) {
        (0, 0)
    }
    /// what the case steers at this step
    fn group(&self, _step: usize, g: usize) -> usize {
        g
    }
}
impl<S: Service<Req>> Hook<S> for () {}

/// Runs the history. `cl` clones the service if it can be cloned.
pub async fn drive<S>(w: &World, g: usize, svc: S, cl: Option<fn(&S) -> S>, ops: &[DOp]) -> Log
where
    S: Service<Req, Response = Resp>,
    S::Error: Into<BoxError>,
{
    drive_with(w, g, svc, cl, ops, &mut ()).await
}
pub async fn drive_with<S>(w: &World, g: usize, svc: S, cl: Option<fn(&S) -> S>, ops: &[DOp], hook: &mut impl Hook<S>) -> Log
where
    S: Service<Req, Response = Resp>,
    S::Error: Into<BoxError>,
{
    let mut d = Driver::new(w, g, svc, cl);
    for &op in ops {
        d.step(op, hook).await;
    }
    d.finish(hook).await
}

struct H<S> {
    s: Option<S>,
    ready: bool,
    failed: bool,
    flag: Option<Arc<Flag>>,
}
struct F<F> {
    f: Option<Pin<Box<F>>>,
    flag: Option<Arc<Flag>>,
}
pub struct Driver<S: Service<Req>> {
    w: World,
    g: usize,
    cl: Option<fn(&S) -> S>,
    hs: Vec<H<S>>,
    futs: Vec<F<S::Future>>,
    next: u64,
    step: usize,
    /// if not empty: the groups that belong to this driver's part of the world
    pub own: Vec<usize>,
    /// notes only what requests and callers can tell: not how many instances there are
    pub brief: bool,
    /// polls a response future at once
    pub eager: bool,
    /// does not check the readiness of what is ready
    pub once: bool,
    pub log: Log,
}
impl<S> Driver<S>
where
    S: Service<Req, Response = Resp>,
    S::Error: Into<BoxError>,
{
    pub fn new(w: &World, g: usize, svc: S, cl: Option<fn(&S) -> S>) -> Self {
        Driver { w: w.clone(), g, cl, hs: vec![H { s: Some(svc), ready: false, failed: false, flag: None }], futs: vec![], next: 1, step: 0, own: vec![], brief: false, eager: false, once: false, log: Log::default() }
    }
    /// The requests are numbered from here.
    pub fn first(mut self, n: u64) -> Self {
        self.next = n;
        self
    }
    pub fn handle(&self, i: u8) -> Option<&S> {
        self.hs[i as usize % self.hs.len()].s.as_ref()
    }
    /// the parts of the world that are this driver's: instances and calls, in order
    fn mine(&self) -> (Vec<usize>, Vec<usize>) {
        let x = self.w.lock();
        let own = |g: usize| self.own.is_empty() || self.own.contains(&g);
        ((0..x.svcs.len()).filter(|&i| own(x.svcs[i].group)).collect(), (0..x.calls.len()).filter(|&i| own(x.calls[i].group)).collect())
    }
    fn rank(v: &[usize], i: usize) -> String {
        v.binary_search(&i).map_or_else(|_| format!("foreign {i}"), |k| k.to_string())
    }
    pub async fn step(&mut self, op: DOp, hook: &mut impl Hook<S>) {
        self.w.begin_step();
        let w = self.w.clone();
        let g = hook.group(self.step, self.g);
        self.step += 1;
        let mut line = format!("{op:?}:");
        match op {
            DOp::Poll(i) | DOp::PollWoken(i) | DOp::Call(i) | DOp::Send(i) => {
                let k = self.hs.len();
                let h = &mut self.hs[i as usize % k];
                // a handle that failed is not used again
                if let (Some(s), false) = (h.s.as_mut(), h.failed) {
                    let poll = match op {
                        DOp::Call(_) => false,
                        DOp::PollWoken(_) => h.flag.as_ref().map_or(true, |f| f.woken()),
                        _ => true,
                    };
                    if poll && !(self.once && h.ready) {
                        let (r, fl) = with_waker(|cx| s.poll_ready(cx));
                        match r {
                            Poll::Ready(Ok(())) => {
                                h.ready = true;
                                h.flag = None;
                                line += " ready";
                            }
                            Poll::Ready(Err(e)) => {
                                h.failed = true;
                                h.ready = false;
                                h.flag = None;
                                self.log.errors += 1;
                                line += &format!(" err {}", err_text(e));
                            }
                            Poll::Pending => {
                                h.ready = false;
                                h.flag = Some(fl);
                                self.log.waits += 1;
                                line += " pending";
                            }
                        }
                    }
                    if matches!(op, DOp::Call(_) | DOp::Send(_)) && h.ready {
                        h.ready = false;
                        hook.before_call(s);
                        let before = w.lock().calls.len();
                        let f = s.call(req(self.next));
                        let to = w.lock().calls.get(before).map(|c| c.svc);
                        hook.after_call(s, to);
                        self.next += 1;
                        self.log.calls += 1;
                        self.futs.push(F { f: Some(Box::pin(f)), flag: None });
                        self.log.max_open = self.log.max_open.max(self.futs.iter().filter(|f| f.f.is_some()).count());
                        line += " called";
                        if self.eager {
                            self.poll_future(0, &mut line);
                        }
                    }
                }
            }
            DOp::Clone(i) => {
                let k = self.hs.len();
                if let (Some(c), Some(s), true) = (self.cl, &self.hs[i as usize % k].s, k < 4) {
                    let n = c(s);
                    self.hs.push(H { s: Some(n), ready: false, failed: false, flag: None });
                    self.log.clones += 1;
                    line += " cloned";
                }
            }
            DOp::DropH(i) => {
                let k = self.hs.len();
                if k > 1 {
                    let h = std::mem::replace(&mut self.hs[i as usize % k], H { s: None, ready: false, failed: false, flag: None });
                    if let Some(s) = h.s {
                        hook.discard(s);
                    }
                }
            }
            DOp::Complete(i, ok) => {
                let mine = self.mine().1;
                let live: Vec<usize> = w.waiting_calls().into_iter().filter(|k| mine.contains(k)).collect();
                if let Some(&k) = live.get(i as usize % live.len().max(1)) {
                    let n = mine.binary_search(&k).unwrap() as u64;
                    w.complete(k, if ok { Ok(()) } else { Err(6000 + n) });
                }
            }
            DOp::PollFut(i) if !self.futs.is_empty() => self.poll_future(i, &mut line),
            DOp::DropFut(i) if !self.futs.is_empty() => {
                let k = self.futs.len();
                self.futs[k - 1 - i as usize % k] = F { f: None, flag: None };
            }
            DOp::Advance(ms) => rt::advance(ms as u64).await,
            DOp::Gate(n) => w.set_credits(g, if n == 4 { FREE } else { n as u64 }),
            DOp::Fail(0) => w.set_fail(g, Some(4242)),
            DOp::Hiccup(n) => w.set_hiccups(g, n as u32),
            DOp::Auto(n) => {
                w.lock().groups[g].auto = match n {
                    0 => Some(Ok(())),
                    1 => Some(Err(4343)),
                    _ => None,
                }
            }
            _ => {}
        }
        self.observe(line, hook).await
    }
    /// Polls one of the response futures, counted from the latest.
    fn poll_future(&mut self, i: u8, line: &mut String) {
        let k = self.futs.len();
        let f = &mut self.futs[k - 1 - i as usize % k];
        let Some(p) = f.f.as_mut() else { return };
        let (r, fl) = poll_fut(p.as_mut());
        match r {
            Poll::Pending => {
                f.flag = Some(fl);
                *line += " pending"
            }
            Poll::Ready(Ok(x)) => {
                f.f = None;
                self.log.answers += 1;
                let (svcs, calls) = self.mine();
                *line += &format!(" answer to {} value {} of call {}", x.req, x.val, Self::rank(&calls, x.call));
                if !self.brief {
                    *line += &format!(" service {}", Self::rank(&svcs, x.svc));
                }
            }
            Poll::Ready(Err(e)) => {
                f.f = None;
                self.log.answers += 1;
                self.log.errors += 1;
                *line += &format!(" err {}", err_text(e))
            }
        }
    }
    /// Notes what can be seen now.
    pub async fn observe(&mut self, mut line: String, hook: &mut impl Hook<S>) {
        rt::settle().await;
        self.hs.iter_mut().filter_map(|h| h.s.as_mut()).for_each(|s| hook.svc(s));
        self.futs.iter().filter_map(|f| f.f.as_ref()).for_each(|f| hook.fut(f));
        let (times, what) = hook.again();
        for _ in 0..times {
            self.repoll(what, &mut line);
            rt::settle().await;
        }
        {
            let (svcs, calls) = self.mine();
            let x = self.w.lock();
            line += &format!(" | calls {}", calls.len());
            if let Some(&c) = calls.last() {
                let c = &x.calls[c];
                line += &format!(" last {:?}", c.req);
                if !self.brief {
                    line += &format!("@{}", Self::rank(&svcs, c.svc));
                }
            }
            if !self.brief {
                line += &format!(
                " live {}/{} ready {}",
                svcs.iter().filter(|&&s| x.svcs[s].alive).count(),
                calls.iter().filter(|&&c| x.calls[c].alive).count(),
                svcs.iter().filter(|&&s| x.svcs[s].ready).count()
                );
            }
        }
        self.log.wakes.push(
            self.hs.iter().map(|h| h.flag.as_ref().map_or(false, |f| f.woken())).chain(self.futs.iter().map(|f| f.flag.as_ref().map_or(false, |f| f.woken()))).collect(),
        );
        self.log.steps.push(line);
    }
    fn repoll(&mut self, what: u8, line: &mut String) {
        for (i, h) in self.hs.iter_mut().enumerate() {
            let Some(s) = h.s.as_mut() else { continue };
            if h.failed {
                continue;
            }
            if what & 1 > 0 && h.flag.as_ref().map_or(false, |f| !f.woken()) {
                let (r, fl) = with_waker(|cx| s.poll_ready(cx));
                match r {
                    Poll::Pending => h.flag = Some(fl),
                    r => *line += &format!(" handle {i}, not woken, polled again: {:?}", r.map_err(err_text)),
                }
                self.log.again += 1;
            } else if what & 4 > 0 && h.ready {
                let (r, _) = with_waker(|cx| s.poll_ready(cx));
                if !matches!(r, Poll::Ready(Ok(()))) {
                    *line += &format!(" handle {i}, ready, polled again: {:?}", r.map_err(err_text));
                }
                self.log.again += 1;
            }
        }
        for (i, f) in self.futs.iter_mut().enumerate() {
            let Some(p) = f.f.as_mut() else { continue };
            if what & 2 > 0 && f.flag.as_ref().map_or(false, |f| !f.woken()) {
                let (r, fl) = poll_fut(p.as_mut());
                match r {
                    Poll::Pending => f.flag = Some(fl),
                    r => *line += &format!(" future {i}, not woken, polled again: {:?}", r.map(|r| r.map_err(err_text))),
                }
                self.log.again += 1;
            }
        }
    }
    pub async fn finish(mut self, hook: &mut impl Hook<S>) -> Log {
        self.futs.clear();
        self.hs.drain(..).filter_map(|h| h.s).for_each(|s| hook.discard(s));
        rt::settle().await;
        let (svcs, calls) = self.mine();
        {
            let x = self.w.lock();
            self.log.steps.push(format!(
                "end: live {}/{} violation {:?}",
                svcs.iter().filter(|&&s| x.svcs[s].alive).count(),
                calls.iter().filter(|&&c| x.calls[c].alive).count(),
                x.violations.first()
            ));
        }
        self.log.wakes.push(vec![]);
        self.log
    }
}

/// A world with one probe.
pub fn world(closed: bool) -> (World, usize, Probe) {
    let w = World::new();
    let g = w.group(Group { credits: if closed { 0 } else { FREE }, ..Default::default() });
    let p = w.probe(g);
    (w, g, p)
}
pub fn note(log: &Log, cov: &mut Cov) {
    cov.hit_if(log.waits > 0, "waited for readiness");
    cov.hit_if(log.errors > 0, "errors");
    cov.hit_if(log.clones > 0, "clones");
    cov.hit_if(log.max_open >= 2, "several requests at once");
    if log.answers >= 1 && log.calls >= 2 {
        cov.nontrivial();
    }
}
