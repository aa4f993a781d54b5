//! C23 steer, C24 reconnect, C25 filters.
use crate::core::*;
use crate::ensure;
use crate::probe::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tower::filter::{AsyncFilter, Filter};
use tower::reconnect::Reconnect;
use tower::steer::{Picker, Steer};
use tower_service::Service;

fn gate(n: u8) -> u64 {
    if n >= 3 {
        FREE
    } else {
        n as u64
    }
}

/// A response future under test and what is expected of it.
struct Out<F> {
    f: Option<Pin<Box<F>>>,
    id: u64,
    call: usize,
    flag: Option<Arc<Flag>>,
}
impl<F> Out<F> {
    fn new(f: F, id: u64, call: usize) -> Self {
        Out { f: Some(Box::pin(f)), id, call, flag: None }
    }
    /// Polls and compares with the inner call.
    fn check<E>(&mut self, w: &World, err: impl Fn(&E) -> Option<u64>) -> R
    where
        F: Future<Output = Result<Resp, E>>,
        E: std::fmt::Debug,
    {
        let Some(f) = self.f.as_mut() else { return Ok(()) };
        let st = w.lock().calls[self.call].st.clone();
        let (r, fl) = poll_fut(f.as_mut());
        match (r, st) {
            (Poll::Pending, CallSt::Waiting) => self.flag = Some(fl),
            (Poll::Ready(Ok(x)), CallSt::Done(Ok(()))) => {
                ensure!(x.req == self.id && x.call == self.call && x.val == w.lock().calls[self.call].req.val, "request {} answered with {x:?}", self.id);
                self.f = None;
            }
            (Poll::Ready(Err(e)), CallSt::Done(Err(x))) => {
                ensure!(err(&e) == Some(x), "request {} failed with {e:?} instead of {x}", self.id);
                self.f = None;
            }
            (r, st) => return Err(format!("request {}: future gave {r:?} while the inner one is {st:?}", self.id)),
        }
        Ok(())
    }
    fn completed(&self) -> R {
        if self.f.is_some() {
            if let Some(fl) = &self.flag {
                ensure!(fl.woken(), "request {}: no wakeup when the inner response arrived", self.id);
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C23

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum SOp {
    Poll(u8),
    PollWoken(u8),
    Call(u8),
    /// poll until ready or pending, then call
    Send(u8),
    Clone(u8),
    Drop(u8),
    Gate(u8, u8),
    Fail(u8),
    /// one failed readiness check
    FailOnce(u8),
    Hiccup(u8, u8),
    Complete(u8, bool),
    PollFut(u8),
    DropFut(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct SCase {
    n: u8,
    picks: Vec<u8>,
    closed: u8,
    ops: Vec<SOp>,
}
fn arb_steer() -> impl Strategy<Value = SCase> {
    let h = 0u8..4;
    let op = prop_oneof![
        20 => h.clone().prop_map(SOp::Poll),
        10 => h.clone().prop_map(SOp::PollWoken),
        10 => h.clone().prop_map(SOp::Call),
        24 => h.clone().prop_map(SOp::Send),
        3 => h.clone().prop_map(SOp::Clone),
        2 => h.clone().prop_map(SOp::Drop),
        24 => (size(0..16, 16..40), 0u8..4).prop_map(|(a, b)| SOp::Gate(a, b)),
        2 => (0u8..16).prop_map(SOp::Fail),
        4 => (0u8..16).prop_map(SOp::FailOnce),
        4 => (0u8..16, 1u8..4).prop_map(|(a, b)| SOp::Hiccup(a, b)),
        10 => (0u8..8, prop::bool::weighted(0.7)).prop_map(|(a, b)| SOp::Complete(a, b)),
        12 => (0u8..8).prop_map(SOp::PollFut),
        3 => (0u8..8).prop_map(SOp::DropFut),
    ];
    (size(1..7, 7..40), prop::collection::vec(any::<u8>(), 1..12), any::<u8>(), hist(op, 60))
        .prop_map(|(n, picks, closed, ops)| SCase { n, picks, closed, ops })
}
type PickLog = Arc<Mutex<Vec<(Req, Vec<usize>, usize)>>>;
/// A stateful picker: its own sequence, copied with it.
#[derive(Clone)]
struct Pick {
    seq: Vec<u8>,
    at: usize,
    log: PickLog,
}
impl Picker<Probe, Req> for Pick {
    fn pick(&mut self, r: &Req, s: &[Probe]) -> usize {
        let i = self.seq[self.at % self.seq.len()] as usize % s.len();
        self.at += 1;
        self.log.lock().unwrap().push((r.clone(), s.iter().map(|p| p.id).collect(), i));
        i
    }
}
struct SH {
    s: Steer<Probe, Pick, Req>,
    /// instances in order
    inst: Vec<usize>,
    at: usize,
    ready: bool,
    failed: bool,
    pending: Option<Arc<Flag>>,
}
fn steer(c: &SCase, cov: &mut Cov) -> R {
    let w = World::new();
    let n = c.n as usize;
    let groups: Vec<usize> = (0..n).map(|i| w.group(Group { credits: if c.closed >> (i % 8) & 1 == 1 { 0 } else { FREE }, ..Default::default() })).collect();
    let probes: Vec<Probe> = groups.iter().map(|g| w.probe(*g)).collect();
    let inst: Vec<usize> = probes.iter().map(|p| p.id).collect();
    let log: PickLog = Default::default();
    let mut hs = vec![Some(SH {
        s: Steer::new(probes, Pick { seq: c.picks.clone(), at: 0, log: log.clone() }),
        inst,
        at: 0,
        ready: false,
        failed: false,
        pending: None,
    })];
    let mut outs: Vec<Out<ProbeFut>> = vec![];
    let (mut sent, mut waits, mut clones, mut errs) = (0, 0, 0, 0);
    let mut used = std::collections::BTreeSet::new();
    let mut next = 1u64;
    macro_rules! poll {
        ($h:expr) => {{
            let h: &mut SH = $h;
            let hic = { let x = w.lock(); h.inst.iter().any(|i| x.groups[x.svcs[*i].group].hiccups > 0) };
            let (r, fl) = with_waker(|cx| h.s.poll_ready(cx));
            cov.tr(|| format!("poll -> {r:?}"));
            match r {
                Poll::Ready(Ok(())) => {
                    for (k, i) in h.inst.iter().enumerate() {
                        ensure!(w.is_ready(*i), "ready reported although service {k} has not reported ready since its last call");
                    }
                    h.ready = true;
                    h.pending = None;
                }
                Poll::Ready(Err(e)) => {
                    ensure!(h.inst.iter().any(|i| w.svc(*i).failed == Some(e.0) || w.svc(*i).blip == Some(e.0)), "readiness error {e:?} of no underlying service");
                    ensure!(!h.inst.iter().all(|i| w.is_ready(*i)), "readiness error although every service is ready");
                    h.failed = h.inst.iter().any(|i| w.svc(*i).failed.is_some());
                    cov.hit_if(!h.failed, "one-time readiness error");
                    h.ready = false;
                    h.pending = None;
                    errs += 1;
                }
                Poll::Pending => {
                    ensure!(!h.ready, "not ready any more without a call");
                    ensure!(hic || !h.inst.iter().all(|i| w.answers(*i)), "pending although every service is ready");
                    h.pending = Some(fl);
                    waits += 1;
                }
            }
        }};
    }
    macro_rules! call {
        ($h:expr) => {{
            let h: &mut SH = $h;
            let (ln, cn) = (log.lock().unwrap().len(), w.ncalls());
            let before: Vec<bool> = h.inst.iter().map(|i| w.is_ready(*i)).collect();
            let f = h.s.call(req(next));
            let want = h.inst[c.picks[h.at % c.picks.len()] as usize % n];
            h.at += 1;
            h.ready = false;
            {
                let l = log.lock().unwrap();
                ensure!(l.len() == ln + 1, "picker ran {} times for one request", l.len() - ln);
                ensure!(l[ln].0 == req(next) && l[ln].1 == h.inst, "picker was given {:?} of {:?}", l[ln], h.inst);
                let x = w.lock();
                ensure!(x.calls.len() == cn + 1, "request dispatched {} times", x.calls.len() - cn);
                ensure!(x.calls[cn].svc == want && x.calls[cn].req == req(next), "request went to {:?} instead of instance {want}", x.calls[cn]);
                for (i, b) in h.inst.iter().zip(before) {
                    ensure!(*i == want || !b || (x.svcs[*i].ready && x.svcs[*i].alive), "another service lost its readiness");
                }
            }
            outs.push(Out::new(f, next, cn));
            used.insert(want);
            next += 1;
            sent += 1;
        }};
    }
    for &op in &c.ops {
        w.begin_step();
        match op {
            SOp::Poll(h) | SOp::PollWoken(h) | SOp::Call(h) | SOp::Send(h) => {
                let k = hs.len();
                let Some(h) = hs[h as usize % k].as_mut() else { continue };
                if h.failed {
                    continue;
                }
                match op {
                    SOp::Poll(_) => poll!(h),
                    SOp::PollWoken(_) => {
                        if h.pending.as_ref().map_or(true, |f| f.woken()) {
                            poll!(h)
                        }
                    }
                    SOp::Call(_) => {
                        if h.ready {
                            call!(h)
                        }
                    }
                    _ => {
                        poll!(h);
                        if h.ready && !h.failed {
                            call!(h)
                        }
                    }
                }
            }
            SOp::Clone(h) => {
                let k = hs.len();
                if k >= 4 {
                    continue;
                }
                let Some(h) = hs[h as usize % k].as_ref() else { continue };
                let (inst, at) = (h.inst.clone(), h.at);
                let base = w.lock().svcs.len();
                let s = h.s.clone();
                // the new instances, matched to their originals
                let new: BTreeMap<usize, usize> = {
                    let x = w.lock();
                    (base..x.svcs.len()).map(|i| (x.svcs[i].parent.unwrap(), i)).collect()
                };
                ensure!(new.len() == n, "cloning made {} instances", new.len());
                let ni: Vec<usize> = inst.iter().filter_map(|i| new.get(i).copied()).collect();
                ensure!(ni.len() == n, "cloning did not clone every service");
                hs.push(Some(SH { s, inst: ni, at, ready: false, failed: false, pending: None }));
                clones += 1;
            }
            SOp::Drop(h) => {
                let k = hs.len();
                if k > 1 {
                    hs[h as usize % k] = None;
                }
            }
            SOp::Gate(g, v) => w.set_credits(groups[g as usize % n], gate(v)),
            SOp::FailOnce(g) => w.fail_once(groups[g as usize % n], 800 + g as u64 % n as u64),
            SOp::Fail(g) => w.set_fail(groups[g as usize % n], Some(700 + g as u64 % n as u64)),
            SOp::Hiccup(g, v) => w.set_hiccups(groups[g as usize % n], v as u32),
            SOp::Complete(i, ok) => {
                let live = w.waiting_calls();
                if let Some(&k) = live.get(i as usize % live.len().max(1)) {
                    w.complete(k, if ok { Ok(()) } else { Err(6000 + k as u64) });
                    if let Some(o) = outs.iter().find(|o| o.call == k) {
                        o.completed()?;
                    }
                }
            }
            SOp::PollFut(i) if !outs.is_empty() => {
                let k = outs.len();
                outs[k - 1 - i as usize % k].check(&w, |e: &PErr| Some(e.0))?;
            }
            SOp::DropFut(i) if !outs.is_empty() => {
                let k = outs.len();
                outs[k - 1 - i as usize % k].f = None;
            }
            _ => {}
        }
        // lost wakeups
        for h in hs.iter().flatten() {
            if let Some(f) = &h.pending {
                if !f.woken() && !h.failed && !h.ready {
                    ensure!(!h.inst.iter().all(|i| w.answers(*i)), "every service can be ready but the waiting caller was not woken");
                }
            }
        }
        if let Some(v) = w.violation() {
            return Err(v);
        }
    }
    outs.clear();
    hs.clear();
    ensure!(w.live_svcs() == 0, "services survive");
    cov.hit_if(clones > 0, "clone");
    cov.hit_if(errs > 0, "readiness error");
    cov.hit_if(waits > 0, "waited");
    cov.hit_if(used.len() > 1, "several services used");
    if sent >= 2 && waits >= 1 && n >= 2 {
        cov.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C24

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum ROp {
    Poll,
    PollWoken,
    Call,
    Send,
    /// grants of the connector
    MkGate(u8),
    MkFail,
    MkHiccup(u8),
    /// outcome of the connection attempt under way
    Connect(bool),
    /// outcome of later attempts, known at once
    Auto(u8),
    /// readiness of the current connection
    Gate(u8),
    Fail,
    Hiccup(u8),
    Complete(u8, bool),
    PollFut(u8),
    DropFut(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct RCase {
    init: bool,
    target: u64,
    grants: Vec<u8>,
    ops: Vec<ROp>,
}
fn arb_reconnect() -> impl Strategy<Value = RCase> {
    let op = prop_oneof![
        24 => Just(ROp::Poll),
        8 => Just(ROp::PollWoken),
        8 => Just(ROp::Call),
        26 => Just(ROp::Send),
        6 => (0u8..4).prop_map(ROp::MkGate),
        1 => Just(ROp::MkFail),
        3 => (1u8..3).prop_map(ROp::MkHiccup),
        24 => prop::bool::weighted(0.6).prop_map(ROp::Connect),
        5 => (0u8..4).prop_map(ROp::Auto),
        8 => (0u8..4).prop_map(ROp::Gate),
        12 => Just(ROp::Fail),
        3 => (1u8..3).prop_map(ROp::Hiccup),
        10 => (0u8..8, prop::bool::weighted(0.7)).prop_map(|(a, b)| ROp::Complete(a, b)),
        12 => (0u8..8).prop_map(ROp::PollFut),
        3 => (0u8..8).prop_map(ROp::DropFut),
    ];
    (any::<bool>(), 0u64..100, prop::collection::vec(0u8..5, 1..6), hist(op, 70))
        .prop_map(|(init, target, grants, ops)| RCase { init, target, grants, ops })
}
struct Maker {
    p: Probe,
    grants: Vec<u8>,
    made: Arc<Mutex<Vec<usize>>>,
}
impl Maker {
    fn connection(w: &World, grants: &[u8], made: &Arc<Mutex<Vec<usize>>>) -> Probe {
        let mut m = made.lock().unwrap();
        let g = w.group(Group { credits: if grants[m.len() % grants.len()] >= 3 { FREE } else { grants[m.len() % grants.len()] as u64 }, ..Default::default() });
        let p = w.probe(g);
        m.push(p.id);
        p
    }
}
struct MkFut {
    f: ProbeFut,
    w: World,
    grants: Vec<u8>,
    made: Arc<Mutex<Vec<usize>>>,
}
impl Service<Req> for Maker {
    type Response = Probe;
    type Error = PErr;
    type Future = MkFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), PErr>> {
        self.p.poll_ready(cx)
    }
    fn call(&mut self, r: Req) -> MkFut {
        MkFut { f: self.p.call(r), w: self.p.world.clone(), grants: self.grants.clone(), made: self.made.clone() }
    }
}
impl Future for MkFut {
    type Output = Result<Probe, PErr>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match Pin::new(&mut self.f).poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Ready(Ok(_)) => Poll::Ready(Ok(Maker::connection(&self.w, &self.grants, &self.made))),
        }
    }
}
type RFut = <Reconnect<Maker, Req> as Service<Req>>::Future;

fn reconnect(c: &RCase, cov: &mut Cov) -> R {
    let w = World::new();
    let mg = w.group(Group::default());
    let made: Arc<Mutex<Vec<usize>>> = Default::default();
    let mk = Maker { p: w.probe(mg), grants: c.grants.clone(), made: made.clone() };
    let mkid = mk.p.id;
    let target = Req { id: 1_000_000 + c.target, val: c.target, hold: Hold::default() };
    let mut r: Reconnect<Maker, Req> = if c.init {
        let first = Maker::connection(&w, &c.grants, &made);
        Reconnect::with_connection(first, mk, target.clone())
    } else {
        Reconnect::new(mk, target.clone())
    };
    let mut next = 1u64;
    let mut outs: Vec<Out<RFut>> = vec![];
    let mut errs: Vec<(u64, Pin<Box<RFut>>, u64)> = vec![];
    // the model: attempts seen, those whose failure was not yet returned
    let mut err: Option<u64> = None; // a failure waiting for the next request
    let mut attempts = 0usize; // connection attempts accounted for
    let mut ready = false;
    let mut dead = false; // connector failed
    let mut pending: Option<Arc<Flag>> = None;
    let (mut failures, mut reconnects, mut sent) = (0, 0, 0);
    let mut refused = std::collections::BTreeSet::new();
    let conn = || made.lock().unwrap().last().copied().filter(|i| w.svc(*i).alive);
    let attempts_of = || -> Vec<usize> { let x = w.lock(); (0..x.calls.len()).filter(|i| x.calls[*i].svc == mkid).collect() };
    macro_rules! poll {
        () => {{
            let had_conn = conn();
            let had_err = err;
            let had_ready = ready;
            let (mkpolls, connpolls) = (w.svc(mkid).polls, had_conn.map(|i| w.svc(i).polls));
            let waiting = attempts_of().into_iter().filter(|i| { let x = w.lock(); x.calls[*i].alive }).last();
            let (res, fl) = with_waker(|cx| r.poll_ready(cx));
            cov.tr(|| format!("poll -> {res:?} conn {:?} err {err:?}", conn()));
            let at = attempts_of();
            if let Some(e) = had_err {
                ensure!(matches!(res, Poll::Ready(Ok(()))), "the failure {e} to connect was not kept for the next request: {res:?}");
                ensure!(w.svc(mkid).polls == mkpolls && at.len() == attempts, "connecting again before the failure was returned");
                ready = true;
            } else {
                // attempts only when there was no connection, or it failed now
                let lost = had_conn.map_or(false, |i| w.svc(i).failed.is_some());
                if at.len() > attempts {
                    ensure!(had_conn.is_none() || lost, "a new connection is opened although the current one is healthy");
                    ensure!(waiting.is_none(), "a second connection attempt while one is under way");
                    ensure!(at.len() == attempts + 1, "{} attempts in one readiness check", at.len() - attempts);
                    let x = w.lock();
                    ensure!(x.calls[*at.last().unwrap()].req == target, "connected to {:?} instead of {target:?}", x.calls[*at.last().unwrap()].req);
                    if attempts > 0 || c.init {
                        reconnects += 1;
                    }
                }
                attempts = at.len();
                if let Some(i) = had_conn {
                    if lost {
                        ensure!(!w.svc(i).alive, "a failed connection was kept");
                    } else {
                        ensure!(w.svc(i).alive && conn() == Some(i), "a healthy connection was discarded");
                        ensure!(w.svc(i).polls > connpolls.unwrap(), "the connection's readiness was not asked");
                    }
                }
                // the attempt that ended in this check with a failure
                let failed = at.iter().copied().find_map(|i| {
                    let x = w.lock();
                    match x.calls[i].st {
                        CallSt::Taken(Err(e)) if !refused.contains(&i) => Some((i, e)),
                        _ => None,
                    }
                });
                if let Some((i, e)) = failed {
                    refused.insert(i);
                    err = Some(e);
                    failures += 1;
                    ensure!(matches!(res, Poll::Ready(Ok(()))), "a failure to connect gave {res:?} instead of ready");
                    ensure!(conn().is_none(), "a connection besides a failed attempt");
                }
                match res {
                    Poll::Ready(Ok(())) => {
                        if err.is_none() {
                            let Some(i) = conn() else { return Err("ready reported without a connection or a failure".into()) };
                            ensure!(w.is_ready(i), "ready reported although the connection is not");
                        }
                        ready = true;
                    }
                    Poll::Ready(Err(ref e)) => {
                        let f = find_perr(e.as_ref());
                        ensure!(f.is_some() && f == w.svc(mkid).failed, "readiness error {e:?} is not the connector's");
                        ready = false;
                        dead = true;
                    }
                    Poll::Pending => {
                        let x = w.lock();
                        let att = at.iter().any(|i| x.calls[*i].alive && x.calls[*i].st == CallSt::Waiting);
                        drop(x);
                        let ok = if let Some(i) = conn() { !w.answers(i) } else if att { true } else { !w.answers(mkid) };
                        ensure!(ok || fl.woken(), "pending, without a wakeup, although nothing is waited for");
                        ensure!(!had_ready, "not ready any more without a call or a failure");
                        ready = false;
                    }
                }
            }
            pending = if res.is_pending() { Some(fl) } else { None };
        }};
    }
    macro_rules! call {
        () => {{
            let (cn, an) = (w.ncalls(), attempts_of().len());
            let i = conn();
            let f = r.call(req(next));
            ready = false;
            sent += 1;
            ensure!(attempts_of().len() == an, "a call started a connection attempt");
            if let Some(e) = err.take() {
                ensure!(w.ncalls() == cn, "the request that returns a failure to connect was dispatched");
                errs.push((next, Box::pin(f), e));
            } else {
                {
                    let x = w.lock();
                    ensure!(x.calls.len() == cn + 1 && Some(x.calls[cn].svc) == i && x.calls[cn].req == req(next), "request {next} went to {:?}, the connection is {i:?}", x.calls.last());
                }
                outs.push(Out::new(f, next, cn));
            }
            next += 1;
        }};
    }
    let mut wakes_due: Option<&'static str> = None;
    for &op in &c.ops {
        w.begin_step();
        match op {
            _ if dead && matches!(op, ROp::Poll | ROp::PollWoken | ROp::Call | ROp::Send) => {}
            ROp::Poll => poll!(),
            ROp::PollWoken => {
                if pending.as_ref().map_or(true, |f| f.woken()) {
                    poll!()
                }
            }
            ROp::Call => {
                if ready {
                    call!()
                }
            }
            ROp::Send => {
                poll!();
                if ready && !dead {
                    call!()
                }
            }
            ROp::MkGate(n) => {
                w.set_credits(mg, gate(n));
                if n > 0 && attempts_of().iter().all(|i| !w.lock().calls[*i].alive) && conn().is_none() {
                    wakes_due = Some("the connector became ready");
                }
            }
            ROp::MkFail => w.set_fail(mg, Some(888)),
            ROp::MkHiccup(n) => w.set_hiccups(mg, n as u32),
            ROp::Connect(ok) => {
                let a = attempts_of().into_iter().find(|i| { let x = w.lock(); x.calls[*i].alive && x.calls[*i].st == CallSt::Waiting });
                if let Some(i) = a {
                    w.complete(i, if ok { Ok(()) } else { Err(30_000 + i as u64) });
                    wakes_due = Some("the connection attempt ended");
                }
            }
            ROp::Auto(n) => w.lock().groups[mg].auto = match n { 0 => Some(Ok(())), 1 => Some(Err(40_000)), _ => None },
            ROp::Gate(n) => {
                if let Some(i) = conn() {
                    w.set_credits(w.svc(i).group, gate(n));
                    if n > 0 {
                        wakes_due = Some("the connection became ready");
                    }
                }
            }
            ROp::Fail => {
                if let Some(i) = conn() {
                    w.set_fail(w.svc(i).group, Some(50_000 + i as u64));
                    wakes_due = Some("the connection failed");
                    // a ready report the client has not used yet no longer holds
                    ready = ready && err.is_some();
                }
            }
            ROp::Hiccup(n) => {
                if let Some(i) = conn() {
                    w.set_hiccups(w.svc(i).group, n as u32);
                }
            }
            ROp::Complete(i, ok) => {
                let live: Vec<usize> = w.waiting_calls().into_iter().filter(|i| w.lock().calls[*i].svc != mkid).collect();
                if let Some(&k) = live.get(i as usize % live.len().max(1)) {
                    w.complete(k, if ok { Ok(()) } else { Err(6000 + k as u64) });
                    if let Some(o) = outs.iter().find(|o| o.call == k) {
                        o.completed()?;
                    }
                }
            }
            ROp::PollFut(i) if !outs.is_empty() => {
                let k = outs.len();
                outs[k - 1 - i as usize % k].check(&w, |e: &BoxError| find_perr(e.as_ref()))?;
            }
            ROp::DropFut(i) if !outs.is_empty() => {
                let k = outs.len();
                outs[k - 1 - i as usize % k].f = None;
            }
            _ => {}
        }
        if let (Some(why), Some(f)) = (wakes_due.take(), &pending) {
            if !dead {
                ensure!(f.woken(), "{why} but the waiting caller was not woken");
            }
        }
        for (id, mut f, e) in errs.drain(..) {
            match poll_fut(f.as_mut()).0 {
                Poll::Ready(Err(x)) => ensure!(find_perr(x.as_ref()) == Some(e), "request {id} failed with {x:?} instead of the failure {e} to connect"),
                r => return Err(format!("request {id} gave {r:?} instead of the failure {e} to connect")),
            }
        }
        // never more than one connection or attempt
        let live_conns = made.lock().unwrap().iter().filter(|i| w.svc(**i).alive).count();
        let live_att = { let x = w.lock(); x.calls.iter().filter(|c| c.svc == mkid && c.alive).count() };
        ensure!(live_conns + live_att <= 1, "{live_conns} connections and {live_att} attempts at once");
        if let Some(v) = w.violation() {
            return Err(v);
        }
    }
    drop(r);
    outs.clear();
    ensure!(w.live_svcs() == 0 && w.live_futs() == 0, "connections survive");
    cov.hit_if(failures > 0, "failure to connect");
    cov.hit_if(reconnects > 0, "connected again");
    cov.hit_if(dead, "connector failed");
    if sent >= 2 && failures + reconnects >= 2 {
        cov.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C25

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum FOp {
    Poll(u8),
    Call(u8),
    Send(u8),
    Clone(u8),
    /// answers an open check (asynchronous): accept or reject by the case's rule
    Answer(u8),
    PollFut(u8),
    DropFut(u8),
    Complete(u8, bool),
    Gate(u8),
    Fail,
    /// `check` called by the user
    Check(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct FCase {
    asynchronous: bool,
    accept: u32,
    /// checks that answer at once
    instant: u32,
    ops: Vec<FOp>,
}
fn arb_filter() -> impl Strategy<Value = FCase> {
    let h = 0u8..3;
    let op = prop_oneof![
        8 => h.clone().prop_map(FOp::Poll),
        8 => h.clone().prop_map(FOp::Call),
        30 => h.clone().prop_map(FOp::Send),
        3 => h.clone().prop_map(FOp::Clone),
        20 => (0u8..8).prop_map(FOp::Answer),
        24 => (0u8..8).prop_map(FOp::PollFut),
        4 => (0u8..8).prop_map(FOp::DropFut),
        14 => (0u8..8, prop::bool::weighted(0.7)).prop_map(|(a, b)| FOp::Complete(a, b)),
        12 => (0u8..5).prop_map(FOp::Gate),
        1 => Just(FOp::Fail),
        2 => h.prop_map(FOp::Check),
    ];
    (any::<bool>(), any::<u32>(), any::<u32>(), hist(op, 60))
        .prop_map(|(asynchronous, accept, instant, ops)| FCase { asynchronous, accept, instant, ops })
}
#[derive(Default)]
struct ChkSt {
    req: u64,
    done: bool,
    alive: bool,
    waker: Option<Waker>,
    polled_after: bool,
}
#[derive(Clone)]
struct Pred {
    accept: u32,
    instant: u32,
    checks: Arc<Mutex<Vec<ChkSt>>>,
}
impl Pred {
    fn verdict(&self, r: &Req) -> Result<Req, BoxError> {
        if self.accept >> (r.id % 32) & 1 == 1 {
            Ok(Req { val: r.val * 3 + 1, ..r.clone() })
        } else {
            Err(Box::new(PErr(20_000 + r.id)))
        }
    }
}
impl tower::filter::Predicate<Req> for Pred {
    type Request = Req;
    fn check(&mut self, r: Req) -> Result<Req, BoxError> {
        self.checks.lock().unwrap().push(ChkSt { req: r.id, done: true, ..Default::default() });
        self.verdict(&r)
    }
}
struct ChkFut {
    n: usize,
    r: Req,
    p: Pred,
}
impl Future for ChkFut {
    type Output = Result<Req, BoxError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut c = self.p.checks.lock().unwrap();
        let me = &mut c[self.n];
        if !me.alive {
            me.polled_after = true;
        }
        if !me.done {
            me.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        me.alive = false;
        Poll::Ready(self.p.verdict(&self.r))
    }
}
impl tower::filter::AsyncPredicate<Req> for Pred {
    type Future = ChkFut;
    type Request = Req;
    fn check(&mut self, r: Req) -> ChkFut {
        let mut c = self.checks.lock().unwrap();
        c.push(ChkSt { req: r.id, done: self.instant >> (r.id % 32) & 1 == 1, alive: true, ..Default::default() });
        let n = c.len() - 1;
        drop(c);
        ChkFut { n, r, p: self.clone() }
    }
}
type BFut = Pin<Box<dyn Future<Output = Result<Resp, BoxError>>>>;
enum Fil {
    S(Filter<Probe, Pred>),
    A(AsyncFilter<Probe, Pred>),
}
impl Fil {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        match self {
            Fil::S(f) => f.poll_ready(cx),
            Fil::A(f) => f.poll_ready(cx),
        }
    }
    fn call(&mut self, r: Req) -> BFut {
        match self {
            Fil::S(f) => Box::pin(f.call(r)),
            Fil::A(f) => Box::pin(f.call(r)),
        }
    }
    fn inner(&mut self) -> usize {
        let (a, b) = match self {
            Fil::S(f) => (f.get_ref().id, f.get_mut().id),
            Fil::A(f) => (f.get_ref().id, f.get_mut().id),
        };
        if a == b { a } else { usize::MAX }
    }
}
struct FReq {
    id: u64,
    f: Option<BFut>,
    inst: usize,
    check: usize,
    /// inner call, once dispatched
    call: Option<usize>,
    flag: Option<Arc<Flag>>,
    /// the predicate's answer was consumed
    judged: bool,
}

fn filter(c: &FCase, cov: &mut Cov) -> R {
    let w = World::new();
    let g = w.group(Group::default());
    let checks: Arc<Mutex<Vec<ChkSt>>> = Default::default();
    let pred = Pred { accept: c.accept, instant: c.instant, checks: checks.clone() };
    let first = w.probe(g);
    let mut hs: Vec<(Fil, bool, bool, Option<Arc<Flag>>)> = vec![(
        if c.asynchronous { Fil::A(AsyncFilter::new(first, pred.clone())) } else { Fil::S(Filter::new(first, pred.clone())) },
        false,
        false,
        None,
    )];
    let mut rs: Vec<FReq> = vec![];
    let mut next = 1u64;
    let (mut accepted, mut rejected, mut open_max) = (0, 0, 0usize);
    let accepts = |id: u64| c.accept >> (id % 32) & 1 == 1;
    macro_rules! call {
        ($h:expr) => {{
            let h = $h;
            let inst = h.0.inner();
            ensure!(inst != usize::MAX, "get_ref and get_mut disagree");
            let (cn, kn) = (w.ncalls(), checks.lock().unwrap().len());
            let f = h.0.call(req(next));
            h.1 = false;
            ensure!(checks.lock().unwrap().len() == kn + 1, "predicate asked {} times", checks.lock().unwrap().len() - kn);
            ensure!(checks.lock().unwrap()[kn].req == next, "predicate asked about another request");
            let mut r = FReq { id: next, f: Some(f), inst, check: kn, call: None, flag: None, judged: !c.asynchronous };
            if !c.asynchronous {
                dispatched!(r, cn);
            } else {
                ensure!(w.ncalls() == cn, "request dispatched before its check was answered");
                ensure!(h.0.inner() != inst, "the ready instance stayed behind");
            }
            rs.push(r);
            open_max = open_max.max(rs.iter().filter(|r| r.f.is_some() && !r.judged).count());
            next += 1;
        }};
    }
    macro_rules! dispatched {
        ($r:expr, $cn:expr) => {{
            let x = w.lock();
            if accepts($r.id) {
                ensure!(x.calls.len() == $cn + 1, "accepted request dispatched {} times", x.calls.len() - $cn);
                let k = &x.calls[$cn];
                ensure!(k.req == Req { id: $r.id, val: $r.id * 3 + 1, hold: Hold::default() }, "accepted request {} dispatched as {:?}", $r.id, k.req);
                ensure!(k.svc == $r.inst, "request {} dispatched to instance {}, the caller observed {}", $r.id, k.svc, $r.inst);
                $r.call = Some($cn);
                accepted += 1;
            } else {
                ensure!(x.calls.len() == $cn, "rejected request {} dispatched", $r.id);
                rejected += 1;
            }
        }};
    }
    for &op in &c.ops {
        w.begin_step();
        match op {
            FOp::Poll(i) | FOp::Call(i) | FOp::Send(i) => {
                let k = hs.len();
                let h = &mut hs[i as usize % k];
                if h.2 {
                    continue;
                }
                if !matches!(op, FOp::Call(_)) {
                    let inst = h.0.inner();
                    let (r, fl) = with_waker(|cx| h.0.poll(cx));
                    h.3 = None;
                    match r {
                        Poll::Ready(Ok(())) => {
                            ensure!(w.is_ready(inst), "ready although the inner service is not");
                            h.1 = true;
                        }
                        Poll::Ready(Err(e)) => {
                            ensure!(find_perr(e.as_ref()).is_some() && find_perr(e.as_ref()) == w.svc(inst).failed, "wrong readiness error {e:?}");
                            h.2 = true;
                            h.1 = false;
                        }
                        Poll::Pending => {
                            ensure!(!w.answers(inst), "pending although the inner service is ready");
                            h.3 = Some(fl);
                        }
                    }
                }
                if !matches!(op, FOp::Poll(_)) && h.1 {
                    call!(h);
                }
            }
            FOp::Clone(i) => {
                let k = hs.len();
                if k < 3 {
                    let h = &hs[i as usize % k].0;
                    let n = match h {
                        Fil::S(f) => Fil::S(f.clone()),
                        Fil::A(f) => Fil::A(f.clone()),
                    };
                    hs.push((n, false, false, None));
                }
            }
            FOp::Answer(i) => {
                let mut ch = checks.lock().unwrap();
                let open: Vec<usize> = (0..ch.len()).filter(|k| ch[*k].alive && !ch[*k].done).collect();
                if let Some(&k) = open.get(i as usize % open.len().max(1)) {
                    ch[k].done = true;
                    let wk = ch[k].waker.take();
                    drop(ch);
                    if let Some(wk) = wk {
                        wk.wake();
                    }
                    if let Some(r) = rs.iter().find(|r| r.check == k && r.f.is_some()) {
                        if let Some(f) = &r.flag {
                            ensure!(f.woken(), "no wakeup when the check was answered");
                        }
                    }
                }
            }
            FOp::PollFut(i) if !rs.is_empty() => {
                let k = rs.len();
                let r = &mut rs[k - 1 - i as usize % k];
                let Some(f) = r.f.as_mut() else { continue };
                let answered = r.judged || checks.lock().unwrap()[r.check].done;
                let cn = w.ncalls();
                let (o, fl) = poll_fut(f.as_mut());
                cov.tr(|| format!("request {} -> {o:?}", r.id));
                if !r.judged && answered {
                    r.judged = true;
                    dispatched!(r, cn);
                } else {
                    ensure!(w.ncalls() == cn, "polling request {} dispatched something", r.id);
                }
                match (o, answered, accepts(r.id)) {
                    (Poll::Pending, false, _) => r.flag = Some(fl),
                    (Poll::Ready(Err(e)), true, false) => {
                        ensure!(find_perr(e.as_ref()) == Some(20_000 + r.id), "rejected request {} failed with {e:?}", r.id);
                        r.f = None;
                    }
                    (o, true, true) => {
                        let st = w.lock().calls[r.call.unwrap()].st.clone();
                        match (o, st) {
                            (Poll::Pending, CallSt::Waiting) => r.flag = Some(fl),
                            (Poll::Ready(Ok(x)), CallSt::Taken(Ok(()))) => {
                                ensure!(x.req == r.id && x.call == r.call.unwrap() && x.val == r.id * 3 + 1, "request {} answered with {x:?}", r.id);
                                r.f = None;
                            }
                            (Poll::Ready(Err(e)), CallSt::Taken(Err(x))) => {
                                ensure!(find_perr(e.as_ref()) == Some(x), "request {} failed with {e:?}", r.id);
                                r.f = None;
                            }
                            (o, st) => return Err(format!("request {}: {o:?} while the inner call is {st:?}", r.id)),
                        }
                    }
                    (o, a, b) => return Err(format!("request {} (answered {a}, accepted {b}) gave {o:?}", r.id)),
                }
            }
            FOp::DropFut(i) if !rs.is_empty() => {
                let k = rs.len();
                rs[k - 1 - i as usize % k].f = None;
            }
            FOp::Complete(i, ok) => {
                let live = w.waiting_calls();
                if let Some(&k) = live.get(i as usize % live.len().max(1)) {
                    w.complete(k, if ok { Ok(()) } else { Err(6000 + k as u64) });
                    if let Some(r) = rs.iter().find(|r| r.call == Some(k) && r.f.is_some()) {
                        if let Some(f) = &r.flag {
                            ensure!(f.woken(), "no wakeup when the response arrived");
                        }
                    }
                }
            }
            FOp::Gate(n) => {
                w.set_credits(g, if n == 4 { FREE } else { n as u64 });
                if n > 0 {
                    for h in &hs {
                        if let Some(f) = &h.3 {
                            ensure!(f.woken(), "no wakeup when the inner service became ready");
                        }
                    }
                }
            }
            FOp::Fail => w.set_fail(g, Some(4242)),
            FOp::Check(i) => {
                let k = hs.len();
                let cn = w.ncalls();
                let id = next;
                next += 1;
                match &mut hs[i as usize % k].0 {
                    Fil::S(f) => match f.check(req(id)) {
                        Ok(r) => ensure!(accepts(id) && r.val == id * 3 + 1, "check accepted {r:?}"),
                        Err(e) => ensure!(!accepts(id) && find_perr(e.as_ref()) == Some(20_000 + id), "check rejected with {e:?}"),
                    },
                    Fil::A(f) => {
                        let mut fut = Box::pin(f.check(req(id)));
                        match poll_fut(fut.as_mut()).0 {
                            Poll::Pending => ensure!(c.instant >> (id % 32) & 1 == 0, "check pending although answered"),
                            Poll::Ready(Ok(r)) => ensure!(accepts(id) && r.val == id * 3 + 1, "check accepted {r:?}"),
                            Poll::Ready(Err(e)) => ensure!(!accepts(id) && find_perr(e.as_ref()) == Some(20_000 + id), "check rejected with {e:?}"),
                        }
                    }
                }
                ensure!(w.ncalls() == cn, "check dispatched the request");
            }
            _ => {}
        }
        ensure!(!checks.lock().unwrap().iter().any(|c| c.polled_after), "a finished check was polled again");
        if let Some(v) = w.violation() {
            return Err(v);
        }
    }
    rs.clear();
    let n = hs.len();
    ensure!(!c.asynchronous || w.live_svcs() == n, "{} instances for {n} handles once every request ended", w.live_svcs());
    while let Some((h, ..)) = hs.pop() {
        let p = match h {
            Fil::S(f) => f.into_inner(),
            Fil::A(f) => f.into_inner(),
        };
        ensure!(w.svc(p.id).alive, "into_inner");
    }
    ensure!(w.live_svcs() == 0, "services survive");
    cov.hit_if(c.asynchronous, "asynchronous");
    cov.hit_if(accepted > 0, "accepted");
    cov.hit_if(rejected > 0, "rejected");
    cov.hit_if(open_max >= 2, "two checks at once");
    if accepted > 0 && rejected > 0 && (!c.asynchronous || open_max >= 2) {
        cov.nontrivial();
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C23",
            assumptions: &["pickers return an index in range"],
            subs: vec![sub("history", "at least two services, two requests and a wait for readiness", 600_000, arb_steer, steer)],
        },
        Prop {
            id: "C24",
            assumptions: &["a connection does not fail at its very first readiness check"],
            subs: vec![sub("history", "two requests and at least two failures to connect or reconnections", 600_000, arb_reconnect, reconnect)],
        },
        Prop {
            id: "C25",
            assumptions: &[],
            subs: vec![sub("history", "an accepted and a rejected request; for asynchronous predicates, two checks under way at once", 600_000, arb_filter, filter)],
        },
    ]
}
