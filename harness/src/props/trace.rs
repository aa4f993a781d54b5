//! C34: tracing spans of buffered and background work.
use crate::core::*;
use crate::ensure;
use crate::probe::*;
use crate::rt::*;
use crate::sched;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use tower::buffer::{Buffer, BufferLayer};
use tower::spawn_ready::{SpawnReady, SpawnReadyLayer};
use tower_layer::Layer;
use tower_service::Service;

#[derive(Debug, Clone, Copy, PartialEq)]
enum Ev {
    Ready(Option<u64>),
    Call(u64, Option<u64>),
    Poll(u64, Option<u64>),
}
type Log = Arc<Mutex<Vec<Ev>>>;
struct Spy(Probe, Log);
impl Service<Req> for Spy {
    type Response = Resp;
    type Error = PErr;
    type Future = SpyFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), PErr>> {
        self.1.lock().unwrap().push(Ev::Ready(sched::current()));
        self.0.poll_ready(cx)
    }
    fn call(&mut self, r: Req) -> SpyFut {
        self.1.lock().unwrap().push(Ev::Call(r.id, sched::current()));
        let id = r.id;
        SpyFut(self.0.call(r), id, self.1.clone())
    }
}
struct SpyFut(ProbeFut, u64, Log);
impl Future for SpyFut {
    type Output = Result<Resp, PErr>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let id = self.1;
        self.2.lock().unwrap().push(Ev::Poll(id, sched::current()));
        Pin::new(&mut self.0).poll(cx)
    }
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Op {
    /// readiness check and, if ready, a call; inside a span of its own, inside a shared one, or outside of any
    Call(u8, u8),
    Ready(u8, u8),
    Clone(u8),
    DropHandle(u8),
    PollFut(u8, u8),
    DropFut(u8),
    /// the worker (or every background task) runs, inside some span
    Worker(u8),
    Credits(u8),
    Hiccup(u8),
    Complete(u8),
    Fail,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct TraceCase {
    /// 0: buffer polled by hand; 1, 2: spawned buffer; 3, 4: spawn-ready
    kind: u8,
    bound: u8,
    credits: u8,
    ops: Vec<Op>,
}
fn arb() -> impl Strategy<Value = TraceCase> {
    let sp = || 0u8..6;
    let op = weighted(vec![
        (120, (0u8..4, sp()).prop_map(|(a, b)| Op::Call(a, b)).boxed()),
        (30, (0u8..4, sp()).prop_map(|(a, b)| Op::Ready(a, b)).boxed()),
        (15, (0u8..4).prop_map(Op::Clone).boxed()),
        (10, (0u8..4).prop_map(Op::DropHandle).boxed()),
        (40, (0u8..8, sp()).prop_map(|(a, b)| Op::PollFut(a, b)).boxed()),
        (25, (0u8..8).prop_map(Op::DropFut).boxed()),
        (90, sp().prop_map(Op::Worker).boxed()),
        (60, (0u8..4).prop_map(Op::Credits).boxed()),
        (15, (1u8..4).prop_map(Op::Hiccup).boxed()),
        (30, (0u8..8).prop_map(Op::Complete).boxed()),
        (2, Just(Op::Fail).boxed()),
    ]);
    (0u8..5, 1u8..5, 0u8..4, hist(op, 50)).prop_map(|(kind, bound, credits, ops)| TraceCase { kind, bound, credits, ops })
}

/// Spans to enter: 0-1 none, 2-3 a fresh one, 4 a shared one, 5 a fresh one inside a shared one.
struct Spans(Vec<tracing::Span>);
impl Spans {
    fn within<T>(&mut self, k: u8, f: impl FnOnce() -> T) -> (Option<u64>, T) {
        let shared = self.0[0].clone();
        let fresh = tracing::info_span!("request");
        let (a, b) = match k {
            0 | 1 => (None, None),
            2 | 3 => (None, Some(fresh)),
            4 => (Some(shared), None),
            _ => (Some(shared), Some(fresh)),
        };
        let _a = a.as_ref().map(|s| s.enter());
        let _b = b.as_ref().map(|s| s.enter());
        let cur = sched::current();
        let r = f();
        drop((_a, _b));
        self.0.extend(b);
        (cur, r)
    }
}

fn chk(c: &TraceCase, cov: &mut Cov) -> R {
    sched::spans(|| block_on(run(c, cov)))
}
async fn run(c: &TraceCase, cov: &mut Cov) -> R {
    if c.kind >= 3 {
        return spawn_ready(c, cov).await;
    }
    let w = World::new();
    let g = w.group(Group { credits: c.credits as u64, ..Default::default() });
    let log: Log = Default::default();
    let spy = Spy(w.probe(g), log.clone());
    type B = Buffer<Req, SpyFut>;
    let mut spans = Spans(vec![tracing::info_span!("shared")]);
    let (b, mut worker): (B, Option<Pin<Box<dyn Future<Output = ()>>>>) = match c.kind {
        0 => {
            let (b, wk) = Buffer::pair(spy, c.bound as usize);
            (b, Some(Box::pin(wk)))
        }
        1 => (Buffer::new(spy, c.bound as usize), None),
        _ => (BufferLayer::new(c.bound as usize).layer(spy), None),
    };
    let spawned = c.kind > 0;
    let mut hs = vec![(b, false)];
    let mut fs: Vec<(u64, Pin<Box<tower::buffer::future::ResponseFuture<SpyFut>>>)> = vec![];
    let mut next = 1u64;
    // accepted, not dispatched, with the span each was called in
    let mut queue: VecDeque<(u64, Option<u64>, bool)> = VecDeque::new();
    let (mut resumed, mut dispatched, mut own) = (0, 0, 0);
    let mut over = false;
    macro_rules! work {
        ($k:expr) => {{
            let outer;
            w.begin_step();
            if spawned {
                outer = None;
                settle().await;
            } else {
                let (o, done) = spans.within($k, || worker.as_mut().map(|wk| poll_fut(wk.as_mut()).0.is_ready()));
                outer = o;
                if done == Some(true) {
                    worker = None;
                    over = true;
                }
            }
            let evs = std::mem::take(&mut *log.lock().unwrap());
            // a spawned worker may have been polled several times; each poll of it judges what is live then
            queue.retain(|(_, _, dropped)| !*dropped);
            let mut asked = false;
            for e in evs {
                match e {
                    Ev::Ready(cur) => {
                        let Some((id, sp, _)) = queue.front().copied() else {
                            return Err("the worker polls the service although no request waits".into());
                        };
                        let want = sp.or(outer);
                        ensure!(cur == want, "readiness for request {id} is polled in span {cur:?}, the request was called in {sp:?} (worker in {outer:?})");
                        if asked {
                            resumed += 1;
                        }
                        asked = true;
                    }
                    Ev::Call(id, cur) => {
                        let (_, sp, _) = match queue.pop_front() {
                            Some(q) if q.0 == id => q,
                            o => return Err(format!("request {id} dispatched, expected {o:?}")),
                        };
                        let want = sp.or(outer);
                        ensure!(cur == want, "request {id} is dispatched in span {cur:?} but was called in {sp:?} (worker in {outer:?})");
                        dispatched += 1;
                        own += (sp.is_some()) as u32;
                        asked = false;
                    }
                    Ev::Poll(id, _) => return Err(format!("the worker polled the response of request {id}")),
                }
            }
            over = over || w.lock().svcs[0].failed.is_some();
            if over {
                queue.clear();
            }
        }};
    }
    for &op in &c.ops {
        match op {
            Op::Call(i, k) | Op::Ready(i, k) if !hs.is_empty() => {
                if spawned {
                    work!(0);
                }
                let i = i as usize % hs.len();
                let call = matches!(op, Op::Call(..));
                let id = next;
                let h = &mut hs[i];
                let (cur, f) = spans.within(k, || {
                    if !h.1 {
                        let r = with_waker(|cx| h.0.poll_ready(cx)).0;
                        h.1 = matches!(r, Poll::Ready(Ok(())));
                    }
                    if h.1 && call {
                        h.1 = false;
                        return Some(h.0.call(req(id)));
                    }
                    None
                });
                if let Some(f) = f {
                    next += 1;
                    fs.push((id, Box::pin(f)));
                    if !over {
                        queue.push_back((id, cur, false));
                    }
                }
                ensure!(log.lock().unwrap().is_empty(), "a handle used the service itself");
            }
            Op::Clone(i) if !hs.is_empty() && hs.len() < 4 => {
                let h = hs[i as usize % hs.len()].0.clone();
                hs.push((h, false));
            }
            Op::DropHandle(i) if hs.len() > 1 => {
                let n = hs.len();
                hs.remove(i as usize % n);
            }
            Op::PollFut(i, k) if !fs.is_empty() => {
                if spawned {
                    work!(0);
                }
                let i = i as usize % fs.len();
                let f = &mut fs[i];
                let (cur, r) = spans.within(k, || poll_fut(f.1.as_mut()).0);
                for e in std::mem::take(&mut *log.lock().unwrap()) {
                    ensure!(e == Ev::Poll(f.0, cur), "polling the response of request {} in span {cur:?} gives {e:?}", f.0);
                }
                if r.is_ready() {
                    fs.remove(i);
                }
            }
            Op::DropFut(i) if !fs.is_empty() => {
                if spawned {
                    work!(0);
                }
                let n = fs.len();
                let (id, f) = fs.remove(i as usize % n);
                drop(f);
                for q in queue.iter_mut().filter(|q| q.0 == id) {
                    q.2 = true;
                }
            }
            Op::Worker(k) => work!(k),
            Op::Credits(n) => w.add_credits(g, n as u64),
            Op::Hiccup(n) => w.set_hiccups(g, n as u32),
            Op::Complete(k) => {
                let open = w.waiting_calls();
                if !open.is_empty() {
                    w.complete(open[k as usize % open.len()], Ok(()));
                }
            }
            Op::Fail => w.set_fail(g, Some(77)),
            _ => {}
        }
        ensure!(sched::depth() == 0, "a span is left entered");
    }
    w.set_hiccups(g, 0);
    w.set_credits(g, FREE);
    for _ in 0..3 {
        work!(2);
        ensure!(sched::depth() == 0, "a span is left entered");
    }
    cov.hit_if(resumed > 0, "a waiting request was polled more than once");
    cov.hit(if spawned { "spawned buffer" } else { "buffer polled by hand" });
    if dispatched >= 2 && own >= 1 {
        cov.nontrivial();
    }
    Ok(())
}

async fn spawn_ready(c: &TraceCase, cov: &mut Cov) -> R {
    let w = World::new();
    let g = w.group(Group { credits: c.credits as u64, ..Default::default() });
    let log: Log = Default::default();
    let spy = Spy(w.probe(g), log.clone());
    let mut spans = Spans(vec![tracing::info_span!("shared")]);
    let mut s: SpawnReady<Spy> = if c.kind == 3 { SpawnReady::new(spy) } else { SpawnReadyLayer::new().layer(spy) };
    let mut next = 1u64;
    let mut ready = false;
    // the span of the readiness check that started the background work
    let mut bg: Option<Option<u64>> = None;
    let mut fs: Vec<(u64, Pin<Box<<SpawnReady<Spy> as Service<Req>>::Future>>)> = vec![];
    let (mut background, mut started) = (0, 0);
    for &op in &c.ops {
        w.begin_step();
        match op {
            Op::Call(_, k) | Op::Ready(_, k) => {
                let call = matches!(op, Op::Call(..));
                let (cur, r) = spans.within(k, || with_waker(|cx| s.poll_ready(cx)).0);
                for e in std::mem::take(&mut *log.lock().unwrap()) {
                    ensure!(e == Ev::Ready(cur), "the caller's readiness check in span {cur:?} gives {e:?}");
                    // polled directly: any background work is over
                    bg = None;
                }
                match r {
                    Poll::Pending => {
                        if bg.is_none() {
                            started += 1;
                            bg = Some(cur);
                        }
                        ready = false;
                    }
                    Poll::Ready(Err(_)) => break,
                    Poll::Ready(Ok(())) => {
                        bg = None;
                        ready = true;
                    }
                }
                if ready && call {
                    let id = next;
                    next += 1;
                    ready = false;
                    let (cur, f) = spans.within(k, || s.call(req(id)));
                    for e in std::mem::take(&mut *log.lock().unwrap()) {
                        ensure!(e == Ev::Call(id, cur), "a call in span {cur:?} gives {e:?}");
                    }
                    fs.push((id, Box::pin(f)));
                }
            }
            Op::PollFut(i, k) if !fs.is_empty() => {
                let i = i as usize % fs.len();
                let f = &mut fs[i];
                let (cur, r) = spans.within(k, || poll_fut(f.1.as_mut()).0);
                for e in std::mem::take(&mut *log.lock().unwrap()) {
                    ensure!(e == Ev::Poll(f.0, cur), "polling the response of request {} in span {cur:?} gives {e:?}", f.0);
                }
                if r.is_ready() {
                    fs.remove(i);
                }
            }
            Op::Worker(_) => {
                settle().await;
                for e in std::mem::take(&mut *log.lock().unwrap()) {
                    match (e, bg) {
                        (Ev::Ready(cur), Some(sp)) => {
                            ensure!(cur == sp, "background readiness is polled in span {cur:?}; the check that started it was made in {sp:?}");
                            background += (sp.is_some()) as u32;
                        }
                        o => return Err(format!("the background work does {o:?}")),
                    }
                }
            }
            Op::Credits(n) => w.add_credits(g, n as u64),
            Op::Hiccup(n) => w.set_hiccups(g, n as u32),
            Op::Complete(k) => {
                let open = w.waiting_calls();
                if !open.is_empty() {
                    w.complete(open[k as usize % open.len()], Ok(()));
                }
            }
            Op::Fail => w.set_fail(g, Some(77)),
            _ => {}
        }
        ensure!(sched::depth() == 0, "a span is left entered");
    }
    cov.hit("spawn-ready");
    if background >= 1 && started >= 1 {
        cov.nontrivial();
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C34",
        assumptions: &["a tracing subscriber that records spans is installed"],
        subs: vec![sub("history", "two dispatches, one of a request called in a span; or background readiness started in a span", 120_000, arb, chk)],
    }]
}
