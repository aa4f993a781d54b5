//! C18 p2c choice, C19 discovery following, C20 random source.
use crate::core::*;
use crate::ensure;
use crate::probe::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tower::balance::p2c::Balance;
use tower::discover::Change;
use tower::load::Load;
use tower::util::rng::{HasherRng, Rng};
use tower_service::Service;

/// Probe whose load readings are recorded.
#[derive(Debug)]
pub struct LP {
    pub p: Probe,
    pub reads: Arc<Mutex<Vec<usize>>>,
}
impl Service<Req> for LP {
    type Response = Resp;
    type Error = PErr;
    type Future = ProbeFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), PErr>> {
        self.p.poll_ready(cx)
    }
    fn call(&mut self, r: Req) -> ProbeFut {
        self.p.call(r)
    }
}
impl Load for LP {
    type Metric = u64;
    fn load(&self) -> u64 {
        self.reads.lock().unwrap().push(self.p.id);
        self.p.load()
    }
}
pub enum Item {
    Insert(u8, LP),
    Remove(u8),
    Err(u64),
    End,
}
#[derive(Default)]
struct DSt {
    q: VecDeque<Item>,
    waker: Option<Waker>,
    ended: bool,
    polled_after_end: bool,
}
#[derive(Clone, Default)]
pub struct Disc(Arc<Mutex<DSt>>);
impl Disc {
    pub fn queued(&self) -> usize {
        self.0.lock().unwrap().q.len()
    }
    pub fn polled_after_end(&self) -> bool {
        self.0.lock().unwrap().polled_after_end
    }
    pub fn push(&self, i: Item) {
        let wk = {
            let mut x = self.0.lock().unwrap();
            x.q.push_back(i);
            x.waker.take()
        };
        if let Some(w) = wk {
            w.wake()
        }
    }
}
impl futures_core::Stream for Disc {
    type Item = Result<Change<u8, LP>, PErr>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let mut x = self.0.lock().unwrap();
        if x.ended {
            x.polled_after_end = true;
            return Poll::Ready(None);
        }
        match x.q.pop_front() {
            Some(Item::Insert(k, s)) => Poll::Ready(Some(Ok(Change::Insert(k, s)))),
            Some(Item::Remove(k)) => Poll::Ready(Some(Ok(Change::Remove(k)))),
            Some(Item::Err(e)) => Poll::Ready(Some(Err(PErr(e)))),
            Some(Item::End) => {
                x.ended = true;
                Poll::Ready(None)
            }
            None => {
                x.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
/// Shared between many balancers.
#[derive(Clone)]
struct Mix(Arc<Mutex<u64>>);
impl Rng for Mix {
    fn next_u64(&mut self) -> u64 {
        splitmix(&mut self.0.lock().unwrap())
    }
}
#[derive(Clone)]
struct Script(Arc<Vec<u64>>, usize);
impl Rng for Script {
    fn next_u64(&mut self) -> u64 {
        self.1 += 1;
        self.0[(self.1 - 1) % self.0.len()]
    }
}

// ---------------------------------------------------------------- history
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Op {
    Insert(u8, u8, u8),
    Remove(u8),
    End,
    DErr,
    Grant(u8, u8),
    Fail(u8),
    Revoke(u8),
    Load(u8, u8),
    Hiccup(u8, u8),
    Ready,
    ReadyWoken,
    Call,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct BCase {
    keys: u8,
    rng: Vec<u64>,
    ops: Vec<Op>,
}
fn arb(faults: bool) -> impl Strategy<Value = BCase> {
    let k = size(0..8, 8..64);
    let key = k.clone();
    let f = move |n: u32| if faults { n } else { n / 4 };
    let op = move || {
        weighted(vec![
            (40, (k.clone(), 0u8..5, 0u8..10).prop_map(|(a, b, c)| Op::Insert(a, b, c)).boxed()),
            (f(16), k.clone().prop_map(Op::Remove).boxed()),
            (1, Just(Op::End).boxed()),
            (f(2), Just(Op::DErr).boxed()),
            (25, (size(0..16, 16..100), 0u8..4).prop_map(|(a, b)| Op::Grant(a, b)).boxed()),
            (f(12), size(0..16, 16..100).prop_map(Op::Fail).boxed()),
            (f(12), size(0..16, 16..100).prop_map(Op::Revoke).boxed()),
            (20, (size(0..16, 16..100), 0u8..10).prop_map(|(a, b)| Op::Load(a, b)).boxed()),
            (f(4), (size(0..16, 16..100), 1u8..3).prop_map(|(a, b)| Op::Hiccup(a, b)).boxed()),
            (40, Just(Op::Ready).boxed()),
            (15, Just(Op::ReadyWoken).boxed()),
            (45, Just(Op::Call).boxed()),
        ])
    };
    let bits = prop_oneof![4 => any::<u64>(), 2 => 0u64..16, 1 => Just(u64::MAX)];
    let part = prop_oneof![
        30 => op().prop_map(|o| vec![o]),
        // a ready endpoint goes while its replacement is not ready yet, after one was chosen
        2 => (key, 0u8..3, 0u8..10, any::<[bool; 3]>()).prop_map(|(k, n, l, b)| {
            let mut v = vec![Op::Ready, Op::Insert(k, n, l)];
            v.extend(b[0].then_some(Op::Ready));
            v.extend(b[1].then_some(Op::Load(k, l)));
            v.push(Op::Remove(k));
            v.extend(b[2].then_some(Op::Ready));
            v.push(Op::Call);
            v
        }),
    ];
    (size(1..8, 8..64), prop::collection::vec(bits, 1..24), hist(part, 70)).prop_map(|(keys, rng, ops)| {
        let mut ops: Vec<Op> = ops.into_iter().flatten().collect();
        // now and then many endpoints from the start
        if keys >= 8 {
            let mut all: Vec<Op> = (0..keys).map(|k| Op::Insert(k, 1 + k % 4, k % 10 * 7 % 10)).collect();
            all.append(&mut ops);
            ops = all;
        }
        BCase { keys, rng, ops }
    })
}

fn history(c: &BCase, cov: &mut Cov, choice: bool) -> R {
    let w = World::new();
    let d = Disc::default();
    let reads = Arc::new(Mutex::new(vec![]));
    let mut b: Balance<Disc, Req> = Balance::from_rng(d.clone(), Script(Arc::new(c.rng.clone()), 0));
    // undelivered changes
    let mut q: VecDeque<Item2> = VecDeque::new();
    #[derive(Debug)]
    enum Item2 {
        Insert(u8, usize),
        Remove(u8),
        Err,
        End,
    }
    let mut cur: BTreeMap<u8, usize> = BTreeMap::new();
    let mut old: BTreeMap<u8, usize> = BTreeMap::new();
    let mut delivered: Vec<usize> = vec![];
    let mut inserted: Vec<usize> = vec![];
    let mut gone: BTreeSet<usize> = BTreeSet::new(); // removed: must be dropped, never called
    let mut was_ready: BTreeSet<usize> = BTreeSet::new();
    let mut ready = false;
    let mut flag: Option<Arc<Flag>> = None;
    let mut ended = false;
    let mut next = 1u64;
    // (svc, load, still ready) of the endpoints last known to be ready, at each ready report since the last call
    let mut snaps: Vec<Vec<(usize, u64, bool)>> = vec![];
    let (mut calls, mut multi, mut changes, mut failures, mut after_end, mut replaced) = (0, 0, 0, 0, 0, 0);
    let grp = |id: usize| w.svc(id).group;
    let load_of = |id: usize| { let x = w.lock(); x.groups[x.svcs[id].group].load };
    macro_rules! wake_if_waiting {
        ($why:expr) => {
            if let Some(f) = &flag {
                ensure!(f.woken(), "waiting task not woken when {}", $why);
            }
        };
    }
    macro_rules! poll_ready {
        () => {{
            w.begin_step();
            let hic = { let x = w.lock(); x.svcs.iter().any(|s| s.alive && x.groups[s.group].hiccups > 0) };
            let (r, fl) = with_waker(|cx| b.poll_ready(cx));
            cov.tr(|| format!("poll_ready -> {r:?}"));
            // changes
            let mut derr = false;
            while let Some(it) = q.pop_front() {
                match it {
                    Item2::Insert(k, s) => {
                        delivered.push(s);
                        changes += 1;
                        if let Some(prev) = cur.insert(k, s) {
                            if was_ready.contains(&prev) && w.svc(prev).alive {
                                old.insert(k, prev);
                            } else {
                                gone.insert(prev);
                            }
                            replaced += 1;
                        }
                    }
                    Item2::Remove(k) => {
                        changes += 1;
                        gone.extend(cur.remove(&k));
                        gone.extend(old.remove(&k));
                    }
                    Item2::Err => {
                        derr = true;
                        break;
                    }
                    Item2::End => {
                        ended = true;
                        break;
                    }
                }
            }
            if derr {
                match r {
                    Poll::Ready(Err(e)) => {
                        ensure!(find_perr(e.as_ref()) == Some(4242), "discovery failure reported as {e:?}");
                        cov.hit("discovery failed");
                    }
                    r => return Err(format!("discovery failure not reported: {r:?}")),
                }
                return Ok(());
            }
            if !matches!(&r, Poll::Ready(Err(_))) {
                ensure!(d.0.lock().unwrap().q.is_empty(), "discovery changes left unprocessed");
            }
            for s in &inserted {
                if w.svc(*s).ready {
                    was_ready.insert(*s);
                }
            }
            // promoted replacements drop the old version
            for (k, s) in &cur {
                if was_ready.contains(s) || w.svc(*s).failed.is_some() {
                    if was_ready.contains(s) {
                        gone.extend(old.remove(k));
                    }
                }
            }
            if !hic {
                for s in &gone {
                    ensure!(!w.svc(*s).alive, "removed or replaced endpoint {s} was not dropped");
                }
            }
            for s in &delivered {
                let st = w.svc(*s);
                if st.failed.is_some() {
                    failures += 1;
                    ensure!(!st.alive, "failed endpoint {s} was not dropped");
                }
            }
            cur.retain(|_, s| w.svc(*s).failed.is_none());
            old.retain(|_, s| w.svc(*s).alive);
            for s in cur.values() {
                ensure!(w.svc(*s).alive, "member {s} was dropped");
                // never yet ready: must be promoted if it answers
                ensure!(hic || was_ready.contains(s) || !w.answers(*s), "member {s} could become ready but was not checked");
            }
            let members: Vec<usize> = cur.values().chain(old.values()).copied().collect();
            let any = members.iter().any(|s| w.svc(*s).ready);
            match r {
                Poll::Ready(Ok(())) => {
                    ensure!(any, "ready without a ready member");
                    ready = true;
                    flag = None;
                    if ended { after_end += 1; }
                    snaps.push(members.iter().filter(|s| was_ready.contains(s)).map(|s| (*s, load_of(*s), w.svc(*s).ready)).collect());
                }
                Poll::Pending => {
                    ensure!(!any, "not ready although a member is");
                    if !hic {
                        for s in &members {
                            ensure!(!w.answers(*s), "not ready although member {s} would answer");
                        }
                    }
                    ready = false;
                    snaps.clear();
                    flag = Some(fl);
                }
                Poll::Ready(Err(e)) => return Err(format!("readiness failed with {e:?} although discovery works")),
            }
            ensure!(!d.0.lock().unwrap().polled_after_end, "discovery polled again after it ended");
        }};
    }
    for &op in &c.ops {
        match op {
            Op::Insert(k, credits, load) if !ended && !q.iter().any(|i| matches!(i, Item2::End | Item2::Err)) => {
                let k = k % c.keys;
                let g = w.group(Group { credits: if credits >= 3 { FREE } else { credits as u64 }, load: load as u64, auto: Some(Ok(())), ..Default::default() });
                let p = w.probe(g);
                inserted.push(p.id);
                q.push_back(Item2::Insert(k, p.id));
                d.push(Item::Insert(k, LP { p, reads: reads.clone() }));
                wake_if_waiting!("an endpoint was inserted");
            }
            Op::Remove(k) if !ended && !q.iter().any(|i| matches!(i, Item2::End | Item2::Err)) => {
                q.push_back(Item2::Remove(k % c.keys));
                d.push(Item::Remove(k % c.keys));
                wake_if_waiting!("an endpoint was removed");
            }
            Op::End if !ended && !q.iter().any(|i| matches!(i, Item2::End | Item2::Err)) => {
                q.push_back(Item2::End);
                d.push(Item::End);
            }
            Op::DErr if !ended && !q.iter().any(|i| matches!(i, Item2::End | Item2::Err)) => {
                q.push_back(Item2::Err);
                d.push(Item::Err(4242));
                wake_if_waiting!("discovery failed");
            }
            Op::Grant(i, n) if !inserted.is_empty() => {
                let s = inserted[i as usize % inserted.len()];
                w.set_credits(grp(s), if n == 3 { FREE } else { n as u64 });
                if n > 0 && w.svc(s).alive && delivered.contains(&s) && cur.values().any(|x| *x == s) {
                    wake_if_waiting!("a pending endpoint became ready");
                }
            }
            Op::Fail(i) if !inserted.is_empty() => {
                let s = inserted[i as usize % inserted.len()];
                w.set_fail(grp(s), Some(800 + s as u64));
                if w.svc(s).alive && delivered.contains(&s) && cur.values().any(|x| *x == s) {
                    wake_if_waiting!("a pending endpoint failed");
                }
                ready = false;
            }
            Op::Revoke(i) => {
                let rs: Vec<usize> = delivered.iter().copied().filter(|s| w.svc(*s).alive && w.svc(*s).ready).collect();
                if !rs.is_empty() {
                    let s = rs[i as usize % rs.len()];
                    w.set_credits(grp(s), 0);
                    w.revoke(s);
                    ready = false;
                }
            }
            Op::Load(i, l) if !inserted.is_empty() => {
                let s = inserted[i as usize % inserted.len()];
                w.set_load(grp(s), l as u64);
            }
            Op::Hiccup(i, n) if !inserted.is_empty() => {
                let s = inserted[i as usize % inserted.len()];
                w.set_hiccups(grp(s), n as u32);
            }
            Op::Ready => poll_ready!(),
            Op::ReadyWoken => {
                if flag.as_ref().map_or(true, |f| f.woken()) {
                    poll_ready!()
                }
            }
            Op::Call => {
                if !ready {
                    poll_ready!();
                }
                if !ready {
                    continue;
                }
                let n = w.ncalls();
                let f = b.call(req(next));
                next += 1;
                drop(f);
                let s = { let x = w.lock(); ensure!(x.calls.len() == n + 1, "request not dispatched"); x.calls[n].svc };
                ready = false;
                calls += 1;
                ensure!(!gone.contains(&s), "request dispatched to removed or replaced endpoint {s}");
                ensure!(cur.values().chain(old.values()).any(|x| *x == s), "request dispatched to {s}, which is no member");
                if let Some((k, _)) = old.iter().find(|(_, x)| **x == s) {
                    ensure!(cur.get(k).map_or(true, |n| !was_ready.contains(n)), "request dispatched to the replaced endpoint {s} of key {k}");
                }
                let fine = snaps.iter().any(|sn| {
                    sn.iter().find(|x| x.0 == s).map_or(false, |me| sn.iter().all(|o| o.0 == s || !o.2) || sn.iter().any(|o| o.0 != s && o.1 >= me.1))
                });
                ensure!(fine, "request dispatched to endpoint {s}, which had the strictly highest load of all ready endpoints whenever it may have been selected: {snaps:?}");
                if snaps.last().map_or(false, |s| s.len() > 2) {
                    multi += 1;
                }
                cov.hit_if(snaps.len() > 1, "several readiness checks before the call");
                snaps.clear();
                if !w.svc(s).alive {
                    old.retain(|_, x| *x != s);
                    gone.insert(s);
                }
                was_ready.remove(&s);
            }
            _ => {}
        }
        let alive = delivered.iter().filter(|s| w.svc(**s).alive).count();
        ensure!(b.len() == alive && b.is_empty() == (alive == 0), "len {} but {alive} endpoints are held", b.len());
        if let Some(v) = w.violation() {
            return Err(v);
        }
    }
    // keeps serving
    drop(b);
    drop(d);
    cov.hit_if(after_end > 0, "ready after discovery ended");
    cov.hit_if(failures > 0, "endpoint failed");
    cov.hit_if(replaced > 0, "endpoint replaced");
    cov.hit_if(multi > 0, "choice among three or more");
    if choice {
        if multi >= 2 {
            cov.nontrivial();
        }
    } else if calls >= 1 && changes >= 3 && (failures > 0 || replaced > 0 || after_end > 0) {
        cov.nontrivial();
    }
    Ok(())
}
fn choice(c: &BCase, cov: &mut Cov) -> R {
    history(c, cov, true)
}
fn follow(c: &BCase, cov: &mut Cov) -> R {
    history(c, cov, false)
}

// ---------------------------------------------------------------- distribution
#[derive(Debug, Clone, Serialize, Deserialize)]
struct DistCase {
    n: u8,
    seed: u64,
    /// a new balancer for every choice (fixed positions), or one that keeps serving
    fresh: bool,
}
fn arb_dist() -> impl Strategy<Value = DistCase> {
    (2u8..9, any::<u64>(), any::<bool>()).prop_map(|(n, seed, fresh)| DistCase { n, seed, fresh })
}
/// Loose bound on a chi-square statistic: far beyond any quantile that matters.
fn chi_ok(obs: &[u64], exp: &[f64]) -> bool {
    let chi: f64 = obs.iter().zip(exp).filter(|(_, e)| **e > 0.0).map(|(o, e)| (*o as f64 - e).powi(2) / e).sum();
    let df = exp.len() as f64;
    chi <= df + 10.0 * (2.0 * df).sqrt() + 40.0
}
fn dist(c: &DistCase, cov: &mut Cov) -> R {
    let n = c.n as usize;
    let mut seed = c.seed;
    let mut loads: Vec<u64> = (0..n as u64).collect();
    for i in (1..n).rev() {
        loads.swap(i, (splitmix(&mut seed) % (i as u64 + 1)) as usize);
    }
    let rng = Mix(Arc::new(Mutex::new(seed)));
    let trials = 1200u64;
    let reads = Arc::new(Mutex::new(vec![]));
    let mut chosen = vec![0u64; n]; // by rank of load
    let mut pairs: BTreeMap<(usize, usize), u64> = BTreeMap::new();
    let mut odd = 0u64;
    let make = |w: &World, d: &Disc| {
        for (i, l) in loads.iter().enumerate() {
            let g = w.group(Group { load: *l, auto: Some(Ok(())), ..Default::default() });
            d.push(Item::Insert(i as u8, LP { p: w.probe(g), reads: reads.clone() }));
        }
        let b: Balance<Disc, Req> = Balance::from_rng(d.clone(), rng.clone());
        b
    };
    let mut w = World::new();
    let mut d = Disc::default();
    let mut b = make(&w, &d);
    for t in 0..trials {
        if c.fresh && t > 0 {
            w = World::new();
            d = Disc::default();
            b = make(&w, &d);
        }
        w.begin_step();
        reads.lock().unwrap().clear();
        let (r, _) = with_waker(|cx| b.poll_ready(cx));
        ensure!(matches!(r, Poll::Ready(Ok(()))), "not ready");
        let mut rd = reads.lock().unwrap().clone();
        rd.sort();
        rd.dedup();
        if rd.len() == 2 {
            *pairs.entry((rd[0], rd[1])).or_default() += 1;
        } else {
            odd += 1;
        }
        drop(b.call(req(t)));
        let x = w.lock();
        let s = x.calls.last().unwrap().svc;
        chosen[loads[s] as usize] += 1;
    }
    ensure!(chosen[n - 1] == 0, "the most loaded of {n} endpoints was chosen {} times", chosen[n - 1]);
    let total = (n * (n - 1)) as f64;
    let exp: Vec<f64> = (0..n).map(|r| trials as f64 * 2.0 * (n - 1 - r) as f64 / total).collect();
    ensure!(chi_ok(&chosen, &exp), "choices by load rank {chosen:?} of {trials}, expected about {exp:?}");
    if odd == 0 && n > 2 {
        // exactly two loads were compared each time: every pair must be equally likely
        let np = n * (n - 1) / 2;
        let obs: Vec<u64> = (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).map(|p| pairs.get(&p).copied().unwrap_or(0)).collect();
        ensure!(chi_ok(&obs, &vec![trials as f64 / np as f64; np]), "compared pairs {pairs:?} are not equally likely");
        cov.hit("pairs observed");
        cov.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- random source
#[derive(Debug, Clone, Serialize, Deserialize)]
struct RCase {
    vals: Vec<u64>,
    ranges: Vec<(u64, u64)>,
}
fn arb_rng() -> impl Strategy<Value = RCase> {
    let bits = || prop_oneof![3 => any::<u64>(), 1 => prop::sample::select(vec![0u64, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, (1 << 53) - 1, 1 << 11, (1 << 11) - 1, !0 << 11])];
    let range = prop_oneof![
        3 => (bits(), bits()),
        2 => (0u64..20, 1u64..20).prop_map(|(a, l)| (a, a + l)),
        1 => bits().prop_map(|a| (a, a.saturating_add(1))),
    ];
    (prop::collection::vec(bits(), 1..8), prop::collection::vec(range, 1..6)).prop_map(|(vals, ranges)| RCase { vals, ranges })
}
/// Hasher that answers with scripted bits.
#[derive(Clone)]
struct Bits(Arc<Vec<u64>>, Arc<Mutex<usize>>);
struct BitsHasher(u64);
impl std::hash::Hasher for BitsHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
}
impl std::hash::BuildHasher for Bits {
    type Hasher = BitsHasher;
    fn build_hasher(&self) -> BitsHasher {
        let mut i = self.1.lock().unwrap();
        *i += 1;
        BitsHasher(self.0[(*i - 1) % self.0.len()])
    }
}
fn random(c: &RCase, cov: &mut Cov) -> R {
    let v = Arc::new(c.vals.clone());
    let mut rngs: Vec<Box<dyn Rng>> = vec![
        Box::new(Script(v.clone(), 0)),
        Box::new(HasherRng::with_hasher(Bits(v.clone(), Arc::new(Mutex::new(0))))),
        Box::new(HasherRng::new()),
        Box::new(Box::new(Script(v.clone(), 0))),
    ];
    for (i, r) in rngs.iter_mut().enumerate() {
        for _ in 0..c.vals.len() {
            let f = r.next_f64();
            ensure!((0.0..1.0).contains(&f), "generator {i} gave the float {f}");
        }
        for &(a, b) in &c.ranges {
            if a < b {
                for _ in 0..c.vals.len() {
                    let n = r.next_range(a..b);
                    ensure!((a..b).contains(&n), "generator {i} gave {n} for {a}..{b}");
                }
                cov.hit("range");
                if b - a > 1 {
                    cov.nontrivial();
                }
            }
        }
    }
    let take = |mut r: HasherRng| (0..4).map(|_| r.next_u64()).collect::<Vec<_>>();
    let (a, b, d) = (take(HasherRng::new()), take(HasherRng::new()), take(HasherRng::default()));
    ensure!(a != b && b != d && a != d, "two generators give the same sequence {a:?}");
    ensure!(a.iter().any(|x| *x != a[0]), "generator stuck at {}", a[0]);
    Ok(())
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct SCase {
    loads: Vec<u8>,
    vals: Vec<u64>,
    rounds: u8,
}
fn arb_sample() -> impl Strategy<Value = SCase> {
    let bits = || prop_oneof![2 => any::<u64>(), 2 => 0u64..40, 1 => prop::sample::select(vec![0u64, u64::MAX, u64::MAX - 1, 1 << 63])];
    (prop::collection::vec(any::<u8>(), 2..40), prop::collection::vec(bits(), 1..12), 1u8..12).prop_map(|(loads, vals, rounds)| SCase { loads, vals, rounds })
}
fn sample(c: &SCase, cov: &mut Cov) -> R {
    let w = World::new();
    let d = Disc::default();
    let reads = Arc::new(Mutex::new(vec![]));
    for (i, l) in c.loads.iter().enumerate() {
        let g = w.group(Group { load: *l as u64, auto: Some(Ok(())), ..Default::default() });
        d.push(Item::Insert(i as u8, LP { p: w.probe(g), reads: reads.clone() }));
    }
    let mut b: Balance<Disc, Req> = Balance::from_rng(d.clone(), Script(Arc::new(c.vals.clone()), 0));
    let max = *c.loads.iter().max().unwrap();
    let unique_max = c.loads.iter().filter(|l| **l == max).count() == 1;
    for t in 0..c.rounds as u64 {
        w.begin_step();
        reads.lock().unwrap().clear();
        let (r, _) = with_waker(|cx| b.poll_ready(cx));
        ensure!(matches!(r, Poll::Ready(Ok(()))), "not ready");
        let rd: BTreeSet<usize> = reads.lock().unwrap().iter().copied().collect();
        drop(b.call(req(t)));
        let s = w.lock().calls.last().unwrap().svc;
        ensure!(rd.is_empty() || rd.contains(&s), "chose {s}, but compared {rd:?}");
        ensure!(rd.len() != 1, "only one endpoint was compared");
        ensure!(!unique_max || c.loads[s] != max, "chose the endpoint with the strictly highest load: two-choice sampling compared one endpoint with itself");
    }
    if unique_max {
        cov.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- measured endpoints
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum MOp {
    Insert(u8),
    Remove(u8),
    Ready,
    Call,
    Complete(u8, bool),
    PollFut(u8),
    DropFut(u8),
    Advance(u32),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct MCase {
    ewma: bool,
    keys: u8,
    default_ms: u16,
    decay_ms: u32,
    rng: Vec<u64>,
    ops: Vec<MOp>,
}
fn arb_measured() -> impl Strategy<Value = MCase> {
    let op = prop_oneof![
        8 => (0u8..6).prop_map(MOp::Insert),
        2 => (0u8..6).prop_map(MOp::Remove),
        10 => Just(MOp::Ready),
        40 => Just(MOp::Call),
        14 => (0u8..12, prop::bool::weighted(0.7)).prop_map(|(a, b)| MOp::Complete(a, b)),
        25 => (0u8..12).prop_map(MOp::PollFut),
        6 => (0u8..12).prop_map(MOp::DropFut),
        12 => prop_oneof![1u32..100, 100u32..20_000].prop_map(MOp::Advance),
    ];
    (any::<bool>(), 2u8..6, 1u16..2000, 1u32..60_000, prop::collection::vec(any::<u64>(), 4..24), hist(op, 80))
        .prop_map(|(ewma, keys, default_ms, decay_ms, rng, ops)| MCase { ewma, keys, default_ms, decay_ms, rng, ops })
}
#[derive(Clone)]
struct PDisc(Arc<Mutex<VecDeque<Change<u8, Probe>>>>);
impl futures_core::Stream for PDisc {
    type Item = Result<Change<u8, Probe>, PErr>;
    fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        // looked at again whenever the balancer is: nobody waits here
        match self.0.lock().unwrap().pop_front() {
            Some(c) => Poll::Ready(Some(Ok(c))),
            None => Poll::Pending,
        }
    }
}
fn measured(c: &MCase, cov: &mut Cov) -> R {
    crate::rt::block_on(async {
        use tower::load::{CompleteOnResponse, peak_ewma::PeakEwmaDiscover, pending_requests::PendingRequestsDiscover};
        let d = PDisc(Arc::default());
        let rng = Script(Arc::new(c.rng.clone()), 0);
        let ms = |n: u64| std::time::Duration::from_millis(n);
        if c.ewma {
            let m = PeakEwmaDiscover::new::<Req>(d.clone(), ms(c.default_ms as u64), ms(c.decay_ms as u64), CompleteOnResponse::default());
            measured_on(c, cov, d, Balance::from_rng(m, rng)).await
        } else {
            let m = PendingRequestsDiscover::new::<Req>(d.clone(), CompleteOnResponse::default());
            measured_on(c, cov, d, Balance::from_rng(m, rng)).await
        }
    })
}
async fn measured_on<S>(c: &MCase, cov: &mut Cov, d: PDisc, mut b: S) -> R
where
    S: Service<Req, Response = Resp, Error = tower::BoxError>,
    S::Future: 'static,
{
    use crate::props::load::Model;
    let w = World::new();
    let g = w.group(Group::default());
    let t0 = crate::rt::now();
    let ns = || (crate::rt::now() - t0).as_nanos() as u64;
    let mut cur: BTreeMap<u8, usize> = BTreeMap::new();
    let mut queued: Vec<(u8, Option<usize>)> = vec![];
    let mut model: BTreeMap<usize, Model> = BTreeMap::new();
    // response futures: (future, endpoint, call, sent)
    let mut fs: Vec<(Pin<Box<S::Future>>, usize, usize, u64)> = vec![];
    let mut snaps: Vec<Vec<(usize, f64)>> = vec![];
    let mut ready = false;
    let (mut next, mut choices, mut differ) = (1u64, 0, 0);
    macro_rules! poll_ready {
        () => {{
            w.begin_step();
            let r = with_waker(|cx| b.poll_ready(cx)).0;
            for (k, s) in queued.drain(..) {
                match s {
                    Some(s) => {
                        cur.insert(k, s);
                        // measured from when it is taken from the source
                        model.insert(s, Model { est: c.default_ms as f64 * 1e6, at: ns(), pending: 0 });
                    }
                    None => {
                        cur.remove(&k);
                    }
                }
            }
            match r {
                Poll::Ready(Ok(())) => ensure!(!cur.is_empty(), "ready without endpoints"),
                Poll::Pending => ensure!(cur.is_empty(), "pending although {} endpoints are ready", cur.len()),
                Poll::Ready(Err(e)) => return Err(format!("readiness failed: {e:?}")),
            }
            ready = r.is_ready();
            snaps.push(cur.values().map(|s| {
                let m = model.get_mut(s).unwrap();
                let l = if c.ewma {
                    m.update(0.0, ns(), c.decay_ms as f64 * 1e6);
                    m.est * (m.pending as f64 + 1.0)
                } else {
                    m.pending as f64
                };
                (*s, l)
            }).collect());
        }};
    }
    for &op in &c.ops {
        match op {
            MOp::Insert(k) => {
                let k = k % c.keys;
                let p = w.probe(g);
                queued.push((k, Some(p.id)));
                d.0.lock().unwrap().push_back(Change::Insert(k, p));
            }
            MOp::Remove(k) => {
                let k = k % c.keys;
                queued.push((k, None));
                d.0.lock().unwrap().push_back(Change::Remove(k));
            }
            MOp::Ready => poll_ready!(),
            MOp::Call => {
                if !ready {
                    poll_ready!();
                }
                if !ready {
                    continue;
                }
                ready = false;
                let call = w.ncalls();
                let f = Box::pin(b.call(req(next)));
                ensure!(w.ncalls() == call + 1, "request {next} not dispatched exactly once");
                next += 1;
                let s = w.lock().calls[call].svc;
                ensure!(cur.values().any(|x| *x == s), "dispatched to an endpoint that was removed or replaced");
                cov.tr(|| format!("chose {s}; loads {snaps:?}"));
                let strictly_highest = |sn: &Vec<(usize, f64)>| {
                    let me = sn.iter().find(|x| x.0 == s).map(|x| x.1);
                    me.map_or(true, |me| sn.len() > 1 && sn.iter().all(|x| x.0 == s || x.1 * (1.0 + 1e-6) < me))
                };
                ensure!(!snaps.iter().all(strictly_highest), "chose endpoint {s} with strictly the highest load among {snaps:?}");
                choices += 1;
                if snaps.iter().any(|sn| sn.len() > 1 && sn.iter().any(|x| x.1 != sn[0].1)) {
                    differ += 1;
                }
                snaps.clear();
                let m = model.get_mut(&s).unwrap();
                m.pending += 1;
                fs.push((f, s, call, ns()));
            }
            MOp::Complete(i, ok) => {
                let ws = w.waiting_calls();
                if !ws.is_empty() {
                    let k = ws[i as usize % ws.len()];
                    w.complete(k, if ok { Ok(()) } else { Err(6000 + k as u64) });
                }
            }
            MOp::PollFut(i) | MOp::DropFut(i) if !fs.is_empty() => {
                let i = i as usize % fs.len();
                if matches!(op, MOp::PollFut(_)) {
                    let waiting = w.lock().calls[fs[i].2].st == CallSt::Waiting;
                    let r = poll_fut(fs[i].0.as_mut()).0;
                    ensure!(r.is_pending() == waiting, "response future {r:?} with the inner one waiting: {waiting}");
                    if waiting {
                        continue;
                    }
                }
                let (f, s, _, sent) = fs.remove(i);
                drop(f);
                let m = model.get_mut(&s).unwrap();
                m.pending -= 1;
                m.update((ns() - sent) as f64, ns(), c.decay_ms as f64 * 1e6);
            }
            // while requests are under way the estimate depends on when the balancer looked at it
            MOp::Advance(n) if !c.ewma || fs.is_empty() => tokio::time::advance(std::time::Duration::from_millis(n as u64)).await,
            _ => {}
        }
        if let Some(v) = w.violation() {
            return Err(v);
        }
    }
    cov.hit_if(c.ewma, "peak EWMA");
    if choices >= 3 && differ >= 2 {
        cov.nontrivial();
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C18",
            assumptions: &["loads with a total order", "the frequency check bounds a chi-square statistic far beyond chance"],
            subs: vec![
                sub("history", "two or more choices among at least three ready endpoints", 300_000, || arb(false), choice),
                sub("measured", "three or more choices, two of them among endpoints with different loads", 150_000, arb_measured, measured),
                sub("distribution", "pairs among at least three endpoints observed", 4_000, arb_dist, dist),
            ],
        },
        Prop {
            id: "C19",
            assumptions: &["a replaced endpoint may serve until its replacement is ready", "no further checks after a discovery failure"],
            subs: vec![sub("history", "a request, three changes, and a failed or replaced endpoint or a ready balancer after discovery ended", 300_000, || arb(true), follow)],
        },
        Prop {
            id: "C20",
            assumptions: &["half-open ranges that are not empty"],
            subs: vec![
                sub("bits", "a range of at least two", 150_000, arb_rng, random),
                sub("sample", "one endpoint with the strictly highest load", 60_000, arb_sample, sample),
                sub("distribution", "pairs among at least three endpoints observed", 4_000, arb_dist, dist),
            ],
        },
    ]
}
