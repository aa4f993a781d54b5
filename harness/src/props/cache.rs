//! C17 ready cache.
use crate::core::*;
use crate::ensure;
use crate::probe::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::task::Poll;
use tower::ready_cache::{error::Failed, ReadyCache};

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Op {
    Push(u8, u8),
    Evict(u8),
    Poll,
    /// poll only if the last poll's waker fired
    PollWoken,
    Check(u8),
    CheckIndex(u8),
    /// check first, then call
    Call(u8),
    CallIndex(u8),
    /// call without a check
    CallUnchecked(u8),
    Grant(u8, u8),
    Fail(u8),
    Hiccup(u8, u8),
    Revoke(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct CCase {
    keys: u8,
    ops: Vec<Op>,
}
fn arb() -> impl Strategy<Value = CCase> {
    let k = size(0..8, 8..64);
    let op = prop_oneof![
        30 => (k.clone(), 0u8..4).prop_map(|(a, b)| Op::Push(a, b)),
        12 => k.clone().prop_map(Op::Evict),
        30 => Just(Op::Poll),
        15 => Just(Op::PollWoken),
        8 => k.clone().prop_map(Op::Check),
        8 => k.clone().prop_map(Op::CheckIndex),
        10 => k.clone().prop_map(Op::Call),
        10 => k.clone().prop_map(Op::CallIndex),
        6 => k.clone().prop_map(Op::CallUnchecked),
        30 => (size(0..16, 16..100), 0u8..4).prop_map(|(a, b)| Op::Grant(a, b)),
        6 => size(0..16, 16..100).prop_map(Op::Fail),
        6 => (size(0..16, 16..100), 1u8..4).prop_map(|(a, b)| Op::Hiccup(a, b)),
        12 => size(0..16, 16..100).prop_map(Op::Revoke),
    ];
    // now and then a large cache, filled at the start
    (size(1..8, 8..64), hist(op, 80)).prop_map(|(keys, mut ops)| {
        if keys >= 8 {
            let mut all: Vec<Op> = (0..keys).map(|k| Op::Push(k, 1 + k % 3)).collect();
            all.append(&mut ops);
            ops = all;
        }
        CCase { keys, ops }
    })
}

/// A key that is not `Copy`.
fn key(k: u8) -> String {
    format!("k{k}")
}
#[derive(Default)]
struct M {
    ready: BTreeMap<u8, usize>,
    pending: BTreeMap<u8, usize>,
    /// cancelled, not yet dropped: svc -> polls when it was cancelled
    zombies: BTreeMap<usize, u64>,
}

fn cache(c: &CCase, cov: &mut Cov) -> R {
    let w = World::new();
    let mut cache: ReadyCache<String, Probe, Req> = ReadyCache::default();
    let mut m = M::default();
    let mut svcs: Vec<usize> = vec![]; // all pushed
    let mut flag: Option<Arc<Flag>> = None;
    let mut registered: BTreeSet<usize> = BTreeSet::new();
    let mut next = 1u64;
    let mut revoked: BTreeSet<usize> = BTreeSet::new();
    let (mut replaced, mut demoted, mut failed_n, mut calls, mut evicted_pending) = (0, 0, 0, 0, 0);
    let grp = |id: usize| w.svc(id).group;

    macro_rules! to_pending {
        // a service leaving the ready set: back to pending unless a newer one waits there
        ($k:expr, $s:expr) => {{
            if m.pending.contains_key(&$k) {
                ensure!(!w.svc($s).alive, "service {} of key {} was not dropped although a newer one is pending", $s, $k);
            } else {
                m.pending.insert($k, $s);
                ensure!(w.svc($s).alive, "service {} of key {} was dropped instead of made pending", $s, $k);
            }
        }};
    }
    macro_rules! failed {
        ($f:expr) => {{
            let Failed(k, e) = $f;
            let k: u8 = k[1..].parse().unwrap();
            (k, find_perr(e.as_ref()))
        }};
    }
    macro_rules! poll {
        () => {{
            w.begin_step();
            let hic = { let x = w.lock(); m.pending.values().any(|s| x.groups[x.svcs[*s].group].hiccups > 0) };
            let (r, fl) = with_waker(|cx| cache.poll_pending(cx));
            cov.tr(|| format!("poll_pending -> {r:?}"));
            let zn = m.zombies.len();
            // promotions
            let pend: Vec<(u8, usize)> = m.pending.iter().map(|(a, b)| (*a, *b)).collect();
            for (k, s) in pend {
                if w.svc(s).ready {
                    m.pending.remove(&k);
                    if let Some(old) = m.ready.insert(k, s) {
                        replaced += 1;
                        ensure!(!w.svc(old).alive, "service {old} survives its replacement under key {k}");
                    }
                }
            }
            for z in m.zombies.keys().copied().collect::<Vec<_>>() {
                ensure!(w.svc(z).polls == m.zombies[&z], "evicted or replaced service {z} was polled");
                if !w.svc(z).alive {
                    m.zombies.remove(&z);
                }
            }
            match r {
                Poll::Ready(Ok(())) => {
                    ensure!(m.pending.is_empty() && m.zombies.is_empty(), "nothing pending reported with {:?} pending", m.pending);
                    flag = None;
                    registered.clear();
                }
                Poll::Pending => {
                    if !hic {
                        ensure!(m.zombies.is_empty(), "evicted or replaced services survive a poll");
                        for (k, s) in &m.pending {
                            ensure!(!w.answers(*s), "service {s} of key {k} is ready or failed but was not taken from pending");
                        }
                        ensure!(!m.pending.is_empty(), "pending reported although nothing is pending");
                    } else if m.pending.is_empty() && m.zombies.is_empty() {
                        return Err("pending reported although nothing is pending".into());
                    } else {
                        ensure!(fl.woken() || m.pending.values().all(|s| !w.answers(*s)), "a service that can become ready was left without a wakeup");
                    }
                    registered = m.pending.values().copied().collect();
                    flag = Some(fl);
                }
                Poll::Ready(Err(f)) => {
                    let (k, e) = failed!(f);
                    let Some(s) = m.pending.remove(&k) else { return Err(format!("failure reported for key {k}, which is not pending")) };
                    let st = w.svc(s);
                    ensure!(st.failed.is_some() && st.failed == e, "failure of key {k}: error {e:?}, service {s} failed with {:?}", st.failed);
                    ensure!(!st.alive, "failed service {s} was not dropped");
                    failed_n += 1;
                    flag = None;
                    registered.clear();
                }
            }
            let _ = zn;
        }};
    }
    macro_rules! check {
        ($k:expr, $r:expr) => {{
            let k: u8 = $k;
            let r: Result<bool, Failed<String>> = $r;
            cov.tr(|| format!("check {k} -> {r:?}"));
            match m.ready.get(&k).copied() {
                None => {
                    ensure!(matches!(r, Ok(false)), "check of key {k}, which is not ready, gave {r:?}");
                    false
                }
                Some(s) => {
                    let st = w.svc(s);
                    match r {
                        Ok(true) => {
                            ensure!(st.ready, "key {k} reported ready but service {s} is not");
                            revoked.remove(&s);
                            true
                        }
                        Ok(false) => {
                            ensure!(!st.ready && st.failed.is_none(), "key {k} reported not ready but service {s} is");
                            m.ready.remove(&k);
                            to_pending!(k, s);
                            demoted += 1;
                            false
                        }
                        Err(f) => {
                            let (fk, e) = failed!(f);
                            ensure!(fk == k && st.failed.is_some() && e == st.failed, "check of key {k} reported a failure of {fk}: {e:?}, service state {:?}", st.failed);
                            ensure!(!st.alive, "failed service {s} was not dropped");
                            m.ready.remove(&k);
                            failed_n += 1;
                            false
                        }
                    }
                }
            }
        }};
    }
    // wakeup of the last pending poll when a registered service changed
    macro_rules! must_wake {
        ($s:expr, $why:expr) => {{
            if registered.contains(&$s) {
                if let Some(f) = &flag {
                    ensure!(f.woken(), "no wakeup when pending service {} {}", $s, $why);
                }
            }
        }};
    }
    for &op in &c.ops {
        match op {
            Op::Push(k, credits) => {
                let k = k % c.keys;
                let g = w.group(Group { credits: if credits == 3 { FREE } else { (credits % 3) as u64 }, ..Default::default() });
                let p = w.probe(g);
                let s = p.id;
                svcs.push(s);
                cache.push(key(k), p);
                if let Some(old) = m.pending.insert(k, s) {
                    m.zombies.insert(old, w.svc(old).polls);
                    must_wake!(old, "was replaced");
                    replaced += 1;
                }
            }
            Op::Evict(k) => {
                let k = k % c.keys;
                let had = m.pending.contains_key(&k) || m.ready.contains_key(&k);
                let r = cache.evict(&key(k));
                ensure!(r == had, "evict of key {k} returned {r}");
                if let Some(s) = m.pending.remove(&k) {
                    m.zombies.insert(s, w.svc(s).polls);
                    must_wake!(s, "was evicted");
                    evicted_pending += 1;
                }
                if let Some(s) = m.ready.remove(&k) {
                    ensure!(!w.svc(s).alive, "evicted ready service {s} was not dropped");
                }
            }
            Op::Poll => poll!(),
            Op::PollWoken => {
                if flag.as_ref().map_or(true, |f| f.woken()) {
                    poll!()
                }
            }
            Op::Check(k) => {
                let k = k % c.keys;
                w.begin_step();
                let (r, _) = with_waker(|cx| cache.check_ready(cx, &key(k)));
                check!(k, r);
            }
            Op::CheckIndex(i) => {
                w.begin_step();
                let i = i as usize % (m.ready.len() + 1);
                let k = cache.get_ready_index(i).map(|(k, _)| k[1..].parse::<u8>().unwrap());
                let (r, _) = with_waker(|cx| cache.check_ready_index(cx, i));
                match k {
                    None => ensure!(matches!(r, Ok(false)), "check of an index out of range gave {r:?}"),
                    Some(k) => {
                        check!(k, r);
                    }
                }
            }
            Op::Call(k) | Op::CallIndex(k) | Op::CallUnchecked(k) => {
                let k = match op {
                    Op::CallIndex(i) if !m.ready.is_empty() => {
                        let (k, _) = cache.get_ready_index(i as usize % m.ready.len()).ok_or("ready index out of range")?;
                        k[1..].parse::<u8>().unwrap()
                    }
                    _ => k % c.keys,
                };
                w.begin_step();
                if let Op::CallUnchecked(_) = op {
                    match m.ready.get(&k) {
                        Some(s) if w.svc(*s).ready => {}
                        _ => continue,
                    }
                } else {
                    let r = with_waker(|cx| cache.check_ready(cx, &key(k))).0;
                    if !check!(k, r) {
                        continue;
                    }
                }
                let s = m.ready[&k];
                let n = w.ncalls();
                let f = if let Op::CallIndex(_) = op {
                    let (i, _, _) = cache.get_ready(&key(k)).ok_or("ready key not found")?;
                    cache.call_ready_index(i, req(next))
                } else {
                    cache.call_ready(&key(k), req(next))
                };
                drop(f);
                {
                    let x = w.lock();
                    ensure!(x.calls.len() == n + 1 && x.calls[n].svc == s && x.calls[n].req == req(next), "request for key {k} went to {:?} instead of service {s}", x.calls.last());
                }
                next += 1;
                calls += 1;
                m.ready.remove(&k);
                to_pending!(k, s);
            }
            Op::Grant(i, n) if !svcs.is_empty() => {
                let s = svcs[i as usize % svcs.len()];
                w.set_credits(grp(s), if n == 3 { FREE } else { n as u64 });
                if n > 0 && w.svc(s).alive {
                    must_wake!(s, "became ready");
                }
            }
            Op::Fail(i) if !svcs.is_empty() => {
                let s = svcs[i as usize % svcs.len()];
                w.set_fail(grp(s), Some(900 + s as u64));
                if w.svc(s).alive {
                    must_wake!(s, "failed");
                }
            }
            Op::Hiccup(i, n) if !svcs.is_empty() => w.set_hiccups(grp(svcs[i as usize % svcs.len()]), n as u32),
            Op::Revoke(i) if !svcs.is_empty() => {
                // only ready services can lose their readiness
                let rs: Vec<usize> = m.ready.values().copied().collect();
                if !rs.is_empty() {
                    let s = rs[i as usize % rs.len()];
                    w.set_credits(grp(s), 0);
                    w.revoke(s);
                    revoked.insert(s);
                }
            }
            _ => {}
        }
        // the views
        ensure!(cache.ready_len() == m.ready.len(), "ready_len {} but {:?} are ready", cache.ready_len(), m.ready);
        ensure!(cache.pending_len() == m.pending.len() + m.zombies.len(), "pending_len {} but {:?} are pending and {:?} await their drop", cache.pending_len(), m.pending, m.zombies);
        ensure!(cache.len() == cache.ready_len() + cache.pending_len() && cache.is_empty() == (cache.len() == 0), "len {} / is_empty {} disagree", cache.len(), cache.is_empty());
        let mut it: BTreeMap<u8, usize> = BTreeMap::new();
        for (k, s) in cache.iter_ready() {
            ensure!(it.insert(k[1..].parse().unwrap(), s.id).is_none(), "key {k} twice in the ready set");
        }
        ensure!(it == m.ready, "ready set is {it:?}, expected {:?}", m.ready);
        let it: BTreeMap<u8, usize> = cache.iter_ready_mut().map(|(k, s)| (k[1..].parse().unwrap(), s.id)).collect();
        ensure!(it == m.ready, "mutable ready set is {it:?}, expected {:?}", m.ready);
        for k in 0..c.keys {
            let ks = key(k);
            ensure!(cache.pending_contains(&ks) == m.pending.contains_key(&k), "pending_contains of key {k} is wrong");
            let got = cache.get_ready(&ks).map(|(i, k, s)| (i, k.clone(), s.id));
            ensure!(got.as_ref().map(|g| g.2) == m.ready.get(&k).copied(), "lookup of key {k}: {got:?}, expected {:?}", m.ready.get(&k));
            if let Some((i, kk, s)) = got {
                ensure!(kk == ks && cache.get_ready_index(i).map(|(k, s)| (k.clone(), s.id)) == Some((kk.clone(), s)), "index of key {k} disagrees");
                ensure!(cache.get_ready_mut(&ks).map(|(i, _, s)| (i, s.id)) == Some((i, s)), "mutable lookup disagrees");
                ensure!(cache.get_ready_index_mut(i).map(|(_, s)| s.id) == Some(s), "mutable index lookup disagrees");
            }
        }
        ensure!(cache.get_ready_index(m.ready.len()).is_none(), "index past the ready set");
        for s in m.ready.values().chain(m.pending.values()) {
            ensure!(w.svc(*s).alive, "member service {s} was dropped");
        }
        if let Some(v) = w.violation() {
            return Err(v);
        }
    }
    drop(cache);
    ensure!(w.live_svcs() == 0, "services survive the cache");
    cov.hit_if(replaced > 0, "replacement");
    cov.hit_if(demoted > 0, "found not ready");
    cov.hit_if(failed_n > 0, "failure");
    cov.hit_if(evicted_pending > 0, "evicted while pending");
    cov.hit_if(calls >= 2, "two or more calls");
    if calls >= 1 && (replaced + demoted + failed_n + evicted_pending) >= 2 {
        cov.nontrivial();
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C17",
        assumptions: &["services that are still ready when called without a preceding check"],
        subs: vec![sub("history", "a call and at least two of: replacement, demotion, failure, eviction while pending", 250_000, arb, cache)],
    }]
}
