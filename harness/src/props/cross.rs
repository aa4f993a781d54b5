//! C01-C05: cross-cutting properties over random stacks.
use crate::core::*;
use crate::stack::*;

fn protocol(c: &StackCase, cov: &mut Cov) -> R {
    run_focus(c, cov, Focus::Protocol)
}
fn sticky(c: &StackCase, cov: &mut Cov) -> R {
    run_focus(c, cov, Focus::Sticky)
}
fn wakeup(c: &StackCase, cov: &mut Cov) -> R {
    run_focus(c, cov, Focus::Wakeup)
}
fn outcome(c: &StackCase, cov: &mut Cov) -> R {
    run_focus(c, cov, Focus::Outcome)
}
fn rest(c: &StackCase, cov: &mut Cov) -> R {
    run_focus(c, cov, Focus::Rest)
}
fn cleanup(c: &StackCase, cov: &mut Cov) -> R {
    run_focus(c, cov, Focus::Cleanup)
}

fn let_go(c: &StackCase, cov: &mut Cov) -> R {
    run_focus(c, cov, Focus::LetGo)
}

fn any(m: &str, words: &[&str]) -> bool {
    words.iter().any(|w| m.contains(w))
}
fn k_protocol(m: &str) -> bool {
    any(
        m,
        &[
            "has not reported ready",
            ": ready although the inner service",
            "ready although the maker is not",
            "ready reported although",
            "reported ready but service",
            "another service lost its readiness",
        ],
    ) || m.starts_with("ready although the inner service")
}
fn k_sticky(m: &str) -> bool {
    // the panics of a middleware that is called without having reserved what its readiness stands for
    any(m, &["readiness withdrawn", "not ready any more"]) || (m.contains("panic at") && any(m, &["ready", "reserve", "in-flight", "illegal state"]))
}
fn k_wakeup(m: &str) -> bool {
    any(m, &["wakeup", "woken", "did not wake", "stuck:", "hangs", "never finish", "never ends", "never become ready", "does not finish", "not driven to readiness"])
}
fn k_outcome(m: &str) -> bool {
    any(
        m,
        &[
            "wrong response",
            "wrong outcome",
            "but outcome",
            "its own outcome",
            "not dispatched",
            "dispatched twice",
            "dispatched wrongly",
            "dispatched again",
            "was not dispatched once",
            "request dispatched as",
            "accepted request",
            "answered with",
            "instead of the response",
            "instead of the inner service's error",
            "astray",
            "not delivered",
            "resolves to",
            "was replaced by",
            "yielded twice",
            "neither dispatched nor failed",
            "inner call is",
            "inner one is",
            "although the buffer works",
            "not passed through unchanged",
            "not passed on",
            "outcomes",
        ],
    ) || (m.contains("dispatched") && m.contains("times"))
}
fn k_cleanup(m: &str) -> bool {
    any(m, &["survive", "alive", "outlives", "a dropped", "capacity", "reservations are possible", "continues after the wrapper", "leak", "after all handles"])
        && !any(m, &["survive a poll", "survives its replacement"])
}
/// The histories of the components' own checks, judged for a cross-cutting property.
const OWN: &[(&str, &str, &str, u32)] = &[
    ("C06", "history", "concurrency", 20_000),
    ("C06", "gated-inner", "concurrency-gated", 12_000),
    ("C06", "capacity", "concurrency-capacity", 12_000),
    ("C06", "threads", "concurrency-threads", 600),
    ("C07", "history", "rate", 15_000),
    ("C08", "history", "timeout", 15_000),
    ("C09", "history", "load-shed", 10_000),
    ("C10", "manual-worker", "buffer", 25_000),
    ("C10", "spawned-worker", "buffer-spawned", 12_000),
    ("C10", "threads", "buffer-threads", 600),
    ("C11", "manual-worker", "buffer-failure", 25_000),
    ("C11", "spawned-worker", "buffer-failure-spawned", 12_000),
    ("C11", "threads", "buffer-failure-threads", 1_000),
    ("C12", "history", "spawn-ready", 15_000),
    ("C13", "policy-script", "retry", 15_000),
    ("C16", "history", "hedge", 15_000),
    ("C17", "history", "ready-cache", 25_000),
    ("C18", "history", "balance-choice", 12_000),
    ("C19", "history", "balance", 25_000),
    ("C23", "history", "steer", 15_000),
    ("C24", "history", "reconnect", 20_000),
    ("C25", "history", "filter", 15_000),
    ("C21", "history", "pending-load", 8_000),
    ("C27", "history", "combinators", 12_000),
    ("C28", "creation", "future-service", 15_000),
    ("C29", "history", "call-all", 25_000),
    ("C30", "history", "oneshot", 15_000),
    ("C31", "balance", "make-balance", 12_000),
    ("C31", "shared", "make-shared", 8_000),
    ("C33", "history", "mock", 15_000),
];
fn own(others: &mut Vec<Prop>, skip: &[&str], keep: fn(&str) -> bool) -> Vec<Box<dyn SubDyn>> {
    let mut v = vec![];
    for &(id, s, name, n) in OWN {
        if skip.contains(&name) {
            continue;
        }
        let Some(p) = others.iter_mut().find(|p| p.id == id) else { panic!("no property {id}") };
        let Some(i) = p.subs.iter().position(|x| x.name() == s) else { panic!("no sub-check {id}/{s}") };
        v.push(p.subs.remove(i).focus(name, n, keep));
    }
    v
}
/// C01-C05; `others` builds the remaining properties.
pub fn props(others: fn() -> Vec<Prop>) -> Vec<Prop> {
    let mut v = stacks();
    for p in &mut v {
        let (skip, keep): (&[&str], fn(&str) -> bool) = match p.id {
            "C01" => (&["mock", "concurrency-capacity"], k_protocol),
            "C02" => (&["ready-cache", "mock", "concurrency-capacity"], k_sticky),
            "C03" => (&[], k_wakeup),
            "C04" => (&["ready-cache", "concurrency-capacity"], k_outcome),
            "C05" => (&["mock"], k_cleanup),
            _ => continue,
        };
        p.subs.extend(own(&mut others(), skip, keep));
    }
    v
}

const A: &[&str] = &[
    "inner services obey the service contract themselves",
    "single-threaded executor with a paused clock; interleavings are at poll granularity",
];

fn stacks() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            assumptions: A,
            subs: vec![
                sub("single", "at least two requests through a stack of at least two layers", 120_000, || arb_case(true, true, 1), protocol),
                sub("stacks", "at least two requests through a stack of at least two layers", 240_000, || arb_case(true, true, 4), protocol),
            ],
        },
        Prop {
            id: "C02",
            assumptions: A,
            subs: vec![
                sub("single", "readiness polled again while already reported", 120_000, || arb_case(true, true, 1), sticky),
                sub("stacks", "readiness polled again while already reported", 240_000, || arb_case(true, true, 4), sticky),
            ],
        },
        Prop {
            id: "C03",
            assumptions: A,
            subs: vec![
                sub("single", "a pending operation was checked at quiescence", 120_000, || arb_case(true, true, 1), wakeup),
                sub("stacks", "a pending operation was checked at quiescence", 240_000, || arb_case(true, true, 4), wakeup),
            ],
        },
        Prop {
            id: "C04",
            assumptions: A,
            subs: vec![
                sub("single", "at least two requests", 120_000, || arb_case(false, true, 1), outcome),
                sub("stacks", "at least two requests", 240_000, || arb_case(false, true, 4), outcome),
            ],
        },
        Prop {
            id: "C36",
            assumptions: A,
            subs: vec![
                sub("single", "two tasks were waiting when the stack was checked at rest", 120_000, || arb_case(true, true, 1), rest),
                sub("stacks", "two tasks were waiting when the stack was checked at rest", 240_000, || arb_case(true, true, 4), rest),
            ],
        },
        Prop {
            id: "C37",
            assumptions: &["memory is counted in bytes requested from the allocator; growth that stops within 48 cycles is not a leak"],
            subs: {
                let mut v = vec![sub("stacks", "each cycle makes requests", 20_000, arb_leak, run_leak)];
                v.extend(super::leak::components());
                v
            },
        },
        Prop {
            id: "C45",
            assumptions: A,
            subs: vec![
                sub("single", "a request was answered or cancelled", 120_000, || arb_case(true, true, 1), let_go),
                sub("stacks", "a request was answered or cancelled", 240_000, || arb_case(true, true, 4), let_go),
            ],
        },
        Prop {
            id: "C05",
            assumptions: A,
            subs: vec![
                sub("let-go", "a request was answered or cancelled", 120_000, || arb_case(true, true, 2), let_go),
                sub("single", "a future or handle was dropped, or a readiness failure injected", 120_000, || arb_case(false, true, 1), cleanup),
                sub("stacks", "a future or handle was dropped, or a readiness failure injected", 240_000, || arb_case(false, true, 4), cleanup),
            ],
        },
    ]
}
