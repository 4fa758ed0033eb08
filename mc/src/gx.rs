//! Breadth-first exploration of real contracts in lock step with an explicit model state.
use crate::chain::*;
use crate::explore::{enc, par};
use crate::ops::Disc;
use crate::rep::*;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::Ordering::Relaxed;

pub trait Model: Sync {
    type S: Clone + Send + Sync + std::fmt::Debug;
    type O: Clone + Send + Sync + std::fmt::Debug + serde::Serialize + serde::de::DeserializeOwned;
    /// how to build the model again in a replay
    fn describe(&self) -> Value;
    fn chain(&self) -> Chain;
    /// puts what is not part of the store (the block) in place
    fn prepare(&self, _app: &mut Chain, _s: &Self::S) {}
    fn ops(&self, s: &Self::S, level: usize) -> Vec<Self::O>;
    /// runs one operation against the contracts, judges it, returns the model state if it completed
    fn step(&self, app: &mut Chain, s: &Self::S, o: &Self::O, out: &mut Vec<Disc>) -> Option<Self::S>;
    /// judges a state; returns the number of queries
    fn judge(&self, app: &mut Chain, s: &Self::S, out: &mut Vec<Disc>) -> u64;
    fn kind(&self, o: &Self::O) -> &'static str;
    fn atomic(&self, o: &Self::O) -> Vec<&'static str>;
    /// what a broken state after this operation also breaks
    fn blames(&self, _o: &Self::O) -> Option<&'static str> {
        None
    }
    fn show(&self, s: &Self::S) -> String {
        format!("{:?}", s)
    }
    /// stable key of a discrepancy; None: derived from the path
    fn key(&self, _path: &[Self::O], _d: &Disc) -> Option<String> {
        None
    }
}

fn report<M: Model>(c: &Check, m: &M, path: &[M::O], discs: &[Disc]) -> u64 {
    let mut f = 0;
    for d in discs {
        if d.0.contains(&c.prop) {
            let mut r = m.describe();
            r["ops"] = json!(enc(path));
            c.viol(Viol {
                key: m.key(path, d).unwrap_or_else(|| format!("{:?}", path)),
                msg: d.1.clone(),
                replay: r,
            });
        } else {
            f += 1;
            if std::env::var("MC_FOREIGN").is_ok() {
                eprintln!("foreign {:?} {} {:?}", d.0, d.1, path);
            }
        }
    }
    f
}

fn dig<S: std::fmt::Debug>(st: &Snap, s: &S) -> u128 {
    let mut h = DefaultHasher::new();
    format!("{:?}", s).hash(&mut h);
    digest(st) ^ ((h.finish() as u128) << 32).wrapping_mul(0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c835)
}

struct N<M: Model> {
    snap: Snap,
    s: M::S,
    path: Vec<M::O>,
}
#[derive(Default)]
struct L {
    kinds: BTreeMap<String, u64>,
    transitions: u64,
    completed: u64,
    refused: u64,
    queries: u64,
    foreign: u64,
    leaves: u64,
}

pub fn gbfs<M: Model>(c: &Check, name: &str, m: &M, s0: Snap, init: M::S, depth: usize, max_nodes: usize) {
    let mut seen = HashSet::new();
    seen.insert(dig(&s0, &init));
    c.add(&c.states, 1);
    {
        let mut app = m.chain();
        restore(&mut app, &s0);
        m.prepare(&mut app, &init);
        let mut d = vec![];
        let q = m.judge(&mut app, &init, &mut d);
        c.add(&c.queries, q);
        c.add(&c.foreign, report(c, m, &[], &d));
    }
    let mut frontier: Vec<N<M>> = vec![N {
        snap: s0,
        s: init,
        path: vec![],
    }];
    let mut capped = false;
    for level in 0..depth {
        let last = level + 1 == depth;
        let seen_ref = &seen;
        type R<M> = (Vec<(u128, Option<N<M>>)>, L);
        // a level with few states is shared out by operation
        let split = (64 / frontier.len()).max(1);
        let items: Vec<(usize, usize)> = (0..frontier.len()).flat_map(|i| (0..split).map(move |k| (i, k))).collect();
        let fr = &frontier;
        let res: Vec<R<M>> = par(
            &items,
            || m.chain(),
            |app, _, &(ni, part)| {
                let n = &fr[ni];
                let mut l = L::default();
                let mut out = vec![];
                let mut local = HashSet::new();
                restore(app, &n.snap);
                m.prepare(app, &n.s);
                for (_, op) in m.ops(&n.s, level).into_iter().enumerate().filter(|(i, _)| i % split == part) {
                    let mut discs = vec![];
                    let post = m.step(app, &n.s, &op, &mut discs);
                    l.transitions += 1;
                    let s = snap(app);
                    let mut p = n.path.clone();
                    p.push(op.clone());
                    match post {
                        Some(ns) => {
                            l.completed += 1;
                            *l.kinds.entry(format!("{} completed", m.kind(&op))).or_insert(0) += 1;
                            let d = dig(&s, &ns);
                            if seen_ref.contains(&d) || !local.insert(d) {
                                l.leaves += 1;
                            } else {
                                let k = discs.len();
                                l.queries += m.judge(app, &ns, &mut discs);
                                if let Some(p) = m.blames(&op) {
                                    discs[k..].iter_mut().for_each(|d| d.0.push(p));
                                }
                                if last {
                                    l.leaves += 1;
                                    out.push((d, None));
                                } else {
                                    out.push((
                                        d,
                                        Some(N {
                                            snap: s,
                                            s: ns,
                                            path: p.clone(),
                                        }),
                                    ));
                                }
                            }
                        }
                        None => {
                            l.refused += 1;
                            l.leaves += 1;
                            *l.kinds.entry(format!("{} refused", m.kind(&op))).or_insert(0) += 1;
                            if !std::sync::Arc::ptr_eq(&s, &n.snap) && *s != *n.snap {
                                discs.push((m.atomic(&op), format!("{:?} was refused but changed the state", op)));
                            }
                        }
                    }
                    if !discs.is_empty() {
                        l.foreign += report(c, m, &p, &discs);
                    }
                    restore(app, &n.snap);
                    m.prepare(app, &n.s);
                }
                (out, l)
            },
        );
        let mut next = vec![];
        let mut fresh = 0;
        for (ns, l) in res {
            c.add(&c.transitions, l.transitions);
            c.add(&c.conform, l.transitions);
            c.add(&c.completed, l.completed);
            c.add(&c.refused, l.refused);
            c.add(&c.queries, l.queries);
            c.add(&c.foreign, l.foreign);
            c.add(&c.traces, l.leaves);
            c.merge_kinds(&l.kinds);
            for (d, n) in ns {
                if seen.insert(d) {
                    fresh += 1;
                    if let Some(n) = n {
                        if next.len() >= max_nodes {
                            capped = true;
                        } else {
                            next.push(n);
                        }
                    }
                }
            }
        }
        c.add(&c.states, fresh);
        if let Some(n) = next.last() {
            c.sample(json!({"model": name, "path": format!("{:?}", n.path), "state": m.show(&n.s)}));
        }
        frontier = next;
        if frontier.is_empty() {
            break;
        }
    }
    if capped {
        c.capped.store(true, Relaxed);
        c.bound(format!("{}: of the states of a level the first {} were expanded", name, max_nodes));
    }
    if depth > 0 {
        c.bound(format!("{}: all operations in every state up to depth {}", name, depth));
    }
}

/// Long histories: every word over the letters (up to two letters of all, three of the first `narrow`), repeated
/// until `len` operations were tried. The letters are computed from the state, so they stay meaningful.
pub fn gmarathon<M: Model>(
    c: &Check,
    name: &str,
    m: &M,
    s0: Snap,
    init: M::S,
    narrow: usize,
    len: usize,
    judge_every: usize,
    letters: &(dyn Fn(&M::S) -> Vec<Option<M::O>> + Sync),
) {
    let k = letters(&init).len();
    let mut words: Vec<Vec<usize>> = vec![];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for n in 1..=3 {
        let w = if n > 2 { narrow.min(k) } else { k };
        last = last
            .iter()
            .filter(|x| x.iter().all(|i| *i < w))
            .flat_map(|x| (0..w).map(move |i| [&x[..], &[i]].concat()))
            .collect();
        words.extend(last.iter().filter(|x| n == 1 || x.iter().any(|i| *i != x[0])).cloned());
    }
    let seen: std::sync::Mutex<HashSet<u128>> = Default::default();
    let res: Vec<L> = par(
        &words,
        || m.chain(),
        |app, _, word| {
            let mut l = L::default();
            let mut s = init.clone();
            let mut path = vec![];
            let mut fresh = vec![];
            restore(app, &s0);
            m.prepare(app, &s);
            for i in 0..len {
                let Some(op) = letters(&s)[word[i % word.len()]].clone() else { continue };
                let before = snap(app);
                let mut discs = vec![];
                let post = m.step(app, &s, &op, &mut discs);
                l.transitions += 1;
                path.push(op.clone());
                let now = snap(app);
                match post {
                    Some(n) => {
                        l.completed += 1;
                        *l.kinds.entry(format!("{} completed", m.kind(&op))).or_insert(0) += 1;
                        s = n;
                        m.prepare(app, &s);
                        fresh.push(dig(&now, &s));
                        if i % judge_every == judge_every - 1 || i + 1 == len {
                            let k = discs.len();
                            l.queries += m.judge(app, &s, &mut discs);
                            if let Some(p) = m.blames(&op) {
                                discs[k..].iter_mut().for_each(|d| d.0.push(p));
                            }
                        }
                    }
                    None => {
                        l.refused += 1;
                        *l.kinds.entry(format!("{} refused", m.kind(&op))).or_insert(0) += 1;
                        if *now != *before {
                            discs.push((m.atomic(&op), format!("{:?} was refused but changed the state", op)));
                        }
                        restore(app, &before);
                        m.prepare(app, &s);
                    }
                }
                if !discs.is_empty() {
                    l.foreign += report(c, m, &path, &discs);
                    break;
                }
            }
            seen.lock().unwrap().extend(fresh);
            l.leaves += 1;
            l
        },
    );
    for l in res {
        c.add(&c.transitions, l.transitions);
        c.add(&c.conform, l.transitions);
        c.add(&c.completed, l.completed);
        c.add(&c.refused, l.refused);
        c.add(&c.queries, l.queries);
        c.add(&c.foreign, l.foreign);
        c.add(&c.traces, l.leaves);
        c.merge_kinds(&l.kinds);
    }
    c.add(&c.states, seen.lock().unwrap().len() as u64);
    c.bound(format!(
        "{}: {} periodic histories of {} operations (every word of up to two of {} operations and of three of the first {})",
        name,
        words.len(),
        len,
        k,
        narrow.min(k)
    ));
}

pub fn greplay<M: Model>(m: &M, s0: Snap, init: M::S, ops: &str) -> Vec<Disc> {
    let ops: Vec<M::O> = serde_json::from_str(ops).expect("ops");
    let mut app = m.chain();
    restore(&mut app, &s0);
    let mut s = init;
    let mut discs = vec![];
    m.prepare(&mut app, &s);
    m.judge(&mut app, &s, &mut discs);
    for o in ops {
        let before = snap(&app);
        let r = m.step(&mut app, &s, &o, &mut discs);
        println!("{:?}: {}", o, if r.is_some() { "completed" } else { "refused" });
        match r {
            Some(n) => {
                s = n;
                m.prepare(&mut app, &s);
                let k = discs.len();
                m.judge(&mut app, &s, &mut discs);
                if let Some(p) = m.blames(&o) {
                    discs[k..].iter_mut().for_each(|d| d.0.push(p));
                }
            }
            None => {
                if *snap(&app) != *before {
                    discs.push((m.atomic(&o), format!("{:?} was refused but changed the state", o)));
                }
            }
        }
    }
    discs
}
