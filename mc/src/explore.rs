//! Breadth-first explicit-state exploration of a world of real contracts.
use crate::chain::*;
use crate::ops::*;
use crate::rep::*;
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

pub const THREADS: usize = 8;

pub type Alphabet<'a> = dyn Fn(&World, &Obs, usize) -> Vec<Op> + Sync + 'a;
/// judged in every new state; returns the number of queries judged
pub type Extra<'a> = dyn Fn(&World, &mut Chain, &Obs, &mut Vec<Disc>) -> u64 + Sync + 'a;

struct Node {
    snap: Snap,
    obs: Obs,
    path: Vec<Op>,
}

/// runs `f` on every item on all threads; results come back in order
pub fn par<T: Sync, R: Send, S>(
    items: &[T],
    init: impl Fn() -> S + Sync,
    f: impl Fn(&mut S, usize, &T) -> R + Sync,
) -> Vec<R> {
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, R)>> = Mutex::new(Vec::with_capacity(items.len()));
    let chunk = (items.len() / (THREADS * 16)).clamp(1, 256);
    std::thread::scope(|sc| {
        for _ in 0..THREADS.min(items.len().max(1)) {
            sc.spawn(|| {
                let mut s = init();
                loop {
                    let i = next.fetch_add(chunk, Relaxed);
                    if i >= items.len() {
                        break;
                    }
                    let mut loc = vec![];
                    for j in i..(i + chunk).min(items.len()) {
                        loc.push((j, f(&mut s, j, &items[j])));
                    }
                    out.lock().unwrap().extend(loc);
                }
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

/// 128-bit numbers do not survive a JSON value tree: nested as text
pub fn enc<T: serde::Serialize + ?Sized>(t: &T) -> String {
    serde_json::to_string(t).unwrap()
}

fn op_kind(op: &Op) -> &'static str {
    match op {
        Op::Swap { .. } => "swap",
        Op::Provide { .. } => "provide",
        Op::Withdraw { .. } => "withdraw",
        Op::Transfer { .. } => "transfer",
        Op::Forge { .. } => "forge",
        Op::ForgeByToken { .. } => "forge_by_token",
        Op::SendHook { .. } => "send_hook",
        Op::SendJunk { .. } => "send_junk",
        Op::LpMint { .. } => "lp_mint",
        Op::LpTakeMinter { .. } => "lp_take_minter",
        Op::LpBurn { .. } => "lp_burn",
        Op::NativeSwap { .. } => "native_swap",
        Op::Route { .. } => "route",
        Op::RouteBare { .. } => "route_bare",
        Op::RouteForged { .. } => "route_forged",
        Op::RouterHookStep { .. } => "router_hook_step",
        Op::RouterStep { .. } => "router_step",
        Op::RouterAssert { .. } => "router_assert",
        Op::Migrate { .. } => "migrate",
        Op::Wait { .. } => "wait",
        Op::Paid { op, .. } => op_kind(op),
        Op::Delegated { .. } => "delegated",
        Op::Seq(_) => "sequence",
    }
}

#[derive(Default)]
struct Loc {
    kinds: BTreeMap<String, u64>,
    transitions: u64,
    completed: u64,
    refused: u64,
    conform: u64,
    queries: u64,
    foreign: u64,
    leaves: u64,
}

pub fn report_discs(c: &Check, w: &World, path: &[Op], discs: &[Disc]) -> u64 {
    let mut foreign = 0;
    for d in discs {
        if d.0.contains(&c.prop) {
            c.viol(Viol {
                key: format!("{}:{:?}", w.spec.name, path),
                msg: format!("[world {}] {}", w.spec.name, d.1),
                replay: json!({"kind": "chain", "spec": enc(&w.spec), "ops": enc(&path)}),
            });
        } else {
            foreign += 1;
            if std::env::var("MC_FOREIGN").is_ok() {
                eprintln!("foreign {:?} {} {:?}", d.0, d.1, path);
            }
        }
    }
    foreign
}

/// Builds a world; a broken set-up is a violation when it concerns this property and an error otherwise.
pub fn make(c: &Check, spec: &Spec) -> Option<(World, Snap, Obs)> {
    match World::build(spec) {
        Ok((w, app, discs)) => {
            c.add(&c.foreign, report_discs(c, &w, &[], &discs));
            let o = match w.observe(&app) {
                Ok(o) => o,
                Err(e) => {
                    c.error(format!("observing {}: {}", spec.name, e));
                    return None;
                }
            };
            let s = snap(&app);
            Some((w, s, o))
        }
        Err((e, discs)) => {
            if discs.iter().any(|d| d.0.contains(&c.prop)) {
                let m: Vec<_> = discs.iter().map(|d| d.1.clone()).collect();
                c.viol(Viol {
                    key: format!("setup:{}", spec.name),
                    msg: format!("[world {}] set-up: {} {:?}", spec.name, e, m),
                    replay: json!({"kind": "chain", "spec": enc(spec), "ops": "[]"}),
                });
            } else {
                c.error(format!("set-up of world {}: {}", spec.name, e));
            }
            None
        }
    }
}

/// Breadth-first search from the world's seeded state (and the states in `extra_init`).
pub fn bfs(c: &Check, spec: &Spec, depth: usize, max_states: usize, alpha: &Alphabet, extra: Option<&Extra>) {
    let Some((w, s0, o0)) = make(c, spec) else { return };
    let mut seen: HashSet<u128> = HashSet::new();
    seen.insert(digest(&s0));
    c.add(&c.states, 1);
    if let (0, Some(x)) = (depth, extra) {
        let mut app = w.base_chain();
        restore(&mut app, &s0);
        let mut discs = vec![];
        let q = x(&w, &mut app, &o0, &mut discs);
        c.add(&c.queries, q);
        c.add(&c.foreign, report_discs(c, &w, &[], &discs));
    }
    let mut frontier = vec![Node {
        snap: s0,
        obs: o0,
        path: vec![],
    }];
    let mut capped = false;
    for level in 0..depth {
        // states of the last level are judged where they are found and not kept
        let last = level + 1 == depth;
        if frontier.is_empty() {
            break;
        }
        type R = (Vec<(u128, Option<Node>)>, Loc);
        let seen_ref = &seen;
        // a level with few states is shared out by operation
        let split = (64 / frontier.len()).max(1);
        let items: Vec<(usize, usize)> = (0..frontier.len()).flat_map(|i| (0..split).map(move |k| (i, k))).collect();
        let fr = &frontier;
        let res: Vec<R> = par(
            &items,
            || w.base_chain(),
            |app, _i, &(ni, part)| {
                let n = &fr[ni];
                let mut loc = Loc::default();
                let mut out = vec![];
                restore(app, &n.snap);
                if let (Some(x), 0, 0) = (extra, level, part) {
                    let mut discs = vec![];
                    loc.queries += x(&w, app, &n.obs, &mut discs);
                    restore(app, &n.snap);
                    loc.foreign += report_discs(c, &w, &n.path, &discs);
                }
                let mut local: HashSet<u128> = HashSet::new();
                for (_, op) in alpha(&w, &n.obs, level).into_iter().enumerate().filter(|(i, _)| i % split == part) {
                    let mut discs = vec![];
                    let post = w.step_obs(app, &n.obs, &op, &mut discs);
                    loc.transitions += 1;
                    let k = op_kind(&op);
                    if !matches!(op, Op::Seq(_)) && w.predict(&n.obs, &op).verdict != crate::refmodel::Verdict::Unspec
                    {
                        loc.conform += 1;
                    }
                    if !discs.is_empty() {
                        let mut p = n.path.clone();
                        p.push(op.clone());
                        loc.foreign += report_discs(c, &w, &p, &discs);
                    }
                    match post {
                        Some(o) => {
                            loc.completed += 1;
                            *loc.kinds.entry(format!("{} completed", k)).or_insert(0) += 1;
                            let s = snap(app);
                            let d = digest(&s);
                            if seen_ref.contains(&d) || !local.insert(d) {
                                loc.leaves += 1;
                            } else {
                                let mut p = n.path.clone();
                                p.push(op);
                                if let Some(x) = extra {
                                    let mut discs = vec![];
                                    loc.queries += x(&w, app, &o, &mut discs);
                                    loc.foreign += report_discs(c, &w, &p, &discs);
                                }
                                if last {
                                    loc.leaves += 1;
                                    out.push((d, None));
                                } else {
                                    out.push((
                                        d,
                                        Some(Node {
                                            snap: s,
                                            obs: o,
                                            path: p,
                                        }),
                                    ));
                                }
                            }
                        }
                        None => {
                            loc.refused += 1;
                            loc.leaves += 1;
                            *loc.kinds.entry(format!("{} refused", k)).or_insert(0) += 1;
                            // a refused operation changes nothing
                            let s = snap(app);
                            if !std::sync::Arc::ptr_eq(&s, &n.snap) && *s != *n.snap {
                                let mut p = n.path.clone();
                                p.push(op.clone());
                                loc.foreign += report_discs(
                                    c,
                                    &w,
                                    &p,
                                    &[(w.atomic_tags(&op), format!("{:?} was refused but changed the state", op))],
                                );
                            }
                        }
                    }
                    restore(app, &n.snap);
                }
                (out, loc)
            },
        );
        let mut next = vec![];
        let mut fresh = 0;
        for (nodes, l) in res {
            c.add(&c.transitions, l.transitions);
            c.add(&c.completed, l.completed);
            c.add(&c.refused, l.refused);
            c.add(&c.conform, l.conform);
            c.add(&c.queries, l.queries);
            c.add(&c.foreign, l.foreign);
            c.add(&c.traces, l.leaves);
            c.merge_kinds(&l.kinds);
            for (d, n) in nodes {
                if seen.insert(d) {
                    fresh += 1;
                    if let Some(n) = n {
                        if next.len() >= max_states {
                            capped = true;
                            continue;
                        }
                        next.push(n);
                    }
                }
            }
        }
        c.add(&c.states, fresh);
        if let Some(n) = next.last() {
            c.sample(json!({"world": spec.name, "path": format!("{:?}", n.path), "reserves": format!("{:?}", (0..w.pairs.len()).map(|p| w.reserves(&n.obs, p)).collect::<Vec<_>>())}));
        }
        if c.n_viols() > 0 {
            break;
        }
        frontier = next;
    }
    if capped {
        c.capped.store(true, Relaxed);
        c.bound(format!("world {}: only {} states of a level were expanded", spec.name, max_states));
    }
    c.bound(format!(
        "world {}: all operations of the alphabet in every state up to depth {}",
        spec.name, depth
    ));
}

/// Long histories: every word over the positions of `alpha` (at most `period` long, all of them over the
/// first `narrow` positions when longer than two), repeated until `len` operations were tried. A position is
/// `None` where it does not apply. `extra` judges every eighth and the last state.
pub fn marathon(
    c: &Check,
    spec: &Spec,
    period: usize,
    narrow: usize,
    len: usize,
    alpha: &(dyn Fn(&World, &Obs) -> Vec<Option<Op>> + Sync),
    extra: Option<&Extra>,
) {
    let Some((w, s0, o0)) = make(c, spec) else { return };
    let k = alpha(&w, &o0).len();
    let mut words: Vec<Vec<usize>> = vec![];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for n in 1..=period {
        let m = if n > 2 { narrow.min(k) } else { k };
        last = last
            .iter()
            .filter(|x| x.iter().all(|i| *i < m))
            .flat_map(|x| (0..m).map(move |i| [&x[..], &[i]].concat()))
            .collect();
        // a word that repeats one letter is the one-letter word
        words.extend(last.iter().filter(|x| n == 1 || x.iter().any(|i| *i != x[0])).cloned());
    }
    let seen: std::sync::Mutex<HashSet<u128>> = Default::default();
    let rs: Vec<Loc> = par(
        &words,
        || w.base_chain(),
        |app, _, word| {
            let mut loc = Loc::default();
            restore(app, &s0);
            let mut obs = o0.clone();
            let mut path = vec![];
            let mut fresh = vec![];
            for i in 0..len {
                let Some(op) = alpha(&w, &obs)[word[i % word.len()]].clone() else { continue };
                let before = snap(app);
                let mut discs = vec![];
                let post = w.step_obs(app, &obs, &op, &mut discs);
                loc.transitions += 1;
                if !matches!(op, Op::Seq(_)) && w.predict(&obs, &op).verdict != crate::refmodel::Verdict::Unspec {
                    loc.conform += 1;
                }
                let kind = op_kind(&op);
                path.push(op);
                match post {
                    Some(o) => {
                        loc.completed += 1;
                        *loc.kinds.entry(format!("{} completed", kind)).or_insert(0) += 1;
                        obs = o;
                        let s = snap(app);
                        fresh.push(digest(&s));
                        if let Some(x) = extra {
                            if i % 8 == 7 || i + 1 == len {
                                loc.queries += x(&w, app, &obs, &mut discs);
                                restore(app, &s);
                            }
                        }
                    }
                    None => {
                        loc.refused += 1;
                        *loc.kinds.entry(format!("{} refused", kind)).or_insert(0) += 1;
                        if *snap(app) != *before {
                            discs.push((w.atomic_tags(path.last().unwrap()), format!("{:?} was refused but changed the state", path.last())));
                        }
                        restore(app, &before);
                    }
                }
                if !discs.is_empty() {
                    loc.foreign += report_discs(c, &w, &path, &discs);
                    break;
                }
            }
            loc.leaves += 1;
            seen.lock().unwrap().extend(fresh);
            loc
        },
    );
    for l in rs {
        c.add(&c.transitions, l.transitions);
        c.add(&c.completed, l.completed);
        c.add(&c.refused, l.refused);
        c.add(&c.conform, l.conform);
        c.add(&c.queries, l.queries);
        c.add(&c.foreign, l.foreign);
        c.add(&c.traces, l.leaves);
        c.merge_kinds(&l.kinds);
    }
    c.add(&c.states, seen.lock().unwrap().len() as u64);
    c.bound(format!(
        "world {}: {} periodic histories of {} operations (every word of up to two of {} operations, of three of the first {})",
        spec.name,
        words.len(),
        len,
        k,
        narrow
    ));
}

/// Every operation of a list once from the seeded state (depth 1), on all threads. For complete
/// products of one operation's parameters.
pub fn fan(c: &Check, specs: &[Spec], ops: &(dyn Fn(&World, &Obs) -> Vec<Op> + Sync), extra: Option<&Extra>) {
    struct R {
        loc: Loc,
        samples: Vec<serde_json::Value>,
    }
    let rs: Vec<R> = par(
        specs,
        || (),
        |_, i, spec| {
            let mut loc = Loc::default();
            let mut samples = vec![];
            let Some((w, s0, o0)) = make(c, spec) else {
                return R { loc, samples };
            };
            let mut app = w.base_chain();
            restore(&mut app, &s0);
            c.add(&c.states, 1);
            let mut states: HashSet<u128> = HashSet::new();
            if let Some(x) = extra {
                let mut discs = vec![];
                loc.queries += x(&w, &mut app, &o0, &mut discs);
                restore(&mut app, &s0);
                loc.foreign += report_discs(c, &w, &[], &discs);
            }
            for op in ops(&w, &o0) {
                let mut discs = vec![];
                let post = w.step_obs(&mut app, &o0, &op, &mut discs);
                loc.transitions += 1;
                loc.leaves += 1;
                let k = op_kind(&op);
                if !matches!(op, Op::Seq(_)) && w.predict(&o0, &op).verdict != crate::refmodel::Verdict::Unspec {
                    loc.conform += 1;
                }
                let e = if post.is_some() { "completed" } else { "refused" };
                *loc.kinds.entry(format!("{} {}", k, e)).or_insert(0) += 1;
                if i % 97 == 0 && samples.is_empty() && post.is_some() {
                    samples.push(json!({"world": spec.name, "seeds": format!("{:?}", spec.seeds), "op": format!("{:?}", op), "outcome": e}));
                }
                let s = snap(&app);
                match post {
                    Some(_) => {
                        loc.completed += 1;
                        states.insert(digest(&s));
                    }
                    None => {
                        loc.refused += 1;
                        if !std::sync::Arc::ptr_eq(&s, &s0) && *s != *s0 {
                            discs.push((w.atomic_tags(&op), format!("{:?} was refused but changed the state", op)));
                        }
                    }
                }
                loc.foreign += report_discs(c, &w, &[op], &discs);
                restore(&mut app, &s0);
            }
            c.add(&c.states, states.len() as u64);
            R { loc, samples }
        },
    );
    for r in rs {
        let l = r.loc;
        c.add(&c.transitions, l.transitions);
        c.add(&c.completed, l.completed);
        c.add(&c.refused, l.refused);
        c.add(&c.conform, l.conform);
        c.add(&c.queries, l.queries);
        c.add(&c.foreign, l.foreign);
        c.add(&c.traces, l.leaves);
        c.merge_kinds(&l.kinds);
        for s in r.samples {
            c.sample(s);
        }
    }
}

/// Replays a path and returns everything the judge says.
pub fn replay(spec: &Spec, ops: &[Op]) -> Vec<Disc> {
    match World::build(spec) {
        Err((e, d)) => {
            println!("set-up: {}", e);
            d
        }
        Ok((w, mut app, mut discs)) => {
            for op in ops {
                let o = w.observe(&app).expect("observe");
                let r = w.step(&mut app, &o, op, &mut discs);
                println!("{:?}: {}", op, if r { "completed" } else { "refused" });
                if let Ok(n) = w.observe(&app) {
                    for p in 0..w.pairs.len() {
                        println!("   pair {}: {:?} supply {}", p, w.reserves(&n, p), w.lp_supply(&n, p));
                    }
                }
            }
            discs
        }
    }
}
