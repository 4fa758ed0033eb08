//! C19–C23: the router, on real routers, factories, pairs and tokens.
use crate::chain::*;
use crate::explore::*;
use crate::p_pair::delegated;
use crate::ops::*;
use crate::refmodel::*;
use crate::rep::*;
use crate::worlds::*;
use haloswap::router::{ConfigResponse, QueryMsg as RQuery};

const TRUST: &[&str] = &[
    "cw-multi-test executes messages, sub-messages and roll-back as a CosmWasm chain does",
    "routes longer than four hops, larger pair graphs and offers and pool states outside the bounds are not covered",
    "routes with a hop that offers native coins are only judged for refusal without effect: pairs of this code base take no native offers",
];

/// four assets (three tokens, one native), six pairs, the last of them without funds
fn graph(name: &str, scale: usize) -> Spec {
    let mut s = multi(
        name,
        &[K::T(6), K::T(18), K::T(8), K::N(6)],
        &[[0, 1], [1, 2], [2, 0], [0, 3], [2, 3], [3, 1]],
        vec![],
    );
    let d: [[u128; 2]; 5] = match scale {
        0 => [[100, 300], [70, 50], [1_000, 40], [9, 1_000], [55, 13]],
        1 => [
            [1_000_003, 3_000_000_019],
            [E18, 77_777],
            [999_999_937, 1_000_000_007],
            [12_345_678, 5],
            [31, E18 + 7],
        ],
        2 => [
            [1 << 70, (1 << 64) + 13],
            [E18 * 1_000_000, (1 << 90) + 1],
            [1 << 80, 1 << 80],
            [(1 << 60) - 1, 1 << 75],
            [3 * E18, 1 << 66],
        ],
        _ => [[1_000, 1_000], [1_000, 1_000], [1_000, 1_000], [1_000, 1_000], [1_000, 1_000]],
    };
    s.name = format!("{} {}", s.name, scale);
    s.seeds = (0..5).map(|p| prov_full(OWNER, p, d[p], p % 2 == 1, None, None)).collect();
    s
}

/// three tokens with every pair between them: routes of any length
fn complete(name: &str, scale: usize) -> Spec {
    let mut s = multi(name, &[K::T(6), K::T(8), K::T(18)], &[[0, 1], [1, 2], [2, 0]], vec![]);
    s.name = format!("{} {}", s.name, scale);
    let d: [[u128; 2]; 3] = match scale {
        0 => [[E18, 2 * E18], [E18 + 1, 2 * E18], [E18 + 2, 2 * E18]],
        1 => [[1_000_003, 999_983], [5_000_011, 77_777_777], [123_456_789, 3_000_017]],
        _ => [[1_000, 700], [650, 1_200], [900, 901]],
    };
    s.seeds = (0..3).map(|p| prov(OWNER, p, d[p])).collect();
    s
}
/// routes of many hops that go round over three assets
fn caravans() -> Vec<Vec<(usize, usize)>> {
    let circles: [&[usize]; 8] = [&[0, 1], &[1, 0], &[0, 1, 2], &[0, 2, 1], &[2, 0, 1], &[0, 1, 0, 2], &[0, 1, 2, 1], &[0, 1, 2, 0, 2, 1]];
    let mut v = vec![];
    for n in [8usize, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 24, 25, 30, 31, 32, 33, 34, 48, 50, 51, 64, 65, 66, 100, 101] {
        for c in circles {
            v.push((0..n).map(|i| (c[i % c.len()], c[(i + 1) % c.len()])).collect());
        }
    }
    v
}
/// a line of thirty tokens and a native denom
fn long_line(name: &str) -> Spec {
    let mut k = vec![K::T(6); 30];
    k.push(K::N(6));
    let pairs: Vec<[usize; 2]> = (0..30).map(|i| if i % 2 == 0 { [i, i + 1] } else { [i + 1, i] }).collect();
    let mut s = multi("line", &k, &pairs, vec![]);
    s.name = format!("{} on a long line", name);
    s.seeds = (0..30).map(|p| prov(OWNER, p, [E18 + p as u128, E18 + 77 * p as u128])).collect();
    s
}
fn long_stretches() -> Vec<Vec<(usize, usize)>> {
    let mut v: Vec<Vec<(usize, usize)>> = vec![];
    for n in [10usize, 11, 12, 15, 16, 17, 20, 25, 29, 30] {
        v.push((30 - n..30).map(|i| (i, i + 1)).collect());
        v.push((0..n).map(|i| (i, i + 1)).collect());
        v.push((0..n.min(29)).rev().map(|i| (i + 1, i)).collect());
    }
    v
}
const CARAVANS: &str = "224 routes of 8 to 101 hops that go round over three assets, and 30 of 10 to 30 hops along a line of 31 assets";

/// a line of nine tokens: t0 - t1 - ... - t8, and a native denom at its end
fn line(name: &str) -> Spec {
    let mut k: Vec<K> = [6, 8, 18, 0, 6, 12, 6, 9, 6].into_iter().map(K::T).collect();
    k.push(K::N(6));
    let pairs: Vec<[usize; 2]> = (0..9).map(|i| if i % 2 == 0 { [i, i + 1] } else { [i + 1, i] }).collect();
    let mut s = multi(name, &k, &pairs, vec![]);
    s.seeds = (0..9)
        .map(|p| prov_full(OWNER, p, [1_000_000_007 + 1_000 * p as u128, 998_244_353 + 77 * p as u128], false, None, None))
        .collect();
    s
}
/// every stretch of the line, in both directions
fn stretches() -> Vec<Vec<(usize, usize)>> {
    let mut v = vec![];
    for a in 0..10usize {
        for b in 0..10usize {
            if a < b {
                v.push((a..b).map(|i| (i, i + 1)).collect());
            } else if b < a && a < 9 {
                v.push((b..a).rev().map(|i| (i + 1, i)).collect());
            }
        }
    }
    v
}

/// every chained route of `n` hops over the assets `0..k`
fn chains(k: usize, n: usize) -> Vec<Vec<(usize, usize)>> {
    let mut v: Vec<Vec<(usize, usize)>> = vec![];
    for a in 0..k {
        for b in 0..k {
            if a != b {
                v.push(vec![(a, b)]);
            }
        }
    }
    for _ in 1..n {
        let mut next = vec![];
        for r in &v {
            let a = r.last().unwrap().1;
            for b in 0..k {
                if a != b {
                    let mut x = r.clone();
                    x.push((a, b));
                    next.push(x);
                }
            }
        }
        v = next;
    }
    v
}
/// every sequence of up to `n` hops over the assets `0..k`
fn sequences(k: usize, n: usize, selfs: bool) -> Vec<Vec<(usize, usize)>> {
    let hops: Vec<(usize, usize)> = (0..k)
        .flat_map(|a| (0..k).map(move |b| (a, b)))
        .filter(|(a, b)| selfs || a != b)
        .collect();
    let mut v: Vec<Vec<(usize, usize)>> = vec![vec![]];
    let mut last = v.clone();
    for _ in 0..n {
        let mut next = vec![];
        for r in &last {
            for h in &hops {
                let mut x = r.clone();
                x.push(*h);
                next.push(x);
            }
        }
        v.extend(next.clone());
        last = next;
    }
    v
}

fn route(u: usize, hops: &[(usize, usize)], amt: u128, min: Option<u128>, to: Option<usize>) -> Op {
    Op::Route {
        u,
        offer: hops.first().map_or(0, |h| h.0),
        hops: hops.to_vec(),
        amt,
        min,
        to,
    }
}

/// a history around the router: pool changes, routes, gifts
fn around(w: &World, o: &Obs) -> Vec<Op> {
    let mut v = vec![];
    for p in 0..w.pairs.len() {
        let r = w.reserves(o, p);
        if w.lp_supply(o, p) == 0 {
            v.push(prov(OWNER, p, [40, 1_000]));
            continue;
        }
        for s in 0..2 {
            if !w.assets[w.pairs[p].assets[s]].native() {
                v.push(swap(BOB, p, s, r[s] / 3 + 1));
            }
        }
        v.push(wd(OWNER, p, o.bal[w.pairs[p].lp][OWNER] / 2 + 1));
        v.push(prov(ALICE, p, [r[0], r[1]]));
        v.push(donate(MAL, w.pairs[p].assets[1], p, r[1] + 1));
    }
    v.push(route(ALICE, &[(0, 1), (1, 2)], 17, None, None));
    v.push(route(BOB, &[(1, 2), (2, 0), (0, 3)], 1_000_000, None, Some(CAROL)));
    v.push(delegated(ALICE, route(MAL, &[(0, 1), (1, 2)], 19, Some(1), None)));
    v.push(delegated(ALICE, route(BOB, &[(0, 1), (1, 2)], 23, None, Some(ALICE))));
    v
}

/// one step of each kind around the router, for periodic histories
fn strides(w: &World, o: &Obs) -> Vec<Option<Op>> {
    let r = |p: usize| w.reserves(o, p);
    let lp = |p: usize, u: usize| o.bal[w.pairs[p].lp][u];
    vec![
        Some(route(ALICE, &[(0, 1), (1, 2)], r(0)[0] / 30 + 2, None, Some(CAROL))),
        Some(route(BOB, &[(2, 1), (1, 0), (0, 3)], r(1)[1] / 40 + 2, Some(1), None)),
        Some(route(MAL, &[(0, 1), (1, 2), (2, 0)], r(0)[0] / 20 + 2, Some(u128::MAX), None)),
        Some(swap(BOB, 0, 1, r(0)[1] / 20 + 1)),
        (lp(1, OWNER) > 9).then(|| wd(OWNER, 1, lp(1, OWNER) / 10)),
        Some(prov(ALICE, 2, [r(2)[0] / 9 + 1, r(2)[1] / 9 + 1])),
        Some(Op::Wait { blocks: 1 }),
        Some(route(ALICE, &[(1, 2)], r(1)[0] / 3 + 1, Some(1), Some(ALICE))),
        Some(Op::Wait { blocks: 1_000_000 }),
        Some(Op::RouterStep { u: MAL, hop: (0, 1), to: Some(MAL) }),
        Some(route(CAROL, &[(0, 1), (2, 3)], 50, None, None)),
        Some(Op::RouterAssert { u: MAL, asset: 1, prev: o.bal[1][CAROL], min: 0, receiver: CAROL }),
        Some(give(MAL, 3, ROUT, 3)),
        Some(delegated(BOB, route(MAL, &[(0, 1), (1, 2)], r(0)[0] / 25 + 2, Some(1), None))),
    ]
}
fn marathons(c: &Check, extra: Option<&Extra>) {
    let (period, len) = c.b((3, 24), (3, 120));
    for scale in c.b(vec![1], vec![0, 1, 2, 3]) {
        marathon(c, &graph("periodic histories", scale), period, c.b(5, 9), len, &strides, extra);
    }
}

pub fn c19(c: &Check) -> &'static [&'static str] {
    c.bound("every chained route of one to four hops over four assets and six pairs (one unfunded, two with native sides), at several pool states");
    let maxhops = 4;
    let mut specs: Vec<Spec> = (0..4).map(|s| graph("routes", s)).collect();
    let mut t = multi(
        "tokens only",
        &[K::T(6), K::T(18), K::T(0), K::T(8)],
        &[[0, 1], [1, 2], [2, 0], [0, 3], [2, 3], [3, 1]],
        vec![],
    );
    t.seeds = (0..6)
        .map(|p| prov(OWNER, p, [[1_000, 700], [E18, 3], [12_345, 54_321], [9, 9], [77, 1 << 60], [10_000, 100]][p]))
        .collect();
    specs.push(t);
    // one world per length and scale, so that they run side by side
    let mut items = vec![];
    for s in &specs {
        for n in 1..=maxhops {
            for first in 0..4 {
                let mut t = s.clone();
                t.name = format!("{} / {} hops from asset {}", t.name, n, first);
                items.push((t, n, first));
            }
        }
    }
    let thorough = c.thorough();
    let list: Vec<Spec> = items.iter().map(|x| x.0.clone()).collect();
    fan(
        c,
        &list,
        &|w, o| {
            let it = items.iter().find(|x| x.0.name == w.spec.name).unwrap();
            let mut v = vec![];
            for r in chains(4, it.1) {
                if r[0].0 != it.2 {
                    continue;
                }
                let p = w.pair_of(r[0].0, r[0].1).unwrap();
                let side = if w.pairs[p].assets[0] == r[0].0 { 0 } else { 1 };
                let res = w.reserves(o, p)[side];
                let mut amts = vec![1, res / 20 + 1, res.saturating_mul(2) + 3];
                if thorough {
                    amts.extend([2, 3, res / 2, res / 2 + 1, res * 50 + 1, 1 << 100]);
                }
                for amt in amts {
                    for to in [None, Some(CAROL), Some(PAIR0 + 1), Some(RECO)] {
                        v.push(route(ALICE, &r, amt, None, to));
                    }
                    if thorough {
                        for to in [Some(ALICE), Some(FACT), Some(PAIR0), Some(MAL), Some(PAIR0 + 4)] {
                            v.push(route(BOB, &r, amt, None, to));
                        }
                    }
                }
            }
            v
        },
        None,
    );
    // unusual recipients
    c.bound("every chained route of up to three hops to each token, LP token and account with a similar name, and to texts that are no address");
    fan(
        c,
        &[peopled(graph("recipients", 3)), peopled(graph("recipients", 1))],
        &|w, _| {
            let mut v = vec![];
            for n in 1..=3 {
                for r in chains(4, n) {
                    for to in w.others().chain(w.odds()) {
                        for min in [None, Some(1)] {
                            v.push(route(ALICE, &r, 50, min, Some(to)));
                        }
                    }
                }
            }
            v
        },
        None,
    );
    // long routes
    c.bound("every chained route of up to seven (thorough: ten) hops over a complete graph of three tokens, and every stretch of a line of ten assets in both directions");
    let mut list = vec![];
    for scale in 0..3 {
        for n in 1..=c.b(7, 10) {
            list.push(complete(&format!("long routes, {} hops,", n), scale));
        }
    }
    fan(
        c,
        &list,
        &|w, _| {
            let n: usize = w.spec.name.split_whitespace().nth(2).unwrap().parse().unwrap();
            let mut v = vec![];
            for r in chains(3, n) {
                for amt in [1, 500, 40_000_000] {
                    v.push(route(ALICE, &r, amt, None, Some(CAROL)));
                    if amt == 500 {
                        v.push(route(BOB, &r, amt, None, None));
                        v.push(route(BOB, &r, amt, Some(1), Some(PAIR0)));
                    }
                }
            }
            v
        },
        None,
    );
    fan(
        c,
        &[line("line")],
        &|_, _| {
            let mut v = vec![];
            for r in stretches() {
                for amt in [1, 1_000, 3_000_000, 1 << 40] {
                    for to in [None, Some(CAROL), Some(PAIR0 + 4), Some(RECO), Some(FACT)] {
                        v.push(route(ALICE, &r, amt, None, to));
                    }
                }
            }
            v
        },
        None,
    );
    c.bound(CARAVANS);
    let list: Vec<Spec> = (0..8).map(|part| complete(&format!("caravans {}", part), part % 2)).chain([long_line("caravans")]).collect();
    fan(
        c,
        &list,
        &|w, _| {
            let part: Option<usize> = w.spec.name.split_whitespace().nth(1).unwrap().parse().ok();
            let rs = if part.is_some() { caravans() } else { long_stretches() };
            let mut v = vec![];
            for (_, r) in rs.iter().enumerate().filter(|(i, _)| part.map_or(true, |p| i % 8 == p)) {
                for (amt, min, to) in [(100_000, None, None), (7_000_000, Some(1), Some(CAROL)), (40, None, Some(PAIR0))] {
                    v.push(route(ALICE, r, amt, min, to));
                }
            }
            v
        },
        None,
    );
    // after every history
    let d = c.b(2, 3);
    for s in c.b(vec![0], vec![0, 1, 2]) {
        bfs(
            c,
            &graph("histories with routes", s),
            d,
            c.b(4_000, 30_000),
            &|w, o, level| {
                let mut v = around(w, o);
                let n = if level + 1 == d { 3 } else { 1 };
                for n in 1..=n {
                    for r in chains(3, n) {
                        v.push(route(ALICE, &r, 11, None, Some(CAROL)));
                        if n == 3 {
                            v.push(route(MAL, &r, 100_000, None, None));
                        }
                    }
                }
                v
            },
            None,
        );
    }
    marathons(c, None);
    TRUST
}

/// Every route is executed without a minimum and then with minimums around what the recipient got:
/// the outcomes have to agree with the amount, whatever the route did.
fn thresholds(w: &World, app: &mut Chain, o: &Obs, routes: &[Op], out: &mut Vec<Disc>) -> u64 {
    let base = snap(app);
    let mut n = 0;
    for op in routes {
        let (hops, recv) = match op {
            Op::Route { u, hops, to, .. } | Op::RouteBare { u, hops, to, .. } => (hops, to.unwrap_or(*u)),
            Op::RouteForged { sender, hops, to, .. } => (hops, to.unwrap_or(*sender)),
            _ => continue,
        };
        if hops.is_empty() || recv == ROUT {
            continue;
        }
        let target = hops.last().unwrap().1;
        let r = w.run(app, op);
        let after = w.observe(app).unwrap();
        restore(app, &base);
        let got = if r.ok() {
            // the offer has left the sender when the route starts
            let mut before = o.bal[target][recv];
            if let Op::Route { u, offer, amt, .. } = op {
                if *offer == target && *u == recv {
                    before -= amt;
                }
            }
            Some(after.bal[target][recv].saturating_sub(before))
        } else {
            None
        };
        let g = got.unwrap_or(5);
        let mut mins = vec![0, 1, g.saturating_sub(1), g, g.saturating_add(1), g.saturating_mul(2).saturating_add(1), u128::MAX];
        // the recipient's balances before and after, mistaken for the growth
        mins.extend([o.bal[target][recv], after.bal[target][recv], after.bal[target][recv].saturating_add(1)]);
        mins.sort();
        mins.dedup();
        for m in mins {
            let mut x = op.clone();
            match &mut x {
                Op::Route { min, .. } | Op::RouteBare { min, .. } | Op::RouteForged { min, .. } => *min = Some(m),
                _ => (),
            }
            let res = w.run(app, &x);
            n += 1;
            let done = res.ok();
            let want = got.map_or(false, |g| g >= m);
            if done != want {
                out.push((
                    vec!["C20"],
                    format!(
                        "{:?}: {} although the recipient {} without a minimum",
                        x,
                        if done { "completed".to_string() } else { format!("was {}", res.describe()) },
                        match got {
                            Some(g) => format!("gets {}", g),
                            None => "gets nothing, as the route is refused,".to_string(),
                        }
                    ),
                ));
            } else if done {
                // a minimum changes nothing but the outcome
                let a2 = w.observe(app).unwrap();
                if a2 != after {
                    out.push((vec!["C20"], format!("{:?}: another result than without a minimum", x)));
                }
            } else if *snap(app) != *base {
                out.push((vec!["C20", "C13"], format!("{:?}: refused but changed the state", x)));
            }
            restore(app, &base);
        }
    }
    n
}

pub fn c20(c: &Check) -> &'static [&'static str] {
    c.bound("every chained route of one to three hops (thorough: four), ten minimums each (0, 1, exact output ±1, balances before and after, extremes), in every state of a history; routes started by token, by a bare message and by a forged notice with assets lying in the router");
    let maxhops = c.b(3, 4);
    let thorough = c.thorough();
    let seeds = |sp: &mut Spec, dirty: bool| {
        if dirty {
            for a in 0..3 {
                sp.seeds.push(give(MAL, a, ROUT, 40 + a as u128));
            }
        }
        // recipients that already hold, and that hold nothing
        sp.tokens[2].1[CAROL] = 0;
        sp.natives[0].2[CAROL] = 0;
    };
    for scale in c.b(vec![0, 1], vec![0, 1, 2, 3]) {
        for dirty in [false, true] {
            if !thorough && dirty && scale == 1 {
                continue;
            }
            let mut sp = graph(if dirty { "minimum, assets in the router" } else { "minimum" }, scale);
            seeds(&mut sp, dirty);
            let extra = |w: &World, app: &mut Chain, o: &Obs, out: &mut Vec<Disc>| {
                let mut routes = vec![];
                for n in 1..=maxhops {
                    for (i, r) in chains(4, n).into_iter().enumerate() {
                        if n == 4 && i % 3 != 0 || n == 3 && !thorough && i % 2 != 0 {
                            continue;
                        }
                        let amt = [1u128, 25, 4_000][i % 3];
                        for (j, to) in [None, Some(CAROL)].into_iter().enumerate() {
                            if !thorough && n > 1 && (i / 2) % 2 != j {
                                continue;
                            }
                            routes.push(route(ALICE, &r, amt, None, to));
                        }
                        if dirty && (thorough || n < 3) {
                            routes.push(Op::RouteBare { u: BOB, hops: r.clone(), min: None, to: Some(CAROL) });
                            routes.push(Op::RouteForged { u: MAL, sender: BOB, hops: r.clone(), min: None, to: None });
                        }
                        if n > 1 && dirty {
                            // two independent routes in one
                            let mut x = r.clone();
                            x.reverse();
                            routes.push(route(ALICE, &x, amt, None, Some(CAROL)));
                        }
                    }
                }
                thresholds(w, app, o, &routes, out)
            };
            bfs(
                c,
                &sp,
                c.b(1, 2),
                c.b(1_000, 150),
                &|w, o, _| around(w, o),
                Some(&extra),
            );
        }
    }
    // longer routes
    c.bound("the same minimums for every chained route of four to six (thorough: eight) hops over a complete graph of three tokens and every stretch of a line of ten assets");
    let mut list = vec![];
    for n in 4..=c.b(6, 8) {
        for part in 0..(1 << (n - 4)) {
            for scale in 0..2 {
                for dirty in [false, true] {
                    let mut sp = complete(&format!("minimum, {} hops, part {}", n, part), scale);
                    if dirty {
                        sp.name = format!("{} assets in the router", sp.name);
                        for a in 0..3 {
                            sp.seeds.push(give(MAL, a, ROUT, 40 + a as u128));
                        }
                    }
                    list.push(sp);
                }
            }
        }
    }
    for part in 0..8 {
        list.push(line(&format!("minimum on a line, part {}", part)));
        list.push(complete(&format!("minimum caravans {}", part), part % 2));
    }
    c.bound(CARAVANS);
    list.push(long_line("minimum"));
    let extra = |w: &World, app: &mut Chain, o: &Obs, out: &mut Vec<Disc>| {
        let word = |k: usize| w.spec.name.split_whitespace().nth(k).unwrap().parse::<usize>();
        let (rs, parts, part) = match word(1) {
            Err(_) if w.spec.name.contains("caravans") => (caravans(), 8, word(2).unwrap()),
            Err(_) if w.spec.name.contains("long line") => (long_stretches(), 1, 0),
            Ok(n) => (chains(3, n), 1 << (n - 4), word(4).unwrap()),
            Err(_) => (stretches(), 8, word(5).unwrap()),
        };
        let routes: Vec<Op> = rs
            .iter()
            .enumerate()
            .filter(|(i, _)| i % parts == part)
            .map(|(i, r)| route(ALICE, r, [3u128, 2_500, 4_000_000][i % 3], None, [None, Some(CAROL)][i / 3 % 2]))
            .collect();
        thresholds(w, app, o, &routes, out)
    };
    fan(c, &list, &|_, _| vec![], Some(&extra));
    marathons(c, None);
    TRUST
}

pub fn c21(c: &Check) -> &'static [&'static str] {
    let n = c.b(3, 4);
    c.bound(format!(
        "every sequence of up to {} hops over two tokens, a native denom and a denom spelled like the first token's address (hops onto themselves and without a pair included), started by a token transfer, with native coins, by a bare message and by a forged notice, with and without assets in the router",
        n
    ));
    let mut list = vec![];
    for dirty in [false, true] {
        // contract3 is the address of the world's first token
        let mut s = multi("shapes", &[K::T(6), K::T(8), K::N(6), K::N(6)], &[[0, 1], [0, 2], [1, 3]], vec![]);
        s.natives[1].0 = "contract3".into();
        s.seeds = (0..3).map(|p| prov(OWNER, p, [1_000 + 100 * p as u128, 2_000])).collect();
        if dirty {
            s.seeds.extend((0..4).map(|a| give(MAL, a, ROUT, 60)));
        }
        for part in 0..16 {
            let mut t = s.clone();
            t.name = format!("shapes dirty={} part {}", dirty, part);
            list.push(t);
        }
    }
    let thorough = c.thorough();
    fan(
        c,
        &list,
        &|w, _| {
            let part: usize = w.spec.name.rsplit(' ').next().unwrap().parse().unwrap();
            let dirty = w.spec.name.contains("dirty=true");
            let mut v = vec![];
            for (i, hops) in sequences(4, n, true).into_iter().enumerate() {
                if i % 16 != part {
                    continue;
                }
                for offer in [0, 1, 2] {
                    // started with the first hop's asset, or with another one
                    let own = hops.first().map_or(true, |h| h.0 == offer);
                    if own || i % 5 == offer || thorough && dirty {
                        v.push(Op::Route { u: ALICE, offer, hops: hops.clone(), amt: 50, min: None, to: None });
                    }
                    if own && hops.len() < 3 {
                        v.push(Op::Route { u: ALICE, offer, hops: hops.clone(), amt: 50, min: Some(0), to: Some(CAROL) });
                    }
                }
                if dirty || hops.len() < 3 {
                    v.push(Op::RouteBare { u: BOB, hops: hops.clone(), min: None, to: None });
                    v.push(Op::RouteForged { u: MAL, sender: BOB, hops: hops.clone(), min: Some(0), to: None });
                }
            }
            v
        },
        None,
    );
    // routes over a graph where every pair exists: never refused for their shape
    let list: Vec<Spec> = (0..c.b(7, 10)).map(|i| complete(&format!("complete graph hops {}", i + 1), 0)).collect();
    c.bound(format!("every chained route of up to {} hops over a complete graph of three tokens", list.len()));
    fan(
        c,
        &list,
        &|w, _| {
            let n: usize = w.spec.name.split_whitespace().nth(3).unwrap().parse().unwrap();
            chains(3, n)
                .into_iter()
                .flat_map(|r| {
                    [
                        route(ALICE, &r, 1_000_000, None, None),
                        route(ALICE, &r, 1_000_000, Some(1), Some(CAROL)),
                    ]
                })
                .collect()
        },
        None,
    );
    // a long chained route with one hop replaced by another one, with assets of every kind in the router
    let n = c.b(7, 9);
    c.bound(format!(
        "every chained route of {} to {} hops over a complete graph of three tokens with any one hop replaced by any hop of the graph or of a separate pair, all assets lying in the router",
        4, n
    ));
    let list: Vec<Spec> = (4..=n)
        .flat_map(|n| {
            (0..n).map(move |at| {
                let mut s = multi(
                    "replaced",
                    &[K::T(6), K::T(8), K::T(18), K::T(6), K::T(9)],
                    &[[0, 1], [1, 2], [2, 0], [3, 4]],
                    vec![],
                );
                s.name = format!("one hop replaced: hops {} at {}", n, at);
                s.seeds = (0..4).map(|p| prov(OWNER, p, [E18 + p as u128, 2 * E18])).collect();
                s.seeds.extend((0..5).map(|a| give(MAL, a, ROUT, 5_000)));
                s
            })
        })
        .collect();
    fan(
        c,
        &list,
        &|w, _| {
            let f: Vec<usize> = w.spec.name.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            let (n, at) = (f[0], f[1]);
            let other = [(0, 1), (1, 0), (1, 2), (2, 1), (2, 0), (0, 2), (3, 4), (4, 3)];
            let mut v = vec![];
            // beyond seven hops only the routes that start with one hop of the graph
            for r in chains(3, n).into_iter().filter(|r| n < 7 || r[0] == (0, 1)) {
                for h in other {
                    if h != r[at] && (at > 0 || h.0 == r[0].0) {
                        let mut x = r.clone();
                        x[at] = h;
                        v.push(route(ALICE, &x, 100_000, None, None));
                    }
                }
            }
            v
        },
        None,
    );
    // many hops
    c.bound(CARAVANS);
    c.bound("the first of them with one hop (first, second, middle, last) replaced; routes of 1 to 20 hops between separate pairs");
    let mut list: Vec<Spec> = (0..16)
        .map(|part| {
            let mut s = multi("caravans", &[K::T(6), K::T(8), K::T(18), K::T(6), K::T(9)], &[[0, 1], [1, 2], [2, 0], [3, 4]], vec![]);
            s.name = format!("caravans {}", part);
            s.seeds = (0..4).map(|p| prov(OWNER, p, [E18 + p as u128, 2 * E18])).collect();
            if part < 8 {
                s.seeds.extend((0..5).map(|a| give(MAL, a, ROUT, 5_000)));
            }
            s
        })
        .collect();
    list.push(long_line("caravans"));
    let mut s = multi("separate pairs", &vec![K::T(6); 40], &(0..20).map(|i| [2 * i, 2 * i + 1]).collect::<Vec<_>>(), vec![]);
    s.seeds = (0..20).map(|p| prov(OWNER, p, [E18, 2 * E18])).collect();
    s.seeds.extend((0..20).map(|a| give(MAL, 2 * a, ROUT, 5_000)));
    s.name = "separate pairs".into();
    list.push(s);
    fan(
        c,
        &list,
        &|w, _| {
            let mut v = vec![];
            let mut word = w.spec.name.split_whitespace();
            match (word.next(), word.next().and_then(|x| x.parse::<usize>().ok())) {
                (_, Some(part)) => {
                    for (_, r) in caravans().iter().enumerate().filter(|(i, _)| i % 8 == part % 8) {
                        v.push(route(ALICE, r, 100_000, None, None));
                        for at in [0, 1, r.len() / 2, r.len() - 1] {
                            for h in [(3, 4), (0, 1), (0, 2)] {
                                if h != r[at] && at > 0 {
                                    let mut x = r.clone();
                                    x[at] = h;
                                    v.push(route(ALICE, &x, 100_000, None, None));
                                }
                            }
                        }
                    }
                }
                (Some("separate"), _) => {
                    for n in 1..=20 {
                        let r: Vec<(usize, usize)> = (0..n).map(|i| (2 * i, 2 * i + 1)).collect();
                        v.push(route(ALICE, &r, 1_000, None, None));
                        v.push(Op::RouteBare { u: BOB, hops: r, min: None, to: Some(CAROL) });
                    }
                }
                _ => {
                    for r in long_stretches() {
                        v.push(route(ALICE, &r, 100_000, None, Some(CAROL)));
                        let mut x = r.clone();
                        x.remove(x.len() / 2);
                        v.push(route(ALICE, &x, 100_000, None, None));
                    }
                }
            }
            v
        },
        None,
    );
    marathons(c, None);
    TRUST
}

fn config_check(w: &World, app: &mut Chain, _o: &Obs, out: &mut Vec<Disc>) -> u64 {
    match query::<_, ConfigResponse>(app, w.router(), &RQuery::Config {}) {
        Ok(r) if r.halo_factory == w.factory() => (),
        r => out.push((
            vec!["C22"],
            format!("the router was created for factory {} but answers {:?}", w.factory(), r.map(|x| x.halo_factory)),
        )),
    }
    1
}

pub fn c22(c: &Check) -> &'static [&'static str] {
    let thorough = c.thorough();
    c.bound("in every state of a history with and without assets in the router: the single-hop step by every account other than the router, for every hop and several recipients, directly and as the hook of a token transfer; the final assertion by every account with every threshold around the balance");
    for scale in c.b(vec![0], vec![0, 1]) {
        for dirty in [false, true] {
            let mut sp = graph(if dirty { "internal steps, assets in the router" } else { "internal steps" }, scale);
            if dirty {
                for a in 0..4 {
                    sp.seeds.push(give(MAL, a, ROUT, 400 + a as u128));
                }
                sp.seeds.push(give(OWNER, 4, ROUT, 3));
            }
            let extra = |w: &World, app: &mut Chain, o: &Obs, out: &mut Vec<Disc>| -> u64 {
                let mut n = config_check(w, app, o, out);
                let base = snap(app);
                let mut hops: Vec<(usize, usize)> = (0..4).flat_map(|a| (0..4).map(move |b| (a, b))).collect();
                hops.extend([(4, 0), (0, 4)]);
                let mut ops = vec![];
                for u in 0..w.accts.len() {
                    if u == ROUT {
                        continue;
                    }
                    for h in &hops {
                        for to in [None, Some(MAL), Some(ROUT), Some(FACT), Some(PAIR0)] {
                            ops.push(Op::RouterStep { u, hop: *h, to });
                        }
                        ops.push(Op::RouterStep { u, hop: *h, to: Some(u) });
                    }
                }
                for offer in 0..3 {
                    for h in &hops {
                        for to in [None, Some(MAL), Some(ROUT), Some(PAIR0 + 1)] {
                            ops.push(Op::RouterHookStep { u: MAL, offer, amt: 7, hop: *h, to });
                        }
                    }
                }
                for u in [MAL, ROUT, OWNER, PAIR0] {
                    if !thorough && (u > ROUT || u == OWNER) {
                        continue;
                    }
                    for asset in 0..5 {
                        for receiver in [CAROL, ROUT, PAIR0, MAL] {
                            let b = o.bal[asset][receiver];
                            for prev in [0, 1, b.saturating_sub(1), b, b + 1, u128::MAX] {
                                let g = b.saturating_sub(prev);
                                for min in if thorough { vec![0, 1, g.saturating_sub(1), g, g + 1, b, u128::MAX] } else { vec![0, g.saturating_sub(1), g, g + 1] } {
                                    ops.push(Op::RouterAssert { u, asset, prev, min, receiver });
                                }
                            }
                        }
                    }
                }
                // with coins sent along
                let mut paid = vec![];
                for (i, op) in ops.iter().enumerate() {
                    let u = match op {
                        Op::RouterStep { u, to, .. } if thorough || to.map_or(true, |t| t == MAL) => *u,
                        Op::RouterAssert { u, .. } if thorough || i % 4 == 0 => *u,
                        _ => continue,
                    };
                    if o.bal[3][u] >= 7 {
                        paid.push(Op::Paid { op: Box::new(op.clone()), coins: vec![(3, 7)] });
                    }
                }
                ops.extend(paid);
                for op in ops {
                    n += 1;
                    let mut d = vec![];
                    // refused, or without any effect but for the coins sent
                    w.step_obs(app, o, &op, &mut d);
                    if let Op::Paid { .. } = op {
                        restore(app, &base);
                    } else if *snap(app) != *base {
                        d.push((vec!["C22"], format!("{:?}: the state changed", op)));
                        restore(app, &base);
                    }
                    out.extend(d);
                }
                n
            };
            let d = c.b(1, 2);
            bfs(c, &sp, d, c.b(400, 400), &|w, o, _| {
                let mut v = around(w, o);
                v.push(Op::Migrate { u: OWNER, pair: 0, code: Some(CODE_PAIR2) });
                if dirty {
                    v.push(Op::RouteBare { u: BOB, hops: vec![(0, 1)], min: None, to: None });
                    v.push(Op::RouteBare { u: MAL, hops: vec![(0, 1), (1, 2)], min: Some(1), to: None });
                    v.push(Op::RouteForged { u: MAL, sender: MAL, hops: vec![(2, 0)], min: None, to: None });
                }
                v
            }, Some(&extra));
        }
    }
    // every message of the alphabet, for the configuration alone
    bfs(
        c,
        &graph("configuration", 3),
        c.b(2, 3),
        c.b(5_000, 20_000),
        &|w, o, _| {
            let mut v = around(w, o);
            for r in chains(4, 2) {
                v.push(route(ALICE, &r, 9, Some(1), None));
                v.push(Op::RouteForged { u: PAIR0, sender: MAL, hops: r.clone(), min: None, to: None });
            }
            v
        },
        Some(&config_check),
    );
    marathons(c, Some(&config_check));
    TRUST
}

/// what composing the pairs' own answers gives
fn compose(w: &World, app: &Chain, hops: &[(usize, usize)], amt: u128, rev: bool) -> Option<u128> {
    if hops.is_empty() {
        return None;
    }
    let mut x = amt;
    let it: Box<dyn Iterator<Item = &(usize, usize)>> = if rev { Box::new(hops.iter().rev()) } else { Box::new(hops.iter()) };
    for h in it {
        if h.0 == h.1 {
            return None;
        }
        let p = w.pair_of(h.0, h.1)?;
        x = if rev {
            w.rsim(app, p, h.1, x).ok()?.offer_amount.u128()
        } else {
            w.sim(app, p, h.0, x).ok()?.return_amount.u128()
        };
    }
    Some(x)
}

pub fn c23(c: &Check) -> &'static [&'static str] {
    c.bound("forward and reverse quotes of every hop sequence of up to two hops, chained or not, and of every chained route of up to four hops, for amounts from 0 to 2^120, in every state of a history, against the composition of the pairs' own answers; execution against quote for routes without repeated pairs");
    let thorough = c.thorough();
    for scale in c.b(vec![0, 1], vec![0, 1, 2, 3]) {
        let sp = graph("quotes", scale);
        let extra = |w: &World, app: &mut Chain, o: &Obs, out: &mut Vec<Disc>| -> u64 {
            let base = snap(app);
            let mut n = 0;
            let mut rs = sequences(5, 2, true);
            for k in 3..=4 {
                rs.extend(chains(4, k));
            }
            // the third hop does not take up where the second ended
            rs.extend(chains(4, 2).into_iter().map(|mut r| {
                r.push((0, 1));
                r
            }));
            let mut amts: Vec<u128> = vec![0, 13, 999, 1_000_003];
            if thorough {
                amts.extend([1, 2, 100, 1 << 64, 1 << 100, 1 << 120]);
            } else {
                amts.push(1 << 90);
            }
            for (i, r) in rs.iter().enumerate() {
                for (j, a) in amts.iter().enumerate() {
                    if !thorough && r.len() == 4 && (i + j) % 3 != 0 {
                        continue;
                    }
                    for rev in [false, true] {
                        n += 1;
                        let want = compose(w, app, r, *a, rev);
                        let got = if rev { w.route_rsim(app, r, *a) } else { w.route_sim(app, r, *a) };
                        if got.as_ref().ok().copied() != want {
                            out.push((
                                vec!["C23"],
                                format!(
                                    "{} quote of {:?} for {}: the router answers {:?}, the pairs compose to {:?}",
                                    if rev { "reverse" } else { "forward" },
                                    r,
                                    a,
                                    got,
                                    want
                                ),
                            ));
                        }
                    }
                }
            }
            if *snap(app) != *base {
                out.push((vec!["C23", "C22"], "a quote changed the state".into()));
                restore(app, &base);
            }
            let _ = o;
            n
        };
        let d = c.b(1, 2);
        bfs(c, &sp, d, c.b(400, 200), &|w, o, _| around(w, o), Some(&extra));
    }
    // longer routes
    c.bound("quotes of every chained route of up to six (thorough: eight) hops over a complete graph of three tokens and every stretch of a line of ten assets");
    let mut list = vec![];
    for part in 0..8 {
        list.extend((0..3).map(|s| complete(&format!("quotes {}", part), s)));
        list.push(line(&format!("quotes {} on a line", part)));
        list.push(complete(&format!("quotes {} caravans", part), 0));
    }
    list.push(long_line("quotes 0"));
    c.bound(CARAVANS);
    let extra = |w: &World, app: &mut Chain, _o: &Obs, out: &mut Vec<Disc>| -> u64 {
        let part: usize = w.spec.name.split_whitespace().nth(1).unwrap().parse().unwrap();
        let rs: Vec<Vec<(usize, usize)>> = if w.spec.name.contains("caravans") {
            caravans()
        } else if w.spec.name.contains("long line") {
            long_stretches().into_iter().flat_map(|r| std::iter::once(r).chain(std::iter::repeat(vec![]).take(7))).collect()
        } else if w.spec.name.contains("line") { stretches() } else { (1..=c.b(6, 8)).flat_map(|n| chains(3, n)).collect() };
        let mut n = 0;
        for (_, r) in rs.iter().enumerate().filter(|(i, _)| i % 8 == part) {
            for a in [0u128, 1, 4, 300, 80_000, 20_000_000, 1 << 60, 1 << 110] {
                for rev in [false, true] {
                    n += 1;
                    let want = compose(w, app, r, a, rev);
                    let got = if rev { w.route_rsim(app, r, a) } else { w.route_sim(app, r, a) };
                    if got.as_ref().ok().copied() != want {
                        out.push((
                            vec!["C23"],
                            format!("{} quote of {:?} for {}: the router answers {:?}, the pairs compose to {:?}", if rev { "reverse" } else { "forward" }, r, a, got, want),
                        ));
                    }
                }
            }
        }
        n
    };
    fan(c, &list, &|_, _| vec![], Some(&extra));
    // quoted = delivered
    let list: Vec<Spec> = (0..4).map(|s| graph("quote and delivery", s)).collect();
    fan(
        c,
        &list,
        &|w, o| {
            let mut v = vec![];
            for n in 1..=4 {
                for r in chains(4, n) {
                    let p = w.pair_of(r[0].0, r[0].1).unwrap();
                    let side = if w.pairs[p].assets[0] == r[0].0 { 0 } else { 1 };
                    let res = w.reserves(o, p)[side];
                    for amt in [1, res / 7 + 1, res + 1] {
                        v.push(route(BOB, &r, amt, None, Some(CAROL)));
                    }
                }
            }
            v
        },
        None,
    );
    marathons(c, None);
    TRUST
}
