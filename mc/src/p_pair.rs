//! C01–C13, C31: the pair.
use crate::chain::*;
use crate::explore::*;
use crate::ops::*;
use crate::refmodel::*;
use crate::rep::*;
use crate::worlds::*;
use haloswap::asset::Asset;
use haloswap::pair::{QueryMsg as PQuery, SimulationResponse};

const TRUST: &[&str] = &[
    "cw-multi-test executes messages, sub-messages, replies and roll-back as a CosmWasm chain does; an abort of a contract counts as a refusal",
    "cosmwasm-std, cw20-base, cw-storage-plus and the Rust toolchain are trusted",
    "values outside the enumerated domains and histories longer than the bounds are not covered",
];

// ------------------------------------------------------------------ pools
/// seeded pools of a shape: exact reserves (x, y), optionally with an LP supply that no longer
/// matches them
fn pools(k: [K; 2], xs: &[u128], ys: &[u128]) -> Vec<Spec> {
    let mut v = vec![];
    for x in xs {
        for y in ys {
            v.push(one(&format!("pool {}x{}", x, y), k, vec![prov(OWNER, 0, [*x, *y])]));
        }
    }
    v
}
fn pos2(k: [K; 2]) -> [usize; 2] {
    [pos(&k, 0), pos(&k, 1)]
}
fn cw_sides(w: &World, pair: usize) -> Vec<usize> {
    (0..2)
        .filter(|s| !w.assets[w.pairs[pair].assets[*s]].native())
        .collect()
}
const TT: [K; 2] = [K::T(6), K::T(6)];
const TN: [K; 2] = [K::T(6), K::N(6)];
const NT: [K; 2] = [K::N(6), K::T(6)];
const NN: [K; 2] = [K::N(6), K::N(6)];

fn r(a: u128, b: u128) -> Vec<u128> {
    (a..=b).collect()
}

/// complete product of small pools and offers, and of boundary magnitudes with several decimals
fn swap_products(c: &Check, extra: Option<&Extra>) {
    let n = c.b(10, 26);
    let m = c.b(60, 200);
    c.bound(format!("every swap of 1..{} units in every pool of reserves 1..{} (x 1..{}), token/token, token/native and native/token, both directions", m, n, n));
    for k in [TT, TN, NT] {
        fan(
            c,
            &pools(k, &r(1, n), &r(1, n)),
            &|w, _| {
                let mut v = vec![];
                for s in cw_sides(w, 0) {
                    for o in 1..=m {
                        v.push(swap(ALICE, 0, s, o));
                    }
                }
                v
            },
            extra,
        );
    }
    let mags = magnitudes(c.thorough());
    c.bound(format!("every combination of {} boundary magnitudes (1 .. 2^126) for both reserves and the offer, {} combinations of decimals", mags.len(), 5));
    for k in [
        TT,
        [K::T(18), K::T(6)],
        [K::T(6), K::N(18)],
        [K::N(0), K::T(18)],
        [K::T(0), K::T(0)],
    ] {
        fan(
            c,
            &pools(k, &mags, &mags),
            &|w, _| {
                let mut v = vec![];
                for s in cw_sides(w, 0) {
                    for o in &mags {
                        v.push(swap(ALICE, 0, s, *o));
                    }
                    v.push(swap(ALICE, 0, s, 1 << 126));
                }
                v
            },
            extra,
        );
    }
}

pub fn delegated(owner: usize, op: Op) -> Op {
    Op::Delegated { owner, op: Box::new(op) }
}

/// the operations on one pair used in histories
pub fn history_ops(w: &World, o: &Obs, pair: usize, full: bool) -> Vec<Op> {
    let p = &w.pairs[pair];
    let rs = w.reserves(o, pair);
    let mut v = vec![];
    for s in cw_sides(w, pair) {
        for a in amounts_for(rs[s]) {
            v.push(swap(ALICE, pair, s, a));
        }
        if full {
            v.push(Op::Swap {
                u: BOB,
                pair,
                side: s,
                amt: 5,
                belief: None,
                max: None,
                to: Some(CAROL),
            });
        }
    }
    let t = w.lp_supply(o, pair);
    if t == 0 {
        v.push(prov(OWNER, pair, [7, 5]));
        v.push(prov(OWNER, pair, [100, 1_000]));
        v.push(prov(MAL, pair, [7, 5]));
    } else {
        v.push(prov(BOB, pair, [rs[0], rs[1]]));
        v.push(prov(BOB, pair, [rs[0] / 2 + 1, rs[1] / 3 + 1]));
        if full {
            v.push(prov_full(BOB, pair, [3, rs[1] * 2], true, None, Some(CAROL)));
        }
    }
    for u in [OWNER, BOB, CAROL] {
        let b = o.bal[p.lp][u];
        if b > 0 {
            v.push(wd(u, pair, b));
            if b > 1 {
                v.push(wd(u, pair, b / 2));
            }
            if full && b > 2 {
                v.push(wd(u, pair, 1));
            }
        }
    }
    v.push(donate(MAL, p.assets[0], pair, 2));
    if full {
        v.push(Op::Wait { blocks: 1 });
        v.push(Op::Wait { blocks: 10_000_000 });
        v.push(donate(MAL, p.assets[1], pair, rs[1] + 1));
        let b = o.bal[p.lp][OWNER];
        if b > 1 {
            v.push(give(OWNER, p.lp, CAROL, b / 2));
            v.push(give(OWNER, p.lp, PAIR0 + pair, 1));
            v.push(Op::LpBurn { u: OWNER, pair, amt: b / 3 + 1 });
            v.push(delegated(OWNER, wd(MAL, pair, b / 2 + 1)));
        }
        for s in cw_sides(w, pair) {
            v.push(delegated(ALICE, swap(MAL, pair, s, rs[s] / 4 + 1)));
        }
    }
    v
}

fn histories(c: &Check, extra: Option<&Extra>, dq: usize, dt: usize) {
    long_histories(c, extra, dq, dt);
    marathons(c, extra);
    company(c, extra);
}
/// one step of each kind, for periodic histories
pub fn strides(w: &World, o: &Obs) -> Vec<Option<Op>> {
    let p = &w.pairs[0];
    let rs = w.reserves(o, 0);
    let t = w.lp_supply(o, 0);
    let cw = cw_sides(w, 0);
    let holders: Vec<usize> = (0..5).filter(|u| o.bal[p.lp][*u] > 0).collect();
    let a = *cw.first().unwrap_or(&0);
    let b = *cw.last().unwrap_or(&0);
    let live = rs[0] > 0 && rs[1] > 0;
    let part = |u: usize, d: u128| {
        let x = o.bal[p.lp][u] / d;
        (x > 0).then(|| wd(u, 0, x))
    };
    vec![
        live.then(|| swap(ALICE, 0, a, rs[a] / 100 + 1)),
        live.then(|| swap(BOB, 0, b, rs[b] / 2 + 3)),
        (t > 0).then(|| prov_full(BOB, 0, [rs[0] / 10 + 1, rs[1] / 10 + 1], true, None, None)),
        part(BOB, 3).or_else(|| part(OWNER, 5)),
        // every holder redeems; then somebody without the right, too little, and a proper deposit
        (t > 0).then(|| Op::Seq(holders.iter().map(|u| wd(*u, 0, o.bal[p.lp][*u])).collect())),
        Some(if t == 0 {
            Op::Seq(vec![prov(MAL, 0, [1_000_000, 700_000]), prov(OWNER, 0, [5_000, 4_000]), prov(OWNER, 0, [1_000_000, 700_000])])
        } else {
            prov_full(CAROL, 0, [rs[0].min(1 << 90), rs[1].min(1 << 90)], false, Some(E18 / 2), Some(MAL))
        }),
        Some(Op::Wait { blocks: 1 }),
        live.then(|| Op::Swap {
            u: MAL,
            pair: 0,
            side: a,
            amt: rs[a] / 7 + 1,
            belief: None,
            max: Some(0),
            to: None,
        }),
        Some(Op::Wait { blocks: 1_000_000 }),
        Some(donate(MAL, p.assets[1], 0, 1_000)),
        live.then(|| Op::Route {
            u: CAROL,
            offer: p.assets[a],
            hops: vec![(p.assets[a], p.assets[1 - a])],
            amt: rs[a] / 50 + 1,
            min: Some(1),
            to: Some(BOB),
        }),
        Some(give(OWNER, p.lp, CAROL, 1)),
        live.then(|| swap(ALICE, 0, a, rs[a].saturating_mul(2).min(1 << 100))),
        live.then(|| delegated(ALICE, swap(MAL, 0, b, rs[b] / 9 + 1))),
        (o.bal[p.lp][OWNER] > 5).then(|| delegated(OWNER, wd(MAL, 0, o.bal[p.lp][OWNER] / 4))),
        (o.bal[p.lp][OWNER] > 5).then(|| Op::LpBurn {
            u: OWNER,
            pair: 0,
            amt: o.bal[p.lp][OWNER] / 5,
        }),
    ]
}
pub fn marathons(c: &Check, extra: Option<&Extra>) {
    let (period, len) = c.b((3, 30), (3, 150));
    for k in [TT, [K::N(6), K::T(18)], [K::T(8), K::N(0)]] {
        let mut s = one("periodic histories", k, vec![prov(OWNER, 0, [1_000_000, 700_000])]);
        s.pairs[0].mins = [6_000, 10];
        marathon(c, &s, period, c.b(6, 9), len, &strides, extra);
    }
}
/// one step of each kind around several pairs, for periodic histories
fn wide_strides(w: &World, o: &Obs) -> Vec<Option<Op>> {
    let (p, q) = (0, 1);
    let lp = |p: usize| w.pairs[p].lp;
    let has = |a: usize, u: usize| o.bal[a][u];
    let rs = |p: usize| w.reserves(o, p);
    let sw = |p: usize, u: usize, d: u128| {
        let s = *cw_sides(w, p).first()?;
        (rs(p)[0] > 0 && rs(p)[1] > 0).then(|| swap(u, p, s, rs(p)[s] / d + 1))
    };
    let exit = |p: usize| {
        let hs: Vec<usize> = (0..5).filter(|u| has(lp(p), *u) > 0).collect();
        (!hs.is_empty()).then(|| Op::Seq(hs.iter().map(|u| wd(*u, p, has(lp(p), *u))).collect()))
    };
    let seed = |p: usize| {
        if w.lp_supply(o, p) == 0 {
            Op::Seq(vec![prov(MAL, p, [20, 30]), prov(OWNER, p, [2_000, 3_000])])
        } else {
            prov(CAROL, p, [rs(p)[0] / 4 + 1, rs(p)[1] / 4 + 1])
        }
    };
    let stray = |asset: usize, pair: usize, swap: bool| {
        let u = (0..5).find(|u| has(asset, *u) > 1)?;
        Some(Op::SendHook { u, asset, pair, amt: 2, swap })
    };
    vec![
        sw(p, ALICE, 9),
        sw(q, BOB, 4),
        Some(seed(p)),
        exit(p),
        stray(lp(p), q, false),
        Some(seed(q)),
        (has(lp(p), OWNER) > 3).then(|| give(OWNER, lp(p), MAL, has(lp(p), OWNER) / 3)),
        exit(q),
        stray(lp(q), p, true),
        (has(lp(q), OWNER) > 3).then(|| donate(OWNER, lp(q), p, 2)),
        (has(lp(p), OWNER) > 3).then(|| wd(OWNER, p, has(lp(p), OWNER) / 3)),
        Some(Op::Wait { blocks: 1_000 }),
        Some(donate(MAL, w.pairs[p].assets[0], q, 7)),
        (has(lp(q), OWNER) > 3).then(|| delegated(OWNER, wd(ALICE, q, 2))),
    ]
}
pub fn wide_marathons(c: &Check) {
    for s in [shared("periodic histories of several pairs", true), required("periodic histories of several pairs", true)] {
        marathon(c, &s, 3, c.b(4, 8), c.b(24, 100), &wide_strides, None);
    }
}
fn long_histories(c: &Check, extra: Option<&Extra>, dq: usize, dt: usize) {
    let depth = c.b(dq, dt);
    let cap = c.b(60_000, 1_500_000);
    let seeds: Vec<[u128; 2]> = if c.thorough() {
        vec![[10, 7], [1_000, 3], [E18 + 1, 999_999_937]]
    } else {
        vec![[10, 7], [E18 + 1, 999_999_937]]
    };
    for k in [TT, [K::N(6), K::T(18)]] {
        for s in &seeds {
            bfs(
                c,
                &one("history", k, vec![prov(OWNER, 0, *s)]),
                depth,
                cap,
                &|w, o, l| history_ops(w, o, 0, l < 2 || c.thorough()),
                extra,
            );
        }
    }
}

/// Pairs in company: denoms that are prefixes of each other or spelled like a token's address, a second pair
/// sharing an asset, and a first pair that also holds its own LP, the other pair's LP and foreign assets.
pub fn crowded(same_text: bool, k: [K; 2], full: bool) -> Spec {
    let nn = k.iter().filter(|x| matches!(x, K::N(_))).count();
    let nt = 2 - nn;
    let mut ks = vec![k[0], k[1], K::T(6)];
    ks.extend(vec![K::N(6); 5 - nn]);
    let mut s = multi("in company", &ks, &[[0, 1], [0, 2]], vec![]);
    // the first token of a world is contract3
    let mut names: Vec<&str> = ["uatom", "uatomx"][..nn].to_vec();
    if same_text {
        names[0] = "contract3";
        names.push("uatom");
    }
    for n in ["uato", "uatomxy", "contract3", "UATOM", "contract33"] {
        if names.len() < s.natives.len() && !names.contains(&n) {
            names.push(n);
        }
    }
    for (i, n) in names.iter().enumerate() {
        s.natives[i].0 = n.to_string();
    }
    s.name = format!("in company {:?}{}", k, if same_text { ", one text" } else { "" });
    s.pairs[1].whitelist = vec![OWNER, BOB];
    s.seeds = vec![prov(OWNER, 0, [1_000, 400]), prov(BOB, 1, [500, 800])];
    let own: Vec<usize> = vec![pos(&ks, 0), pos(&ks, 1)];
    if full {
        for a in 0..s.tokens.len() + s.natives.len() {
            if !own.contains(&a) {
                s.seeds.push(donate(MAL, a, 0, 5 + a as u128));
            }
        }
        let lp0 = s.tokens.len() + s.natives.len();
        s.seeds.push(donate(OWNER, lp0, 0, 100));
        s.seeds.push(donate(BOB, lp0 + 1, 0, 30));
        s.seeds.push(donate(OWNER, lp0, 1, 20));
        s.seeds.push(give(OWNER, lp0, MAL, 50));
        s.seeds.push(give(OWNER, lp0, ROUT, 5));
        s.seeds.push(donate(MAL, own[0], 1, 3));
    }
    let _ = nt;
    s
}
pub fn companies() -> Vec<Spec> {
    let mut v = vec![];
    for full in [true, false] {
        for k in [TT, TN, NT, NN] {
            v.push(crowded(false, k, full));
        }
    }
    v.push(crowded(true, TN, true));
    v.push(crowded(true, NT, true));
    // denoms of the other forms and of the greatest length, which share their beginning or end
    let ibc = "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2";
    let names = [
        ibc.to_string(),
        format!("{}3", &ibc[..67]),
        ibc.to_lowercase(),
        format!("factory/aura1{}/sub", "q".repeat(110)),
        format!("factory/aura1{}/sub", "q".repeat(111)),
        "UATOM/pool:1.5-x_y".to_string(),
    ];
    for (k, from) in [(TN, 0), (NN, 3)] {
        let mut s = crowded(false, k, true);
        for (i, n) in s.natives.iter_mut().enumerate() {
            n.0 = names[(from + i) % 6].clone();
        }
        s.name += ", long denoms";
        v.push(s);
    }
    v
}
fn company(c: &Check, extra: Option<&Extra>) {
    for s in companies() {
        bfs(
            c,
            &s,
            c.b(2, 3),
            c.b(5_000, 30_000),
            &|w, o, l| {
                let mut v = history_ops(w, o, 0, l == 0 || c.thorough());
                if l == 0 {
                    v.extend(history_ops(w, o, 1, false));
                }
                v
            },
            extra,
        );
    }
}

// ------------------------------------------------------------------ C01, C02
pub fn c01(c: &Check) -> &'static [&'static str] {
    swap_products(c, None);
    histories(c, None, 4, 5);
    TRUST
}
pub fn c02(c: &Check) -> &'static [&'static str] {
    swap_products(c, None);
    // recipients
    let recips = |w: &World, _: &Obs| {
        let mut v = vec![];
        for s in cw_sides(w, 0) {
            for u in [ALICE, OWNER] {
                for to in [None, Some(ALICE), Some(OWNER), Some(CAROL), Some(FACT), Some(ROUT), Some(RECO)] {
                    for a in [1, 10, 333, 5_000] {
                        v.push(Op::Swap {
                            u,
                            pair: 0,
                            side: s,
                            amt: a,
                            belief: None,
                            max: None,
                            to,
                        });
                        // a belief price without a maximum spread is no limit
                        v.push(Op::Swap {
                            u,
                            pair: 0,
                            side: s,
                            amt: a,
                            belief: Some(E18 / 1_000),
                            max: None,
                            to,
                        });
                    }
                }
            }
        }
        v
    };
    for k in [TT, TN, NT, [K::T(18), K::T(0)]] {
        fan(c, &pools(k, &[1_000, 77], &[1_000, 90_001]), &recips, None);
    }
    c.bound("recipients: users, system contracts, tokens, LP tokens, accounts with similar names, and texts that are no address");
    for k in [TT, TN, NT] {
        fan(
            c,
            &[peopled(one("recipients", k, vec![prov(OWNER, 0, [1_000, 90_001])])), peopled(crowded(false, k, true))],
            &|w, _| {
                let mut v = vec![];
                for side in cw_sides(w, 0) {
                    for u in [ALICE, MAL] {
                        for to in w.others().chain(w.odds()).chain([PAIR0 + w.pairs.len() - 1]) {
                            for (belief, max) in [(None, None), (Some(E18 / 1_000_000), None), (None, Some(E18 / 2))] {
                                for amt in [10, 333] {
                                    v.push(Op::Swap { u, pair: 0, side, amt, belief, max, to: Some(to) });
                                }
                            }
                        }
                    }
                }
                v
            },
            None,
        );
    }
    histories(c, None, 4, 5);
    TRUST
}

// ------------------------------------------------------------------ C03
fn judge_sim(w: &World, app: &mut Chain, o: &Obs, amts: &[u128], out: &mut Vec<Disc>) -> u64 {
    let mut n = 0;
    let before = snap(app);
    for pair in 0..w.pairs.len() {
        let rs = w.reserves(o, pair);
        for side in 0..2 {
            for a in amts {
                n += 1;
                let q = w.sim(app, pair, w.pairs[pair].assets[side], *a);
                let s = swap_ref(rs[side], rs[1 - side], *a);
                match (q, s) {
                    (Ok(q), Some(s)) => {
                        if (q.return_amount.u128(), q.commission_amount.u128()) != (s.ret, s.comm)
                            || s.spread.map_or(false, |x| x != q.spread_amount.u128())
                        {
                            out.push((
                                vec!["C03"],
                                format!("simulation of {} (side {}) against {:?}: {:?}, exact {:?}", a, side, rs, q, s),
                            ));
                        }
                    }
                    (Err(e), Some(s)) => {
                        // refused although everything fits
                        if s.spread.is_some() && rs[1 - side] > 0 && *a > 0 {
                            out.push((
                                vec!["C03"],
                                format!("simulation of {} (side {}) against {:?} failed: {}", a, side, rs, e),
                            ));
                        }
                    }
                    _ => (),
                }
            }
        }
        // assets that are not in the pair
        for (i, _) in w.assets.iter().enumerate() {
            if w.pairs[pair].assets.contains(&i) {
                continue;
            }
            n += 1;
            if let Ok(q) = w.sim(app, pair, i, 5) {
                out.push((
                    vec!["C03"],
                    format!("simulation of the foreign asset {} was answered {:?}", w.assets[i].id(), q),
                ));
            }
        }
        // a denom with the text of a token address, and the other way round
        for s in 0..2 {
            let a = &w.assets[w.pairs[pair].assets[s]];
            let other = &w.assets[w.pairs[pair].assets[1 - s]];
            if a.id() == other.id() {
                continue; // the namesake is the pair's own other asset
            }
            let info = if a.native() { tok(a.id()) } else { nat(a.id()) };
            n += 1;
            let q: Result<SimulationResponse, String> = query(
                app,
                &w.pairs[pair].addr,
                &PQuery::Simulation {
                    offer_asset: Asset {
                        info,
                        amount: 5u128.into(),
                    },
                },
            );
            if q.is_ok() {
                out.push((vec!["C03"], format!("simulation of a namesake of {} was answered", a.id())));
            }
        }
    }
    if *snap(app) != *before {
        out.push((vec!["C03"], "a simulation changed the state".into()));
    }
    n
}
pub fn c03(c: &Check) -> &'static [&'static str] {
    let mags = magnitudes(c.thorough());
    let ms = mags.clone();
    let ex = move |w: &World, app: &mut Chain, o: &Obs, out: &mut Vec<Disc>| judge_sim(w, app, o, &ms, out);
    swap_products(c, Some(&ex));
    let ex2 = |w: &World, app: &mut Chain, o: &Obs, out: &mut Vec<Disc>| {
        judge_sim(w, app, o, &[1, 2, 9, 10, 333, 1_000, 70_001], out)
    };
    histories(c, Some(&ex2), 3, 4);
    // pools of two native denoms can only be simulated; foreign denoms registered besides
    let n = c.b(12, 25);
    let mut specs = vec![];
    for x in 1..=n {
        for y in 1..=n {
            specs.push(multi(
                &format!("native pool {}x{}", x, y),
                &[K::N(6), K::N(8), K::N(3), K::T(6)],
                &[[0, 1]],
                vec![prov(OWNER, 0, [x, y])],
            ));
        }
    }
    let dense: Vec<u128> = (0..=40).collect();
    let ex3 = |w: &World, app: &mut Chain, o: &Obs, out: &mut Vec<Disc>| judge_sim(w, app, o, &dense, out);
    fan(c, &specs, &|_, _| vec![], Some(&ex3));
    TRUST
}

// ------------------------------------------------------------------ C04
fn judge_rsim(w: &World, app: &mut Chain, o: &Obs, amts: &[u128], exec_too: bool, out: &mut Vec<Disc>) -> u64 {
    let mut n = 0;
    let base = snap(app);
    for pair in 0..w.pairs.len() {
        let rs = w.reserves(o, pair);
        for side in 0..2 {
            // `side` is the wanted asset
            let (x, y) = (rs[1 - side], rs[side]);
            for a in amts {
                n += 1;
                let q = w.rsim(app, pair, w.pairs[pair].assets[side], *a);
                let g = gross_for(*a);
                // the largest intermediate amount: q y / x, about y^2 / (y - G)
                let wide = fl(w_(y) * w_(y), if w_(y) > w_(g.g_hi) { w_(y) - w_(g.g_hi) } else { w_(1) });
                let quot = fl(w_(x) * w_(y), if w_(y) > w_(g.g_hi) { w_(y) - w_(g.g_hi) } else { w_(1) });
                match q {
                    Ok(q) => {
                        let (off, com) = (q.offer_amount.u128(), q.commission_amount.u128());
                        if g.g_lo >= y {
                            out.push((
                                vec!["C04"],
                                format!("reverse simulation of {} against {:?} (side {}) was answered {:?}", a, rs, side, q),
                            ));
                            continue;
                        }
                        let lo = quote_for(x, y, g.g_lo);
                        let hi = if g.g_hi < y {
                            quote_for(x, y, g.g_hi)
                        } else {
                            W::max_value()
                        };
                        let c_lo = fl(w_(g.g_lo) * w_(3), w_(1000));
                        let c_hi = fl(w_(g.g_hi) * w_(3), w_(1000));
                        let mut bad = w_(off) < lo || w_(off) > hi || w_(com) < c_lo || w_(com) > c_hi;
                        if !bad && g.g_hi - g.g_lo <= 16 {
                            // offer and commission belong to the same G
                            bad = !(g.g_lo..=g.g_hi).any(|k| {
                                k < y && quote_for(x, y, k) == w_(off) && fl(w_(k) * w_(3), w_(1000)) == w_(com)
                            });
                        }
                        if bad {
                            out.push((
                                vec!["C04"],
                                format!(
                                    "reverse simulation of {} against {:?} (side {}): {:?}, exact offer {}..{} commission {}..{}",
                                    a, rs, side, q, lo, hi, c_lo, c_hi
                                ),
                            ));
                            continue;
                        }
                        // what the quote buys
                        let slack = a / E18;
                        let oa = w.pairs[pair].assets[1 - side];
                        if let Some(o1) = off.checked_add(1) {
                            if let Ok(s) = w.sim(app, pair, oa, o1) {
                                n += 1;
                                if s.return_amount.u128().saturating_add(3 + slack) < *a {
                                    out.push((
                                        vec!["C04"],
                                        format!("{} + 1 quoted for {} of side {} in {:?} buys {}", off, a, side, rs, s.return_amount),
                                    ));
                                }
                            }
                        }
                        if off > 0 {
                            if let Ok(s) = w.sim(app, pair, oa, off) {
                                n += 1;
                                if s.return_amount.u128() > a + 1 {
                                    out.push((
                                        vec!["C04"],
                                        format!("{} quoted for {} of side {} in {:?} buys {}", off, a, side, rs, s.return_amount),
                                    ));
                                }
                            }
                        }
                        // and the same by executing the swap
                        if exec_too && !w.assets[oa].native() {
                            for (d, amt) in [(0u128, off), (1, off.saturating_add(1))] {
                                if amt == 0 || amt > o.bal[oa][ALICE] {
                                    continue;
                                }
                                n += 1;
                                let r = w.run(app, &swap(ALICE, pair, 1 - side, amt));
                                if r.ok() {
                                    if let Ok(p) = w.observe(app) {
                                        let asset = w.pairs[pair].assets[side];
                                        let got = p.bal[asset][ALICE] - o.bal[asset][ALICE];
                                        if (d == 1 && got.saturating_add(3 + slack) < *a) || (d == 0 && got > a + 1) {
                                            out.push((
                                                vec!["C04"],
                                                format!("{} + {} quoted for {} of side {} in {:?} bought {}", off, d, a, side, rs, got),
                                            ));
                                        }
                                    }
                                }
                                restore(app, &base);
                            }
                        }
                    }
                    Err(e) => {
                        if g.g_hi < y && *a > 0 && x > 0 && wide.bits() <= 126 && quot.bits() <= 126 {
                            out.push((
                                vec!["C04"],
                                format!("reverse simulation of {} against {:?} (side {}) failed: {}", a, rs, side, e),
                            ));
                        }
                    }
                }
            }
        }
        for (i, _) in w.assets.iter().enumerate() {
            if !w.pairs[pair].assets.contains(&i) {
                n += 1;
                if w.rsim(app, pair, i, 1).is_ok() {
                    out.push((
                        vec!["C04"],
                        format!("reverse simulation of the foreign asset {} was answered", w.assets[i].id()),
                    ));
                }
            }
        }
    }
    n
}
fn w_(x: u128) -> W {
    w(x)
}
pub fn c04(c: &Check) -> &'static [&'static str] {
    let n = c.b(14, 40);
    c.bound(format!("every wanted amount 1..{} from every pool of reserves 1..{}", n + 3, n));
    let am = r(0, n + 3);
    let ex = |w: &World, app: &mut Chain, o: &Obs, out: &mut Vec<Disc>| judge_rsim(w, app, o, &am, true, out);
    for k in [TT, NT] {
        fan(c, &pools(k, &r(1, n), &r(1, n)), &|_, _| vec![], Some(&ex));
    }
    // all residues of the commission factor
    let m = c.b(2_200, 12_000);
    c.bound(format!("every wanted amount 1..{} from three larger pools", m));
    let dense = r(1, m);
    let ex = |w: &World, app: &mut Chain, o: &Obs, out: &mut Vec<Disc>| judge_rsim(w, app, o, &dense, false, out);
    fan(
        c,
        &[
            pools(TT, &[30_000], &[20_000]),
            pools([K::T(6), K::N(18)], &[1_000_003], &[2_001]),
            pools(NN, &[10_000_000_000], &[30_000_000_000]),
        ]
        .concat(),
        &|_, _| vec![],
        Some(&ex),
    );
    let mags = magnitudes(c.thorough());
    let mut wanted = vec![];
    for m in &mags {
        for k in [m.saturating_sub(1), *m, m + 1, m / 2, m / 1000 * 997, m / 1000 * 997 + 1] {
            if k > 0 {
                wanted.push(k);
            }
        }
    }
    wanted.sort();
    wanted.dedup();
    c.bound(format!("{} boundary wanted amounts in {} x {} boundary pools", wanted.len(), mags.len(), mags.len()));
    let ex = |w: &World, app: &mut Chain, o: &Obs, out: &mut Vec<Disc>| judge_rsim(w, app, o, &wanted, false, out);
    for k in [TT, [K::N(18), K::T(6)]] {
        fan(c, &pools(k, &mags, &mags), &|_, _| vec![], Some(&ex));
    }
    let h: Vec<u128> = vec![1, 2, 3, 10, 997, 1_000, 12_345];
    let ex = |w: &World, app: &mut Chain, o: &Obs, out: &mut Vec<Disc>| judge_rsim(w, app, o, &h, true, out);
    histories(c, Some(&ex), 3, 4);
    TRUST
}

// ------------------------------------------------------------------ C05
fn limits_for(w: &World, o: &Obs, pair: usize, side: usize, amt: u128, out: &mut Vec<Op>, dense: bool) {
    let rs = w.reserves(o, pair);
    let p = &w.pairs[pair];
    let Some(s) = swap_ref(rs[side], rs[1 - side], amt) else { return };
    let (od, ad) = (w.assets[p.assets[side]].decimals, w.assets[p.assets[1 - side]].decimals);
    let f = pow10((if od > ad { od - ad } else { ad - od }) as u32);
    let (mut on, mut rn, mut sn) = (w_(amt), w_(s.ret), w_(s.spread.unwrap_or(0)));
    if od > ad {
        rn = rn * f;
        sn = sn * f;
    } else {
        on = on * f;
    }
    let mut beliefs: Vec<u128> = vec![1, E18 / 3, E18 - 1, E18, E18 + 1, 2 * E18, 1_000_000 * E18];
    if !rn.is_zero() {
        if let Some(b) = to128(fl(on * w_(E18), rn)) {
            beliefs.extend([b.saturating_sub(1), b, b + 1, b / 2, b - b / 10, b - b / 200]);
        }
    }
    beliefs.sort();
    beliefs.dedup();
    let mk = |b: Option<u128>, m: Option<u128>| Op::Swap {
        u: ALICE,
        pair,
        side,
        amt,
        belief: b,
        max: m,
        to: None,
    };
    let around = |m: u128| {
        let mut v = vec![0, E18 / 200, E18 - 1, E18, E18 + 1];
        v.extend([m.saturating_sub(1), m, m + 1]);
        if dense {
            v.extend([m.saturating_sub(2), m / 2, m.saturating_mul(2), E18 / 2, 2 * E18]);
        }
        v.sort();
        v.dedup();
        v
    };
    for b in beliefs {
        if b == 0 {
            continue;
        }
        out.push(mk(Some(b), None));
        let exp = fl(on * w_(E18), w_(b));
        let m = if exp > rn && exp.bits() < 190 {
            to128(fl((exp - rn) * w_(E18), exp)).unwrap_or(0)
        } else {
            0
        };
        for x in around(m) {
            out.push(mk(Some(b), Some(x)));
        }
    }
    let m = if (rn + sn).is_zero() {
        0
    } else {
        to128(fl(sn * w_(E18), rn + sn)).unwrap_or(0)
    };
    for x in around(m) {
        out.push(mk(None, Some(x)));
    }
    out.push(mk(None, None));
}
pub fn c05(c: &Check) -> &'static [&'static str] {
    let pq: Vec<[u128; 2]> = vec![
        [3, 5],
        [10, 10],
        [97, 1_000],
        [30_000_000_000, 20_000_000_000],
        [E18, 3_000_001],
        [1_000_000 * E18, 777 * E18 + 1],
    ];
    let mut decs = vec![(6, 6), (18, 6), (6, 18), (0, 8), (8, 0), (7, 6), (18, 18), (18, 0), (3, 18)];
    if c.thorough() {
        for a in 0..=18u8 {
            for b in [0, 1, 5, 6, 12, 17, 18] {
                if !decs.contains(&(a, b)) {
                    decs.push((a, b));
                }
            }
        }
    }
    c.bound(format!("belief prices and maximum spreads at, just below and just above every decision threshold, for {} pools, {} combinations of decimals, 7 offers", pq.len(), decs.len()));
    let dense = c.thorough();
    for (a, b) in &decs {
        for nat_side in 0..3 {
            let k = match nat_side {
                0 => [K::T(*a), K::T(*b)],
                1 => [K::N(*a), K::T(*b)],
                _ => [K::T(*a), K::N(*b)],
            };
            if nat_side > 0 && !c.thorough() && a + b != 24 && a + b != 8 {
                continue;
            }
            let specs: Vec<Spec> = pq
                .iter()
                .map(|p| one(&format!("pool {:?}", p), k, vec![prov(OWNER, 0, *p)]))
                .collect();
            fan(
                c,
                &specs,
                &|w, o| {
                    let rs = w.reserves(o, 0);
                    let mut v = vec![];
                    for s in cw_sides(w, 0) {
                        let x = rs[s];
                        for amt in [1, 2, x / 100 + 1, x / 3 + 1, x, x * 3 + 1, x.saturating_mul(1_000)] {
                            limits_for(w, o, 0, s, amt, &mut v, dense);
                        }
                    }
                    v
                },
                None,
            );
        }
    }
    // dense small domain
    let n = c.b(6, 12);
    c.bound(format!("the same for every pool of reserves 1..{} and every offer 1..{}", n, n + 4));
    for k in [TT, [K::T(1), K::T(0)]] {
        fan(
            c,
            &pools(k, &r(1, n), &r(1, n)),
            &|w, o| {
                let mut v = vec![];
                for s in 0..2 {
                    for amt in 1..=n + 4 {
                        limits_for(w, o, 0, s, amt, &mut v, false);
                    }
                }
                v
            },
            None,
        );
    }
    // after histories
    let d = c.b(2, 3);
    for k in [TT, [K::T(18), K::N(6)]] {
        bfs(
            c,
            &one("history", k, vec![prov(OWNER, 0, [1_000, 3_000])]),
            d,
            c.b(30_000, 400_000),
            &|w, o, l| {
                let mut v = history_ops(w, o, 0, true);
                if l + 1 == d {
                    v.clear();
                    for s in cw_sides(w, 0) {
                        limits_for(w, o, 0, s, 100, &mut v, false);
                    }
                }
                v
            },
            None,
        );
    }
    fan(
        c,
        &companies(),
        &|w, o| {
            let mut v = vec![];
            for p in 0..w.pairs.len() {
                for s in cw_sides(w, p) {
                    for amt in [7, 100] {
                        limits_for(w, o, p, s, amt, &mut v, false);
                    }
                }
            }
            v
        },
        None,
    );
    marathons(c, None);
    TRUST
}

// ------------------------------------------------------------------ C06
fn tolerances(d: [u128; 2], p: [u128; 2]) -> Vec<Option<u128>> {
    let mut v = vec![None, Some(0), Some(1), Some(E18 / 100), Some(E18 - 1), Some(E18), Some(E18 + 1), Some(3 * E18)];
    if d[0] > 0 && d[1] > 0 && p[0] > 0 && p[1] > 0 {
        for i in 0..2 {
            let j = 1 - i;
            let dr = fl(w_(d[i]) * w_(E18), w_(d[j]));
            let pr = fl(w_(p[i]) * w_(E18), w_(p[j]));
            if dr.is_zero() {
                continue;
            }
            // smallest s with floor(dr (1 - s)) <= pr
            let keep = fl((pr + w_(1)) * w_(E18) - w_(1), dr);
            if keep < w_(E18) {
                let s = E18 - keep.low_u128();
                v.extend([Some(s.saturating_sub(1)), Some(s), Some(s + 1), Some(s / 2)]);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
pub fn c06(c: &Check) -> &'static [&'static str] {
    let n = c.b(5, 8);
    let m = c.b(6, 10);
    c.bound(format!("every pool of reserves 1..{}, every deposit 1..{} of both assets, tolerances at, below and above every decision threshold, both listing orders", n, m));
    for k in [TT, NT] {
        fan(
            c,
            &pools(k, &r(1, n), &r(1, n)),
            &|w, o| {
                let p = w.reserves(o, 0);
                let mut v = vec![];
                for a in 1..=m {
                    for b in 1..=m {
                        for t in tolerances([a, b], p) {
                            v.push(prov_full(BOB, 0, [a, b], (a + b) % 2 == 0, t, None));
                        }
                    }
                }
                v
            },
            None,
        );
    }
    let mags: Vec<u128> = magnitudes(c.thorough()).into_iter().filter(|x| *x <= 1 << 121).collect();
    let ds: Vec<u128> = vec![1, 3, 1_000_003, E18, 5 * E18 + 3, 1 << 100];
    c.bound(format!("boundary magnitudes: {}^2 pools x {}^2 deposits", mags.len(), ds.len()));
    for k in [TN, [K::N(18), K::N(6)], [K::T(18), K::T(0)]] {
        fan(
            c,
            &pools(k, &mags, &mags),
            &|w, o| {
                let p = w.reserves(o, 0);
                let mut v = vec![];
                for a in &ds {
                    for b in &ds {
                        for (i, t) in tolerances([*a, *b], p).into_iter().enumerate() {
                            if c.thorough() || i % 2 == 0 || t.map_or(false, |x| x > 1 && x < E18 - 1) {
                                v.push(prov_full(BOB, 0, [*a, *b], i % 3 == 0, t, None));
                            }
                        }
                    }
                }
                v
            },
            None,
        );
    }
    // the ratio that counts is that of the reserves before the deposit, after any history
    let d = c.b(2, 3);
    for k in [TT, NN] {
        bfs(
            c,
            &one("history", k, vec![prov(OWNER, 0, [1_000, 3_000])]),
            d,
            c.b(30_000, 400_000),
            &|w, o, l| {
                let mut v = history_ops(w, o, 0, true);
                if l + 1 == d {
                    v.clear();
                    let p = w.reserves(o, 0);
                    for dep in [[100, 300], [300, 100], [p[0], p[1]], [p[1], p[0]], [p[0] + 1, p[1]]] {
                        for t in tolerances(dep, p) {
                            v.push(prov_full(BOB, 0, dep, true, t, None));
                            v.push(prov_full(BOB, 0, dep, false, t, Some(CAROL)));
                        }
                    }
                }
                v
            },
            None,
        );
    }
    fan(
        c,
        &companies(),
        &|w, o| {
            let mut v = vec![];
            for q in 0..w.pairs.len() {
                let p = w.reserves(o, q);
                for dep in [[100, 300], [300, 100], [p[0] + 1, p[1]], [p[0], p[1] + 1]] {
                    for t in tolerances(dep, p) {
                        v.push(prov_full(BOB, q, dep, true, t, None));
                        v.push(prov_full(BOB, q, dep, false, t, Some(CAROL)));
                    }
                }
            }
            v
        },
        None,
    );
    marathons(c, None);
    TRUST
}

// ------------------------------------------------------------------ C07
/// pools whose supply is not the square root of the reserves' product: seeded, then changed
fn skewed(k: [K; 2], thorough: bool) -> Vec<Spec> {
    let mut v = vec![];
    let a = pos2(k);
    let bases: Vec<[u128; 2]> = if thorough {
        vec![[1, 1], [2, 3], [7, 5], [10, 40], [1_000, 999], [E18, 1_000_000], [1 << 64, 1 << 70], [3, 1 << 90]]
    } else {
        vec![[2, 3], [7, 5], [1_000, 999], [E18, 1_000_000], [1 << 64, 1 << 70]]
    };
    for b in bases {
        for dn in [[0, 0], [1, 0], [0, 1], [b[0] * 2 + 1, 0], [0, b[1] * 5 + 3], [b[0] + 1, b[1] + 2]] {
            for out in [0, 1] {
                let mut s = vec![prov(OWNER, 0, b)];
                for i in 0..2 {
                    if dn[i] > 0 {
                        s.push(donate(MAL, a[i], 0, dn[i]));
                    }
                }
                if out == 1 {
                    let t = isqrt(w_(b[0]) * w_(b[1])).low_u128();
                    if t < 4 {
                        continue;
                    }
                    s.push(wd(OWNER, 0, t / 3));
                }
                v.push(one(&format!("pool {:?} donated {:?} redeemed {}", b, dn, out), k, s));
            }
        }
    }
    v
}
pub fn c07(c: &Check) -> &'static [&'static str] {
    // first provision
    let n = c.b(40, 120);
    c.bound(format!("every first provision of 0..{} units of both assets", n));
    for k in [TT, NT] {
        fan(
            c,
            &[one("empty", k, vec![])],
            &|_, _| {
                let mut v = vec![];
                for a in 0..=n {
                    for b in 0..=n {
                        v.push(prov_full(OWNER, 0, [a, b], (a * 7 + b) % 2 == 0, None, None));
                    }
                }
                v
            },
            None,
        );
    }
    let mags = magnitudes(true);
    c.bound(format!("first provisions of {}^2 boundary magnitudes, also beside a perfect square", mags.len()));
    for k in [TT, [K::T(18), K::N(0)], NN] {
        fan(
            c,
            &[one("empty", k, vec![])],
            &|_, _| {
                let mut v = vec![];
                for a in &mags {
                    for b in &mags {
                        v.push(prov(OWNER, 0, [*a, *b]));
                    }
                    for d in [0u128, 1, 2] {
                        v.push(prov_full(OWNER, 0, [*a, a + d], true, None, Some(BOB)));
                        if *a > d {
                            v.push(prov_full(OWNER, 0, [*a - d, *a], false, None, Some(BOB)));
                        }
                    }
                }
                v
            },
            None,
        );
    }
    // later provisions
    let n = c.b(4, 7);
    let m = c.b(9, 16);
    c.bound(format!("every later provision of 0..{} units into every pool of reserves 1..{}", m, n));
    for k in [TT, TN] {
        fan(
            c,
            &pools(k, &r(1, n), &r(1, n)),
            &|_, _| {
                let mut v = vec![];
                for a in 0..=m {
                    for b in 0..=m {
                        v.push(prov_full(BOB, 0, [a, b], false, None, None));
                        v.push(prov_full(BOB, 0, [a, b], true, None, None));
                    }
                }
                v
            },
            None,
        );
    }
    c.bound("provisions around every rounding threshold into pools with donations and partial redemptions");
    for k in [TT, NT, [K::T(18), K::T(6)]] {
        fan(
            c,
            &skewed(k, c.thorough()),
            &|w, o| {
                let p = w.reserves(o, 0);
                let t = w.lp_supply(o, 0);
                let mut v = vec![];
                // amounts that buy exactly s units of LP on each side, and one less
                let mut side: [Vec<u128>; 2] = [vec![], vec![]];
                for i in 0..2 {
                    for s in [1u128, 2, 3, t / 2 + 1, t, t + 1, t.saturating_mul(10)] {
                        let x = (w_(s) * w_(p[i]) + w_(t) - w_(1)) / w_(t);
                        if let Some(x) = to128(x) {
                            if x < 1 << 122 {
                                side[i].extend([x.saturating_sub(1), x, x + 1]);
                            }
                        }
                    }
                    side[i].push(p[i]);
                    side[i].sort();
                    side[i].dedup();
                }
                for (i, a) in side[0].iter().enumerate() {
                    for (j, b) in side[1].iter().enumerate() {
                        v.push(prov_full(BOB, 0, [*a, *b], (i + j) % 2 == 0, None, if i % 2 == 0 { None } else { Some(CAROL) }));
                    }
                }
                v
            },
            None,
        );
    }
    fan(
        c,
        &pools(TT, &magnitudes(false), &magnitudes(false)),
        &|_, _| {
            let mut v = vec![];
            for a in magnitudes(false) {
                for b in magnitudes(false) {
                    v.push(prov(BOB, 0, [a, b]));
                }
            }
            v
        },
        None,
    );
    histories(c, None, 3, 4);
    marathons(c, None);
    TRUST
}

// ------------------------------------------------------------------ C08
pub fn c08(c: &Check) -> &'static [&'static str] {
    let n = c.b(12, 24);
    c.bound(format!("every redemption of every amount of LP (0 .. supply + 1) from every pool seeded with 1..{} units, pools with donations, boundary pools", n));
    for k in [TT, TN] {
        fan(
            c,
            &pools(k, &r(1, n), &r(1, n)),
            &|w, o| {
                let t = w.lp_supply(o, 0);
                (0..=t + 1).map(|a| wd(OWNER, 0, a)).collect()
            },
            None,
        );
    }
    for k in [TT, NT, NN] {
        fan(
            c,
            &skewed(k, c.thorough()),
            &|w, o| {
                let t = w.lp_supply(o, 0);
                let b = o.bal[w.pairs[0].lp][OWNER];
                let mut v: Vec<u128> = (1..40).collect();
                v.extend([t / 3, t / 2, t / 2 + 1, b.saturating_sub(1), b, b + 1, t, t / 997, t / 7 * 5, E18 - 1, E18, E18 + 1]);
                v.sort();
                v.dedup();
                v.into_iter().map(|a| wd(OWNER, 0, a)).collect()
            },
            None,
        );
    }
    let mags = magnitudes(c.thorough());
    fan(
        c,
        &pools(TT, &mags, &mags),
        &|w, o| {
            let t = w.lp_supply(o, 0);
            let mut v: Vec<u128> = mags.clone();
            v.extend([t / 3, t / 2, t.saturating_sub(1), t, t + 1]);
            v.sort();
            v.dedup();
            v.into_iter().map(|a| wd(OWNER, 0, a)).collect()
        },
        None,
    );
    // LP in several hands
    let depth = c.b(3, 4);
    for k in [TT, NT] {
        bfs(
            c,
            &one("holders", k, vec![prov(OWNER, 0, [100, 37])]),
            depth,
            c.b(40_000, 800_000),
            &|w, o, _| {
                let lp = w.pairs[0].lp;
                let rs = w.reserves(o, 0);
                let mut v = vec![
                    prov_full(BOB, 0, [rs[0] + 3, rs[1] + 1], true, None, Some(CAROL)),
                    prov(MAL, 0, [50, 50]),
                    donate(MAL, w.pairs[0].assets[1], 0, 41),
                    swap(ALICE, 0, cw_sides(w, 0)[0], 33),
                ];
                for u in [OWNER, BOB, CAROL, MAL] {
                    let b = o.bal[lp][u];
                    v.extend([wd(u, 0, b), wd(u, 0, b + 1), wd(u, 0, b / 2 + 1), wd(u, 0, 1)]);
                    if b > 0 {
                        v.push(give(u, lp, ALICE, b / 2 + 1));
                    }
                }
                v.push(wd(ALICE, 0, o.bal[lp][ALICE]));
                v
            },
            None,
        );
    }
    company(c, None);
    TRUST
}

// ------------------------------------------------------------------ C09
fn round_trips(w: &World, app: &mut Chain, o: &Obs, out: &mut Vec<Disc>) -> u64 {
    let mut n = 0;
    let base = snap(app);
    for pair in 0..w.pairs.len() {
        let t = w.lp_supply(o, pair);
        if t == 0 {
            continue;
        }
        let p = &w.pairs[pair];
        let rs = w.reserves(o, pair);
        let ds: Vec<[u128; 2]> = vec![
            [1, 1],
            [3, 3],
            [rs[0], rs[1]],
            [rs[0] / 2 + 1, rs[1] / 2 + 1],
            [rs[0].saturating_mul(7) + 1, rs[1]],
            [rs[0], rs[1].saturating_mul(5) + 2],
            [rs[0] + 1, rs[1].saturating_sub(1)],
            [100, 100],
            [1, rs[1].saturating_mul(3)],
        ];
        for d in ds {
            for rev in [false, true] {
                if d[0] > o.bal[p.assets[0]][CAROL] || d[1] > o.bal[p.assets[1]][CAROL] {
                    continue;
                }
                n += 1;
                let r1 = w.run(app, &prov_full(CAROL, pair, d, rev, None, None));
                if r1.ok() {
                    let m = w.observe(app).expect("observe");
                    let got = m.bal[p.lp][CAROL].saturating_sub(o.bal[p.lp][CAROL]);
                    if got > 0 {
                        let r2 = w.run(app, &wd(CAROL, pair, got));
                        if r2.ok() {
                            let e = w.observe(app).expect("observe");
                            for s in 0..2 {
                                if e.bal[p.assets[s]][CAROL] > o.bal[p.assets[s]][CAROL] {
                                    out.push((
                                        vec!["C09"],
                                        format!(
                                            "providing {:?} to reserves {:?} with supply {} and redeeming the {} LP at once gains {} of side {}",
                                            d,
                                            rs,
                                            t,
                                            got,
                                            e.bal[p.assets[s]][CAROL] - o.bal[p.assets[s]][CAROL],
                                            s
                                        ),
                                    ));
                                }
                            }
                            let (r1, t1) = (w.reserves(&e, pair), w.lp_supply(&e, pair));
                            if t1 > 0 && !value_not_lower(rs, t, r1, t1) {
                                out.push((vec!["C09"], format!("a round trip of {:?} lowers the value per LP unit: {:?}/{} -> {:?}/{}", d, rs, t, r1, t1)));
                            }
                        }
                    }
                }
                restore(app, &base);
            }
        }
        // everybody redeems everything, in both orders of the holders
        for rev in [false, true] {
            let mut us: Vec<usize> = (0..5).collect();
            if rev {
                us.reverse();
            }
            let mut paid = [0u128; 2];
            let mut cur = o.clone();
            for u in us {
                let b = cur.bal[p.lp][u];
                if b == 0 {
                    continue;
                }
                n += 1;
                if w.run(app, &wd(u, pair, b)).ok() {
                    let e = w.observe(app).expect("observe");
                    for s in 0..2 {
                        paid[s] += e.bal[p.assets[s]][u].saturating_sub(cur.bal[p.assets[s]][u]);
                    }
                    cur = e;
                }
            }
            if paid[0] > rs[0] || paid[1] > rs[1] {
                out.push((vec!["C09"], format!("redeeming all LP paid {:?} out of {:?}", paid, rs)));
            }
            restore(app, &base);
        }
    }
    n
}
pub fn c09(c: &Check) -> &'static [&'static str] {
    let ex = |w: &World, app: &mut Chain, o: &Obs, out: &mut Vec<Disc>| round_trips(w, app, o, out);
    c.bound("in every state: nine provide-and-redeem round trips in both listing orders, redemption by all holders in both orders");
    histories(c, Some(&ex), 3, 4);
    for k in [TT, NT, [K::T(18), K::T(0)]] {
        fan(c, &skewed(k, c.thorough()), &|w, o| history_ops(w, o, 0, true), Some(&ex));
    }
    let n = c.b(9, 20);
    c.bound(format!("every pool seeded with 1..{} units", n));
    for k in [TT, TN] {
        fan(c, &pools(k, &r(1, n), &r(1, n)), &|w, o| history_ops(w, o, 0, true), Some(&ex));
    }
    let mags = magnitudes(c.thorough());
    fan(c, &pools(TT, &mags, &mags), &|w, o| {
        history_ops(w, o, 0, w.reserves(o, 0)[1] < 1 << 120)
    }, Some(&ex));
    long_histories(c, None, 4, 5);
    wide_marathons(c);
    TRUST
}

// ------------------------------------------------------------------ C10
pub fn c10(c: &Check) -> &'static [&'static str] {
    // alicex, alic, lice, mall, malloryx, bobb: none of them a user
    let mut wls: Vec<Vec<usize>> = vec![
        vec![],
        vec![OWNER],
        vec![ALICE],
        vec![ALICE, BOB],
        vec![CAROL, OWNER, BOB],
        (NAMED..NAMED + 6).collect(),
        vec![NAMED + 4, CAROL],
    ];
    if c.thorough() {
        for m in 0..32usize {
            let s: Vec<usize> = (0..5).filter(|i| m >> i & 1 == 1).collect();
            if !wls.contains(&s) {
                wls.push(s);
            }
        }
    }
    // long lists, with a user in the first, a middle and the last place, or none
    let counts: &[usize] = if c.thorough() { &[3, 4, 5, 7, 8, 9, 11, 16, 17, 20, 31, 33, 65, 129, 257] } else { &[7usize, 11, 33, 150] };
    for &n in counts {
        let l: Vec<usize> = (STRANGERS..STRANGERS + n).collect();
        wls.push(l.clone());
        for at in [0, n / 2, n] {
            let mut l = l.clone();
            l.insert(at, ALICE);
            wls.push(l);
        }
        // entries that occur twice
        let mut m = vec![ALICE];
        m.extend(&l);
        m.push(ALICE);
        m.push(BOB);
        wls.push(m);
    }
    let mins: Vec<[u128; 2]> = vec![[0, 0], [0, 5], [5, 0], [3, 9], [9, 3], [6, 6], [1_000_000, 1], [E18, 2 * E18]];
    c.bound(format!("{} whitelists x {} minimums x four kinds of pair; deposits at, below and above each minimum, both listing orders, every sender", wls.len(), mins.len()));
    let mut specs = vec![];
    for k in [TT, TN, NT, NN] {
        for wl in &wls {
            for m in &mins {
                let mut s = one(&format!("requirements {:?} {:?}", wl, m), k, vec![]);
                if wl.len() > 6 && (*m == [0, 0] || *m == [9, 3] || m[0] > 5) {
                    continue;
                }
                if wl.iter().any(|u| *u >= NAMED && *u < STRANGERS) {
                    s = peopled(s);
                    s.contracts = false;
                }
                s.pairs[0].whitelist = wl.clone();
                s.pairs[0].mins = *m;
                specs.push(s);
            }
        }
    }
    let around = |m: u128| -> Vec<u128> {
        let mut v = vec![m.saturating_sub(1), m, m + 1, 1];
        v.sort();
        v.dedup();
        v
    };
    fan(
        c,
        &specs,
        &|w, _| {
            let m = w.pairs[0].mins;
            let mut v = vec![];
            for u in 0..5 {
                for a in around(m[0]) {
                    for b in around(m[1]) {
                        for rev in [false, true] {
                            v.push(prov_full(u, 0, [a, b], rev, None, None));
                        }
                    }
                }
                // amounts that satisfy the minimums only when exchanged
                v.push(prov_full(u, 0, [m[1].max(1), m[0].max(1)], false, None, None));
                v.push(prov_full(u, 0, [m[1].max(1), m[0].max(1)], true, None, None));
                // a whitelisted receiver does not help
                v.push(prov_full(u, 0, [m[0] + 10, m[1] + 10], false, None, Some(OWNER)));
                v.push(prov_full(u, 0, [m[0] + 10, m[1] + 10], true, None, Some(ALICE)));
            }
            v
        },
        None,
    );
    // histories: seeded, emptied, re-seeded
    let d = c.b(4, 5);
    c.bound(format!("histories of {} operations through seeding, complete redemption and re-seeding", d));
    for (k, wl, m) in [
        (TT, vec![OWNER], [8u128, 20u128]),
        (NT, vec![OWNER, BOB], [20, 8]),
        (TN, vec![CAROL], [5, 0]),
    ] {
        let mut s = one("re-seed", k, vec![]);
        s.pairs[0].whitelist = wl;
        s.pairs[0].mins = m;
        bfs(
            c,
            &s,
            d,
            c.b(40_000, 600_000),
            &|w, o, _| {
                let p = &w.pairs[0];
                let mut v = vec![];
                let rs = w.reserves(o, 0);
                for u in [OWNER, BOB, CAROL, MAL] {
                    v.push(prov_full(u, 0, m, false, None, None));
                    v.push(prov_full(u, 0, [m[0].max(1), m[1].max(1)], true, None, Some(ALICE)));
                    v.push(prov_full(u, 0, [m[0].saturating_sub(1).max(1), m[1] + 3], true, None, None));
                    v.push(prov_full(u, 0, [rs[0].max(1), rs[1].max(1)], false, None, None));
                    let b = o.bal[p.lp][u];
                    if b > 0 {
                        v.push(wd(u, 0, b));
                        v.push(Op::LpBurn { u, pair: 0, amt: b });
                    }
                }
                let b = o.bal[p.lp][ALICE];
                if b > 0 {
                    v.push(wd(ALICE, 0, b));
                    v.push(wd(ALICE, 0, b - b / 2));
                }
                v.push(donate(MAL, p.assets[0], 0, 2));
                v
            },
            None,
        );
    }
    marathons(c, None);
    TRUST
}

// ------------------------------------------------------------------ C11
pub fn forged(w: &World, o: &Obs, all: bool) -> Vec<Op> {
    let mut v = vec![];
    let accts: Vec<usize> = if all {
        (0..w.accts.len()).collect()
    } else {
        vec![OWNER, MAL, FACT, ROUT, RECO, PAIR0]
    };
    for pair in 0..w.pairs.len() {
        let p = &w.pairs[pair];
        for swap in [false, true] {
            for s in &accts {
                // what one of the pair's own tokens says is genuine
                let by = w.assets.iter().position(|a| !a.native() && a.id() == w.accts[*s]);
                if by.map_or(false, |a| if swap { p.assets.contains(&a) } else { p.lp == a }) {
                    continue;
                }
                for owner in [MAL, OWNER] {
                    for amt in [1, 10] {
                        let f = Op::Forge {
                            sender: *s,
                            pair,
                            owner,
                            amt,
                            swap,
                            to: Some(MAL),
                        };
                        // with the amount sent along in coins
                        if all {
                            for a in 0..w.assets.len() {
                                if w.assets[a].native() && o.bal[a][*s] >= amt {
                                    v.push(Op::Paid { op: Box::new(f.clone()), coins: vec![(a, amt)] });
                                }
                            }
                        }
                        v.push(f);
                    }
                }
            }
            for a in 0..w.assets.len() {
                let genuine = if swap { p.assets.contains(&a) } else { p.lp == a };
                if !genuine && !w.assets[a].native() {
                    v.push(Op::ForgeByToken {
                        asset: a,
                        pair,
                        owner: MAL,
                        amt: 5,
                        swap,
                    });
                    for u in [OWNER, MAL] {
                        if o.bal[a][u] >= 3 {
                            v.push(Op::SendHook {
                                u,
                                asset: a,
                                pair,
                                amt: 3,
                                swap,
                            });
                        }
                    }
                }
            }
        }
        for a in 0..w.assets.len() {
            if !w.assets[a].native() && o.bal[a][OWNER] > 2 {
                v.push(Op::SendJunk {
                    u: OWNER,
                    asset: a,
                    pair,
                    amt: 2,
                });
            }
        }
        for u in &accts {
            if *u == p.acct {
                continue;
            }
            v.push(Op::LpMint {
                u: *u,
                pair,
                to: MAL,
                amt: 7,
            });
            v.push(Op::LpTakeMinter { u: *u, pair });
        }
        // redeeming more than is held
        for u in [MAL, OWNER, ALICE] {
            v.push(wd(u, pair, o.bal[p.lp][u] + 1));
        }
        for s in 0..2 {
            if w.assets[p.assets[s]].native() {
                v.push(Op::NativeSwap {
                    u: MAL,
                    pair,
                    side: s,
                    amt: 5,
                });
            }
        }
    }
    v
}
/// three pairs that share assets: A-B, B-C (C native), and A-LP(A-B)
pub fn shared(name: &str, seeded: bool) -> Spec {
    let mut s = multi(name, &[K::T(6), K::T(8), K::N(6)], &[[0, 1], [1, 2]], vec![]);
    // asset 3 is the LP token of the first pair
    s.pairs.push(PairSpec {
        assets: [0, 2],
        whitelist: vec![OWNER],
        mins: [0, 0],
    });
    if seeded {
        s.seeds = vec![
            prov(OWNER, 0, [100, 300]),
            prov_full(OWNER, 1, [70, 50], true, None, None),
            prov(OWNER, 2, [1_000, 40]),
            prov_full(BOB, 0, [50, 150], false, None, Some(MAL)),
        ];
    }
    s
}
/// pairs that are each other's twins: the same supplies and reserves; some hold their own LP tokens
pub fn twins(name: &str, k: [K; 3], own: bool) -> Spec {
    let mut s = multi(name, &[k[0], k[1], k[2]], &[[0, 1], [1, 2], [2, 0]], vec![]);
    s.name = format!("{}{}", s.name, if own { ", holding their own LP" } else { "" });
    s.seeds = (0..3).map(|p| prov(OWNER, p, [1_000, 1_000])).collect();
    let lp0 = s.tokens.len() + s.natives.len();
    for p in 0..3 {
        // the same distribution of every LP token
        s.seeds.push(give(OWNER, lp0 + p, MAL, 100));
        if own && p != 1 {
            s.seeds.push(donate(OWNER, lp0 + p, p, 300));
            s.seeds.push(donate(OWNER, lp0 + p, (p + 1) % 3, 200));
        }
    }
    s
}
/// pairs with minimums, several providers and assets without decimals
pub fn required(name: &str, seeded: bool) -> Spec {
    let mut s = multi(name, &[K::T(0), K::T(18), K::N(0), K::N(9)], &[[0, 1], [1, 2], [3, 2], [3, 0]], vec![]);
    let w = [vec![OWNER, BOB], vec![BOB], vec![CAROL, OWNER, ALICE], vec![]];
    let m = [[3, 0], [0, 44], [12, 11], [1, 1]];
    for p in 0..4 {
        s.pairs[p].whitelist = w[p].clone();
        s.pairs[p].mins = m[p];
    }
    if seeded {
        s.seeds = vec![prov(BOB, 0, [500, 400]), prov(BOB, 1, [60, 70]), prov_full(OWNER, 2, [80, 90], true, None, Some(MAL))];
    }
    s
}
/// a pair one of whose assets is another pair's LP token
fn lp_pair(name: &str) -> Spec {
    let mut s = multi(name, &[K::T(6), K::T(6)], &[[0, 1]], vec![]);
    // assets: 0, 1 tokens, 2 = LP of pair 0
    s.pairs.push(PairSpec {
        assets: [2, 0],
        whitelist: vec![OWNER],
        mins: [0, 0],
    });
    s.seeds = vec![
        prov(OWNER, 0, [1_000, 1_000]),
        Op::Transfer {
            u: OWNER,
            asset: 2,
            to: MAL,
            amt: 100,
        },
    ];
    s
}
/// LP of the first pair is an asset of the second; both hold LP of their own and of each other
fn nested(name: &str, own: bool) -> Spec {
    let mut s = lp_pair(name);
    let lp = s.tokens.len() + s.natives.len();
    s.name = format!("{}{}", s.name, if own { ", holding their own LP" } else { "" });
    s.seeds.push(prov(OWNER, 1, [300, 400]));
    s.seeds.push(give(OWNER, lp + 1, MAL, 90));
    if own {
        s.seeds.push(donate(OWNER, lp + 1, 1, 100));
        s.seeds.push(donate(OWNER, lp, 0, 70));
        s.seeds.push(donate(OWNER, lp + 1, 0, 20));
    }
    s
}
/// tokens whose addresses continue each other: contract3, contract4, ..., contract30, contract31; and pairs,
/// LP tokens beyond. Only pairs of the first two, of the last two, and of the first and the last are made.
pub fn namesakes(name: &str) -> Spec {
    let n = 29;
    let mut s = multi(name, &vec![K::T(6); n], &[[0, 1], [n - 2, n - 1], [0, n - 1], [1, n - 1]], vec![]);
    s.name = format!("{}: contract3 to contract31", name);
    s.seeds = vec![prov(OWNER, 0, [1_000, 900]), prov(OWNER, 1, [800, 1_000]), prov(OWNER, 2, [700, 700])];
    s
}
/// two pairs, contract5 and contract59, whose LP tokens are contract6 and contract60
pub fn later_namesake(name: &str, own: bool) -> Spec {
    let mut s = multi(name, &[K::T(6), K::T(6), K::N(6)], &[[0, 1], [0, 2]], vec![]);
    s.name = format!("{}: LP tokens contract6 and contract60{}", name, if own { ", holding LP" } else { "" });
    s.fillers = vec![0, 52];
    s.seeds = vec![prov(OWNER, 0, [1_000, 900]), prov(OWNER, 1, [800, 1_000]), give(OWNER, 3, MAL, 100), give(OWNER, 4, MAL, 100)];
    if own {
        s.seeds.extend([donate(OWNER, 3, 0, 300), donate(OWNER, 4, 1, 200), donate(OWNER, 3, 1, 110), donate(OWNER, 4, 0, 120)]);
    }
    s
}
/// the assets of that world whose addresses matter: the first and last tokens, and LP tokens
pub fn namesake_assets(w: &World) -> Vec<usize> {
    let n = w.spec.tokens.len();
    (0..w.assets.len()).filter(|a| *a < 2 || *a >= n - 3).collect()
}
/// the operations that concern one of the given assets
fn concerning(v: Vec<Op>, a: &[usize]) -> Vec<Op> {
    v.into_iter()
        .filter(|o| match o {
            Op::SendHook { asset, .. } | Op::ForgeByToken { asset, .. } | Op::SendJunk { asset, .. } => a.contains(asset),
            _ => true,
        })
        .collect()
}
pub fn c11(c: &Check) -> &'static [&'static str] {
    c.bound("every forged hook (each account and each token as the sender, both requests, two claimed owners and amounts), every LP mint and minter change by each account, in every state");
    let d = c.b(2, 3);
    let cap = c.b(20_000, 300_000);
    for s in [shared("forgeries", true), shared("forgeries, empty pairs", false), lp_pair("forgeries, LP as an asset")] {
        bfs(
            c,
            &s,
            d,
            cap,
            &|w, o, l| {
                let mut v = forged(w, o, l == 0 || c.thorough());
                if l + 1 < d || l == 0 {
                    for p in 0..w.pairs.len() {
                        v.extend(history_ops(w, o, p, l == 0));
                    }
                }
                v
            },
            None,
        );
    }
    for k in [TT, TN, NT, NN] {
        for seeds in [vec![prov(OWNER, 0, [50, 50])], vec![], vec![prov(OWNER, 0, [50, 50]), wd(OWNER, 0, 50), donate(MAL, pos2(k)[0], 0, 9)]] {
            bfs(c, &one("forgeries", k, seeds), 1, cap, &|w, o, _| forged(w, o, true), None);
        }
    }
    for s in companies() {
        bfs(c, &s, c.b(1, 2), cap, &|w, o, l| forged(w, o, l == 0), None);
    }
    for s in twin_worlds() {
        bfs(c, &s, c.b(1, 2), cap, &|w, o, l| forged(w, o, l == 0), None);
    }
    for own in [false, true] {
        let s = nested("LP as an asset", own);
        bfs(c, &s, c.b(1, 2), cap, &|w, o, l| [forged(w, o, l == 0), strays(w, o)].concat(), None);
    }
    fan(
        c,
        &[namesakes("namesakes")],
        &|w, o| concerning([forged(w, o, true), strays(w, o)].concat(), &namesake_assets(w)),
        None,
    );
    // accounts whose names resemble the contracts'
    for s in [shared("similar names", true), crowded(false, TT, true), crowded(false, NT, true), later_namesake("namesakes", true)] {
        fan(c, &[peopled(s)], &|w, o| [forged(w, o, true), strays(w, o)].concat(), None);
    }
    // genuine operations only move what they may
    histories(c, None, 3, 4);
    wide_marathons(c);
    TRUST
}

// ------------------------------------------------------------------ C12
pub fn c12(c: &Check) -> &'static [&'static str] {
    // world with a second pair so that other assets exist; four kinds of first pair
    let mut specs = vec![];
    for k in [TT, TN, NT, NN] {
        for seeded in [false, true] {
            for tight in [false, true] {
                let ks = [k[0], k[1], K::T(6), K::N(6)];
                let mut s = multi(
                    &format!("provisions seeded {} tight {}", seeded, tight),
                    &ks,
                    &[[0, 1], [2, 3], [0, 2]],
                    vec![],
                );
                s.pairs[0].whitelist = vec![OWNER, ALICE, BOB, MAL];
                if seeded {
                    s.seeds.push(prov(OWNER, 0, [40, 90]));
                }
                if tight {
                    // allowances and balances that just cover or do not cover the amounts
                    s.allowance = 1_000;
                    for t in s.tokens.iter_mut() {
                        t.1 = [2_000, 995, 1_010, 1_000, 30];
                    }
                    for t in s.natives.iter_mut() {
                        t.2 = [2_000, 995, 1_010, 1_000, 30];
                    }
                }
                specs.push(s);
            }
        }
    }
    for (i, mut x) in companies().into_iter().enumerate() {
        x.pairs[0].whitelist = vec![OWNER, ALICE, BOB, MAL];
        specs.push(if i < 5 { peopled(x) } else { x });
    }
    c.bound("provisions by four senders to every kind of pair, empty and funded: every choice of two declared assets, six deposits, both listing orders, six receivers (in some worlds also tokens, accounts with similar names and texts that are no address), coins sent exact / one less / one more / missing / of another denom / exchanged, allowances and balances that just do and just do not cover the amounts");
    fan(
        c,
        &specs,
        &|w, _| {
            let p = &w.pairs[0];
            let tight = w.spec.allowance == 1_000;
            let ds: Vec<[u128; 2]> = if tight {
                vec![[10, 20], [994, 996], [995, 1_000], [1_000, 1_000], [1_001, 1_001], [1_010, 900], [30, 31]]
            } else {
                vec![[10, 20], [20, 10], [15, 15], [40, 90], [1, 1], [7, 500]]
            };
            let users = [OWNER, ALICE, BOB, MAL];
            let mut v = vec![];
            let mk = |u, d, rev, to, declared, funds| Op::Provide {
                u,
                pair: 0,
                d,
                rev,
                tol: None,
                to,
                declared,
                funds,
            };
            for u in users {
                for d in &ds {
                    for rev in [false, true] {
                        for to in [None, Some(ALICE), Some(CAROL), Some(PAIR0), Some(ROUT), Some(FACT)] {
                            if to.is_some() && to != Some(CAROL) && tight {
                                continue;
                            }
                            v.push(mk(u, *d, rev, to, None, None));
                        }
                    }
                }
                for to in w.others().chain(w.odds()) {
                    for rev in [false, true] {
                        if !tight && (!w.spec.names.is_empty() || rev) {
                            v.push(mk(u, ds[0], rev, Some(to), None, None));
                        }
                    }
                }
                let d = ds[0];
                for rev in [false, true] {
                    // declared assets
                    for a in 0..w.assets.len() {
                        for b in 0..w.assets.len() {
                            if [a, b] == p.assets || [b, a] == p.assets {
                                continue;
                            }
                            if a == b {
                                // one asset declared twice: with and without its coins
                                v.push(mk(u, d, rev, None, Some([a, b]), Some(vec![])));
                                if w.assets[a].native() {
                                    v.push(mk(u, [d[0], d[0]], rev, None, Some([a, b]), Some(vec![(a, d[0])])));
                                }
                                continue;
                            }
                            v.push(mk(u, d, rev, None, Some([a, b]), None));
                        }
                    }
                    // coins sent
                    for s in 0..2 {
                        let a = p.assets[s];
                        if !w.assets[a].native() {
                            continue;
                        }
                        let other: Vec<(usize, u128)> = (0..2)
                            .filter(|t| *t != s && w.assets[p.assets[*t]].native())
                            .map(|t| (p.assets[t], d[t]))
                            .collect();
                        let foreign = (0..w.assets.len()).find(|i| w.assets[*i].native() && !p.assets.contains(i));
                        let mut fs: Vec<Vec<(usize, u128)>> = vec![
                            vec![],
                            vec![(a, d[s] - 1)],
                            vec![(a, d[s] + 1)],
                            vec![(a, 1)],
                            vec![(a, d[1 - s])],
                            vec![(a, d[s] * 2)],
                        ];
                        if let Some(f) = foreign {
                            fs.push(vec![(f, d[s])]);
                            fs.push(vec![(a, d[s]), (f, 4)]);
                            // many other coins
                            let mut all: Vec<(usize, u128)> =
                                (0..w.assets.len()).filter(|i| w.assets[*i].native() && !p.assets.contains(i)).map(|i| (i, 3)).collect();
                            all.push((a, d[s]));
                            fs.push(all.clone());
                            all.last_mut().unwrap().1 += 1;
                            fs.push(all);
                        }
                        for f in fs {
                            let mut g = f.clone();
                            g.extend(other.clone());
                            v.push(mk(u, d, rev, None, None, Some(g)));
                            if !other.is_empty() {
                                v.push(mk(u, d, rev, None, None, Some(f)));
                            }
                        }
                        // declared zero, coins sent all the same, and the reverse
                        let mut z = d;
                        z[s] = 0;
                        let mut g = vec![(a, 5)];
                        g.extend(other.clone());
                        v.push(mk(u, z, rev, None, None, Some(g)));
                    }
                    // no native in the pair but coins sent along is not specified; both tokens exact
                }
            }
            v
        },
        None,
    );
    // repeated provisions use up the allowance
    let d = c.b(3, 4);
    for k in [TT, TN] {
        let mut s = one("allowance", k, vec![]);
        s.allowance = 100;
        s.pairs[0].whitelist = vec![OWNER, BOB];
        bfs(
            c,
            &s,
            d,
            c.b(30_000, 400_000),
            &|w, o, _| {
                let mut v = vec![];
                for u in [OWNER, BOB, CAROL] {
                    for dep in [[40, 40], [60, 30], [61, 61], [100, 100], [101, 50]] {
                        v.push(prov_full(u, 0, dep, false, None, None));
                        v.push(prov_full(u, 0, dep, true, None, Some(MAL)));
                    }
                }
                for u in [OWNER, BOB, MAL] {
                    let b = o.bal[w.pairs[0].lp][u];
                    if b > 0 {
                        v.push(wd(u, 0, b));
                    }
                }
                v
            },
            None,
        );
    }
    marathons(c, None);
    TRUST
}

// ------------------------------------------------------------------ C13
pub fn everything(w: &World, o: &Obs, rich: bool) -> Vec<Op> {
    let mut v = vec![];
    for p in 0..w.pairs.len() {
        v.extend(history_ops(w, o, p, rich));
    }
    // routes
    let n = w.assets.len();
    for a in 0..n {
        for b in 0..n {
            if w.pair_of(a, b).is_none() {
                continue;
            }
            for cc in 0..n {
                if w.pair_of(b, cc).is_some() && a != cc && !w.assets[a].native() {
                    for min in [None, Some(1), Some(1_000_000)] {
                        v.push(Op::Route {
                            u: ALICE,
                            offer: a,
                            hops: vec![(a, b), (b, cc)],
                            amt: 9,
                            min,
                            to: if rich { Some(CAROL) } else { None },
                        });
                    }
                }
            }
            if !w.assets[a].native() {
                v.push(Op::Route {
                    u: BOB,
                    offer: a,
                    hops: vec![(a, b)],
                    amt: 6,
                    min: Some(1),
                    to: None,
                });
            }
        }
    }
    if rich {
        for p in 0..w.pairs.len() {
            let b = o.bal[w.pairs[p].lp][OWNER];
            if b > 0 {
                v.push(Op::LpBurn { u: OWNER, pair: p, amt: b / 2 + 1 });
            }
            v.push(wd(MAL, p, o.bal[w.pairs[p].lp][MAL] + 1));
        }
        for i in 0..w.assets.len() {
            v.push(give(ALICE, i, ROUT, 3));
            v.push(give(ALICE, i, ALICE, 3));
        }
    }
    v
}
pub fn c13(c: &Check) -> &'static [&'static str] {
    let d = c.b(2, 3);
    c.bound("after every operation the balances of all accounts and the pool queries of all pairs are read back");
    for s in [shared("everything", true), lp_pair("everything")] {
        bfs(c, &s, d, c.b(30_000, 300_000), &|w, o, l| everything(w, o, l == 0 || c.thorough()), None);
    }
    // refused operations of every kind change nothing
    for s in [shared("refusals", true)] {
        bfs(c, &s, 1, 10_000, &|w, o, _| forged(w, o, true), None);
    }
    histories(c, None, 4, 5);
    for k in [TT, NT] {
        fan(c, &skewed(k, c.thorough()), &|w, o| history_ops(w, o, 0, true), None);
    }
    wide_marathons(c);
    TRUST
}

// ------------------------------------------------------------------ C31
fn twin_worlds() -> Vec<Spec> {
    let mut v = vec![];
    for own in [true, false] {
        for k in [[K::T(6), K::T(6), K::T(6)], [K::T(6), K::N(6), K::T(6)], [K::N(6), K::N(6), K::T(6)]] {
            v.push(twins("twins", k, own));
        }
    }
    v
}
/// LP tokens and assets of one pair sent to another, with either request
fn strays(w: &World, o: &Obs) -> Vec<Op> {
    let mut v = vec![];
    for p in 0..w.pairs.len() {
        for a in 0..w.assets.len() {
            if w.assets[a].native() {
                continue;
            }
            // what is genuine for its own asset or LP token
            let (own, lp) = (w.pairs[p].assets.contains(&a), w.pairs[p].lp == a);
            for u in [OWNER, MAL] {
                let b = o.bal[a][u];
                for amt in [2, 100, b] {
                    if b >= amt && amt > 0 {
                        for swap in [false, true] {
                            if if swap { own } else { lp } {
                                continue;
                            }
                            v.push(Op::SendHook { u, asset: a, pair: p, amt, swap });
                            if amt == 2 {
                                v.push(delegated(u, Op::SendHook { u: CAROL, asset: a, pair: p, amt, swap }));
                            }
                        }
                    }
                }
            }
        }
    }
    v
}
pub fn c31(c: &Check) -> &'static [&'static str] {
    let d = c.b(2, 3);
    c.bound("operations on each of three pairs that share assets, in every state; both orders of every two operations on different pairs by different accounts");
    let isolated = |w: &World, app: &mut Chain, o: &Obs, out: &mut Vec<Disc>| commute(w, app, o, c.thorough(), out);
    let mut list = vec![shared("three pairs", true), shared("three empty pairs", false), lp_pair("LP as an asset")];
    list.extend([false, true].map(|own| nested("LP as an asset", own)));
    for s in list {
        bfs(
            c,
            &s,
            d,
            c.b(4_000, 60_000),
            &|w, o, l| {
                let mut v = vec![];
                for p in 0..w.pairs.len() {
                    v.extend(history_ops(w, o, p, l == 0));
                }
                v.extend(strays(w, o));
                v
            },
            if s.name.starts_with("three pairs") || c.thorough() { Some(&isolated) } else { None },
        );
    }
    for s in twin_worlds()
        .into_iter()
        .chain(companies())
        .chain([required("pairs with requirements", true)])
        .chain([false, true].map(|own| later_namesake("namesakes", own)))
    {
        bfs(
            c,
            &s,
            c.b(2, 3),
            c.b(2_000, 30_000),
            &|w, o, l| {
                let mut v = strays(w, o);
                for p in 0..w.pairs.len() {
                    if l == 0 || c.thorough() || p == 0 {
                        v.extend(history_ops(w, o, p, false));
                    }
                }
                v
            },
            if s.name.starts_with("pairs with") || s.name.starts_with("twins") { Some(&isolated) } else { None },
        );
    }
    fan(
        c,
        &[namesakes("namesakes")],
        &|w, o| {
            let mut v = concerning(strays(w, o), &namesake_assets(w));
            for p in 0..w.pairs.len() {
                v.extend(history_ops(w, o, p, false));
            }
            v
        },
        None,
    );
    // all pairs at once, one level, everything that can be refused
    bfs(c, &shared("forgeries", true), 1, 10_000, &|w, o, _| forged(w, o, true), None);
    wide_marathons(c);
    TRUST
}
/// the users of different pairs are different, receivers too
fn commute(w: &World, app: &mut Chain, o: &Obs, full: bool, out: &mut Vec<Disc>) -> u64 {
    let base = snap(app);
    let mut n = 0;
    let ops = |pair: usize, us: [usize; 2]| -> Vec<Op> {
        let mut v = vec![];
        let rs = w.reserves(o, pair);
        for s in cw_sides(w, pair) {
            v.push(swap(us[0], pair, s, 11));
            if full {
                v.push(swap(us[1], pair, s, rs[s] * 2 + 1));
            }
        }
        if w.lp_supply(o, pair) > 0 {
            v.push(prov_full(us[1], pair, [rs[0], rs[1]], true, None, Some(us[0])));
        }
        for u in us {
            let b = o.bal[w.pairs[pair].lp][u];
            if b > 0 {
                v.push(wd(u, pair, b));
            }
        }
        v
    };
    for p in 0..w.pairs.len() {
        for q in 0..w.pairs.len() {
            if p >= q || w.pairs[q].assets.contains(&w.pairs[p].lp) || w.pairs[p].assets.contains(&w.pairs[q].lp) {
                continue;
            }
            for a in ops(p, [ALICE, OWNER]) {
                for b in ops(q, [BOB, MAL]) {
                    n += 1;
                    let a1 = w.run(app, &a).ok();
                    let b1 = w.run(app, &b).ok();
                    let s1 = w.observe(app);
                    restore(app, &base);
                    let b2 = w.run(app, &b).ok();
                    let a2 = w.run(app, &a).ok();
                    let s2 = w.observe(app);
                    restore(app, &base);
                    if (a1, b1) != (a2, b2) || s1 != s2 {
                        out.push((
                            vec!["C31"],
                            format!("{:?} and {:?} give different results in different orders", a, b),
                        ));
                    }
                }
            }
        }
    }
    n
}
