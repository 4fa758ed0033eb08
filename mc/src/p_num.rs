//! C27, C28 (256-bit numbers) and C29 (asset identity). The value types are explored as transition
//! systems: a state is a value, a transition one public operation with operands out of a boundary set,
//! each compared with exact wide integers.
use crate::chain::*;
use crate::explore::*;
use crate::ops::*;
use crate::refmodel::*;
use crate::rep::*;
use crate::worlds::*;
use bigint::U256;
use bignumber::{Decimal256, Uint256};
use cosmwasm_std::testing::{MockApi, MockStorage};
use cosmwasm_std::{Addr, Api, BankMsg, CosmosMsg, Decimal, Storage, Uint128, WasmMsg};
use cw_multi_test::Executor;
use haloswap::asset::{Asset, AssetInfo, AssetInfoRaw, AssetRaw, CreatePairRequirements, PairInfo, PairInfoRaw};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

const TRUST: &[&str] = &[
    "crate uint's 512-bit integers are the arithmetic reference (a different library from the one under test)",
    "values outside the boundary sets and longer operation chains are not covered",
];

fn e18() -> W {
    w(E18)
}
fn wu(x: U256) -> W {
    W([x.0[0], x.0[1], x.0[2], x.0[3], 0, 0, 0, 0])
}
fn uw(x: W) -> U256 {
    U256([x.0[0], x.0[1], x.0[2], x.0[3]])
}
fn fits(x: W) -> bool {
    x.bits() <= 256
}
fn max() -> W {
    (W::one() << 256) - 1
}

/// limb patterns, powers of ten, limits
fn values(rich: bool) -> Vec<W> {
    let mut s: BTreeSet<W> = BTreeSet::new();
    let limbs: Vec<u64> = if rich {
        vec![0, 1, 1 << 63, u64::MAX - 1, u64::MAX]
    } else {
        vec![0, 1, u64::MAX]
    };
    for a in &limbs {
        for b in &limbs {
            for c in &limbs {
                for d in &limbs {
                    s.insert(W([*a, *b, *c, *d, 0, 0, 0, 0]));
                }
            }
        }
    }
    let mut p = W::one();
    for k in 0..=77 {
        if rich || k % 9 == 0 || k == 77 {
            s.insert(p);
            s.insert(p - 1);
            s.insert(p + 1);
        }
        p = p * 10;
    }
    for x in [max(), max() - 1, max() / 2, max() / 2 + 1, max() / e18(), max() / e18() + 1, max() / e18() - 1] {
        s.insert(x);
    }
    let r = W::one() << 128;
    for x in [r - 1, r, r + 1, e18() * r, e18() * r - 1, e18() * (r - 1), e18() * e18(), e18() * 3 / 2, e18() / 3] {
        s.insert(x);
    }
    if rich {
        for k in 0..256 {
            s.insert(W::one() << k);
        }
        for k in [2u64, 3, 7, 10, 997, 1_000, 1_003] {
            s.insert(W::from(k));
            s.insert(e18() * k);
            s.insert(e18() / k);
            s.insert(max() / k);
        }
    }
    s.into_iter().filter(|x| fits(*x)).collect()
}
fn small() -> Vec<W> {
    let r = W::one() << 128;
    let mut v = vec![
        W::zero(),
        W::one(),
        w(2),
        w(3),
        w(7),
        w(10),
        e18() - 1,
        e18(),
        e18() + 1,
        e18() / 3,
        e18() * 10,
        w(u64::MAX as u128),
        w(1 << 64),
        w((1 << 64) + 1),
        r - 1,
        r,
        r + 1,
        e18() * e18(),
        max() / e18(),
        max() / e18() + 1,
        max() / 2,
        max() - 1,
        max(),
        w(1 << 63),
        W::one() << 192,
        (W::one() << 192) - 1,
        w(123_456_789_012_345_678_901_234_567),
    ];
    v.sort();
    v
}

/// the exact result; `fits`: it is inside the type; `small`: no intermediate product exceeds it
struct Exp {
    v: Option<W>,
    must: bool,
}
fn ex(v: W, inter: &[W]) -> Exp {
    let small = inter.iter().all(|x| fits(*x));
    Exp {
        must: fits(v) && small,
        v: if fits(v) { Some(v) } else { None },
    }
}
const NOTHING: Exp = Exp { v: None, must: false };

fn run<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

const BIN: [&str; 14] = [
    "Uint256 + Uint256",
    "Uint256 += Uint256",
    "Uint256 - Uint256",
    "Uint256 * Uint256",
    "Uint256 * Decimal256",
    "Decimal256 * Uint256",
    "Uint256 / Decimal256",
    "Decimal256 + Decimal256",
    "Decimal256 += Decimal256",
    "Decimal256 - Decimal256",
    "Decimal256 * Decimal256",
    "Decimal256 / Decimal256",
    "Decimal256::from_ratio",
    "from_uint256",
];

fn real(op: usize, a: U256, b: U256) -> Option<U256> {
    let (u, v) = (Uint256(a), Uint256(b));
    let (d, e) = (Decimal256(a), Decimal256(b));
    run(|| match op {
        0 => (u + v).0,
        1 => {
            let mut x = u;
            x += v;
            x.0
        }
        2 => (u - v).0,
        3 => (u * v).0,
        4 => (u * e).0,
        5 => (d * v).0,
        6 => (u / e).0,
        7 => (d + e).0,
        8 => {
            let mut x = d;
            x += e;
            x.0
        }
        9 => (d - e).0,
        10 => (d * e).0,
        11 => (d / e).0,
        12 => Decimal256::from_ratio(a, b).0,
        _ => Decimal256::from_uint256(u).0,
    })
}
fn model(op: usize, a: W, b: W) -> Exp {
    match op {
        0 | 1 | 7 | 8 => ex(a + b, &[]),
        2 | 9 => {
            if a >= b {
                ex(a - b, &[])
            } else {
                NOTHING
            }
        }
        3 => ex(a * b, &[]),
        4 | 5 | 10 => ex(a * b / e18(), &[a * b]),
        6 | 11 | 12 => {
            if b.is_zero() {
                NOTHING
            } else {
                ex(a * e18() / b, &[a * e18()])
            }
        }
        _ => ex(a * e18(), &[]),
    }
}
fn differs(e: &Exp, got: Option<W>) -> Option<String> {
    match (got, e.v) {
        (Some(g), Some(v)) if g == v => None,
        (Some(g), Some(v)) => Some(format!("gives {} instead of {}", g, v)),
        (Some(g), None) => Some(format!("gives {} where it has to abort", g)),
        (None, Some(v)) if e.must => Some(format!("aborts instead of giving {}", v)),
        (None, _) => None,
    }
}
fn ops_for(x: usize) -> std::ops::Range<usize> {
    0..x
}

#[derive(Default)]
struct Tot {
    n: u64,
    ok: u64,
    ab: u64,
    bad: Vec<(String, String)>,
    kinds: BTreeMap<String, u64>,
}
impl Tot {
    fn bad(&mut self, key: String, msg: String) {
        if self.bad.len() < 10 {
            self.bad.push((key, msg));
        }
    }
    fn count(&mut self, done: bool) {
        self.n += 1;
        if done {
            self.ok += 1;
        } else {
            self.ab += 1;
        }
    }
    fn into(self, c: &Check) {
        c.add(&c.transitions, self.n);
        c.add(&c.conform, self.n);
        c.add(&c.traces, self.n);
        c.add(&c.completed, self.ok);
        c.add(&c.aborted, self.ab);
        c.merge_kinds(&self.kinds);
        for (k, m) in self.bad {
            c.viol_case(k, m);
        }
    }
}

pub fn c27(c: &Check) -> &'static [&'static str] {
    let vs = values(true);
    let vs: Vec<W> = vs.into_iter().chain(small()).collect();
    let vs: Vec<W> = vs.into_iter().collect::<BTreeSet<_>>().into_iter().collect();
    c.bound(format!(
        "every ordered pair of {} boundary values (limb patterns, powers of two and ten, limits) through every operator, and comparison",
        vs.len()
    ));
    c.add(&c.states, vs.len() as u64);
    let idx: Vec<usize> = (0..vs.len()).collect();
    for t in par(
        &idx,
        || (),
        |_, _, i| {
            let mut t = Tot::default();
            let a = vs[*i];
            for b in &vs {
                for op in ops_for(13) {
                    let got = real(op, uw(a), uw(*b)).map(wu);
                    t.count(got.is_some());
                    if let Some(m) = differs(&model(op, a, *b), got) {
                        t.bad(format!("{} {} {}", BIN[op], a, b), format!("{} of {} and {} {}", BIN[op], a, b, m));
                    }
                }
                t.n += 2;
                let (x, y) = (Uint256(uw(a)), Uint256(uw(*b)));
                let (d, e) = (Decimal256(uw(a)), Decimal256(uw(*b)));
                let o = a.cmp(b);
                if x.cmp(&y) != o
                    || x.partial_cmp(&y) != Some(o)
                    || (x == y) != (a == *b)
                    || (x < y) != (a < *b)
                    || (x >= y) != (a >= *b)
                    || d.cmp(&e) != o
                    || d.partial_cmp(&e) != Some(o)
                    || (d == e) != (a == *b)
                    || (d < e) != (a < *b)
                    || (d >= e) != (a >= *b)
                {
                    t.bad(format!("cmp {} {}", a, b), format!("comparison of {} and {} disagrees with their order", a, b));
                }
            }
            let got = real(13, uw(a), U256::zero()).map(wu);
            t.count(got.is_some());
            if let Some(m) = differs(&model(13, a, W::zero()), got) {
                t.bad(format!("{} {}", BIN[13], a), format!("{} of {} {}", BIN[13], a, m));
            }
            // conversions that drop to 128 bits
            let u128v = to128(a);
            for (name, got) in [
                ("u128", run(|| u128::from(Uint256(uw(a))))),
                ("Uint128", run(|| Uint128::from(Uint256(uw(a))).u128())),
            ] {
                t.count(got.is_some());
                if got != u128v {
                    t.bad(format!("to {} {}", name, a), format!("{} converted to {}: {:?}", a, name, got));
                }
            }
            if Uint256(uw(a)).is_zero() != a.is_zero() || Decimal256(uw(a)).is_zero() != a.is_zero() {
                t.bad(format!("is_zero {}", a), format!("is_zero of {} is wrong", a));
            }
            if wu(U256::from(Uint256(uw(a)))) != a || wu(Uint256::from(uw(a)).0) != a {
                t.bad(format!("U256 {}", a), format!("conversion of {} is wrong", a));
            }
            if let Some(x) = u128v {
                t.n += 3;
                let g = [
                    wu(Uint256::from(x).0),
                    wu(Uint256::from(Uint128::new(x)).0),
                    if x <= u64::MAX as u128 { wu(Uint256::from(x as u64).0) } else { a },
                ];
                if g.iter().any(|y| *y != a) {
                    t.bad(format!("from {}", a), format!("conversion of {} gives {:?}", a, g));
                }
                if x <= u64::MAX as u128 {
                    for (f, name, k) in [
                        (Decimal256::percent as fn(u64) -> Decimal256, "percent", 10_000_000_000_000_000u128),
                        (Decimal256::permille, "permille", 1_000_000_000_000_000),
                    ] {
                        let got = run(|| f(x as u64).0).map(wu);
                        t.count(got.is_some());
                        if let Some(m) = differs(&ex(a * w(k), &[]), got) {
                            t.bad(format!("{} {}", name, a), format!("{} of {} {}", name, a, m));
                        }
                    }
                    // generic operands
                    let got = run(|| Decimal256::from_ratio(x as u64, 7u64).0).map(wu);
                    t.count(got.is_some());
                    if let Some(m) = differs(&ex(a * e18() / 7, &[a * e18()]), got) {
                        t.bad(format!("ratio {} 7", a), format!("from_ratio({}, 7) {}", a, m));
                    }
                }
                let got = run(|| Decimal256::from_uint256(x).0).map(wu);
                if let Some(m) = differs(&ex(a * e18(), &[]), got) {
                    t.bad(format!("from_uint256 {}", a), format!("from_uint256 of the u128 {} {}", a, m));
                }
            }
            t
        },
    ) {
        t.into(c);
    }
    // constants
    if wu(Decimal256::MAX.0) != max()
        || wu(Decimal256::one().0) != e18()
        || !Decimal256::zero().is_zero()
        || wu(Decimal256::DECIMAL_FRACTIONAL) != e18()
        || wu(Uint256::one().0) != W::one()
        || !Uint256::zero().is_zero()
        || !Decimal256::default().is_zero()
        || !Uint256::default().is_zero()
    {
        c.viol_case("constants", "a constant has the wrong value");
    }
    // multiply_ratio: all triples
    let ms: Vec<W> = values(false)
        .into_iter()
        .enumerate()
        .filter(|(i, _)| c.thorough() || i % 2 == 0)
        .map(|x| x.1)
        .chain(small())
        .collect::<BTreeSet<_>>()
        .into_iter()
        .collect();
    c.bound(format!("multiply_ratio on every triple of {} values", ms.len()));
    let idx: Vec<usize> = (0..ms.len()).collect();
    for t in par(
        &idx,
        || (),
        |_, _, i| {
            let mut t = Tot::default();
            let a = ms[*i];
            for n in &ms {
                for d in &ms {
                    let got = run(|| Uint256(uw(a)).multiply_ratio(uw(*n), uw(*d)).0).map(wu);
                    t.count(got.is_some());
                    let e = if d.is_zero() { NOTHING } else { ex(a * *n / *d, &[a * *n]) };
                    if let Some(m) = differs(&e, got) {
                        t.bad(
                            format!("multiply_ratio {} {} {}", a, n, d),
                            format!("{}.multiply_ratio({}, {}) {}", a, n, d, m),
                        );
                    }
                }
            }
            t
        },
    ) {
        t.into(c);
    }
    // chains of operations from a small set
    let s0 = small();
    
    let mut seen: BTreeSet<W> = s0.iter().copied().collect();
    let mut frontier = s0.clone();
    let depth = c.b(2, 3);
    c.bound(format!("every chain of up to {} operations over {} values, operands on either side", depth, s0.len()));
    for _ in 0..depth {
        let mut next = vec![];
        for (t, vals) in par(
            &frontier,
            || (),
            |_, _, a| {
                let mut t = Tot::default();
                let mut vals = vec![];
                for b in &s0 {
                    for op in [0, 2, 3, 4, 6, 7, 9, 10, 11, 12] {
                        for (x, y) in [(*a, *b), (*b, *a)] {
                            let got = real(op, uw(x), uw(y)).map(wu);
                            t.count(got.is_some());
                            if let Some(m) = differs(&model(op, x, y), got) {
                                t.bad(format!("{} {} {}", BIN[op], x, y), format!("{} of {} and {} {}", BIN[op], x, y, m));
                            }
                            if let Some(g) = got {
                                vals.push(g);
                            }
                        }
                    }
                }
                vals.sort();
                vals.dedup();
                (t, vals)
            },
        ) {
            t.into(c);
            for v in vals {
                if seen.insert(v) {
                    next.push(v);
                }
            }
        }
        frontier = next;
    }
    c.add(&c.states, seen.len() as u64);
    // everything small
    let n: u64 = c.b(160, 400);
    c.bound(format!("every pair of raw values below {} and of tenths below {}", n, n));
    let rows: Vec<u64> = (0..n).collect();
    for t in par(
        &rows,
        || (),
        |_, _, i| {
            let mut t = Tot::default();
            for j in 0..n {
                for k in [w(1), e18() / 10] {
                    let (a, b) = (w(*i as u128) * k, w(j as u128) * k);
                    for op in ops_for(13) {
                        let got = real(op, uw(a), uw(b)).map(wu);
                        t.count(got.is_some());
                        if let Some(m) = differs(&model(op, a, b), got) {
                            t.bad(format!("{} {} {}", BIN[op], a, b), format!("{} of {} and {} {}", BIN[op], a, b, m));
                        }
                    }
                }
            }
            t
        },
    ) {
        t.into(c);
    }
    for op in [10, 11, 6] {
        let (a, b): (W, W) = (e18() * 7u64 / 2u64, e18() * 3u64);
        c.sample(json!({"op": BIN[op], "a": a.to_string(), "b": b.to_string(), "result": format!("{:?}", real(op, uw(a), uw(b)).map(|x| wu(x).to_string()))}));
    }
    TRUST
}

// ------------------------------------------------------------------------------------------ C28
fn dec_text(a: W) -> String {
    let (i, f) = (a / e18(), a % e18());
    if f.is_zero() {
        i.to_string()
    } else {
        let s = format!("{:018}", f.low_u128());
        format!("{}.{}", i, s.trim_end_matches('0'))
    }
}
enum Read {
    Value(W),
    /// empty digit group: this value if it is read at all
    Maybe(W),
    No,
}
fn digits(s: &str) -> Option<W> {
    if !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let t = s.trim_start_matches('0');
    if t.len() > 100 {
        return None;
    }
    let mut v = W::zero();
    for b in t.bytes() {
        v = v * 10 + (b - b'0') as u64;
    }
    Some(v)
}
fn read_uint(s: &str) -> Read {
    match digits(s) {
        Some(v) if fits(v) => {
            if s.is_empty() {
                Read::Maybe(v)
            } else {
                Read::Value(v)
            }
        }
        _ => Read::No,
    }
}
fn read_dec(s: &str) -> Read {
    let p: Vec<&str> = s.split('.').collect();
    if p.len() > 2 {
        return Read::No;
    }
    let f = if p.len() == 2 { p[1] } else { "0" };
    if f.len() > 18 {
        return Read::No;
    }
    let (Some(i), Some(x)) = (digits(p[0]), digits(f)) else {
        return Read::No;
    };
    let mut x = x;
    for _ in f.len()..18 {
        x = x * 10;
    }
    if !fits(i) {
        return Read::No;
    }
    let v = i * e18() + x;
    if !fits(v) {
        return Read::No;
    }
    if p[0].is_empty() || f.is_empty() {
        Read::Maybe(v)
    } else {
        Read::Value(v)
    }
}
fn wrong(e: &Read, got: Option<W>) -> Option<String> {
    match (e, got) {
        (Read::Value(v), Some(g)) | (Read::Maybe(v), Some(g)) if *v == g => None,
        (Read::Value(v), g) => Some(format!("is read as {:?} instead of {}", g, v)),
        (Read::Maybe(v), Some(g)) => Some(format!("is read as {} instead of {} or not at all", g, v)),
        (Read::No, Some(g)) => Some(format!("is read as {} but has to be rejected", g)),
        _ => None,
    }
}
fn judge_text(t: &mut Tot, s: &str) {
    let js = serde_json::to_string(s).unwrap();
    let readings: [(&str, Option<U256>, Read); 5] = [
        ("Uint256::from_str", run(|| Uint256::from_str(s).ok().map(|x| x.0)).flatten(), read_uint(s)),
        ("Uint256::try_from", run(|| Uint256::try_from(s).ok().map(|x| x.0)).flatten(), read_uint(s)),
        (
            "Uint256 from JSON",
            run(|| serde_json::from_str::<Uint256>(&js).ok().map(|x| x.0)).flatten(),
            read_uint(s),
        ),
        ("Decimal256::from_str", run(|| Decimal256::from_str(s).ok().map(|x| x.0)).flatten(), read_dec(s)),
        (
            "Decimal256 from JSON",
            run(|| serde_json::from_str::<Decimal256>(&js).ok().map(|x| x.0)).flatten(),
            read_dec(s),
        ),
    ];
    for (name, got, e) in readings {
        let got = got.map(wu);
        t.count(got.is_some());
        if let Some(m) = wrong(&e, got) {
            t.bad(format!("{} {:?}", name, s), format!("{}: {:?} {}", name, s, m));
        }
    }
}

pub fn c28(c: &Check) -> &'static [&'static str] {
    let mut vs = values(true);
    // every digit length with several leading and trailing digits
    let mut p = W::one();
    for _ in 0..78 {
        for k in [1u64, 2, 5, 9] {
            for m in [0u64, 1, 5, 10, 100_000] {
                let x = p * k + m;
                if fits(x) {
                    vs.push(x);
                }
            }
        }
        p = p * 10;
    }
    vs.sort();
    vs.dedup();
    c.bound(format!("print and read back {} values (limb patterns, powers, every digit length, every position of the last fractional digit)", vs.len()));
    c.add(&c.states, vs.len() as u64);
    for t in par(
        &vs,
        || (),
        |_, _, a| {
            let mut t = Tot::default();
            let (u, d) = (Uint256(uw(*a)), Decimal256(uw(*a)));
            let (tu, td) = (a.to_string(), dec_text(*a));
            let texts = [
                ("Uint256 as text", run(|| u.to_string()), tu.clone()),
                ("Uint256 as String", run(|| String::from(u)), tu.clone()),
                ("Uint256 as JSON", run(|| serde_json::to_string(&u).unwrap()), format!("\"{}\"", tu)),
                ("Decimal256 as text", run(|| d.to_string()), td.clone()),
                ("Decimal256 as JSON", run(|| serde_json::to_string(&d).unwrap()), format!("\"{}\"", td)),
                (
                    "Uint256 as chain JSON",
                    run(|| String::from_utf8(cosmwasm_std::to_vec(&u).unwrap()).unwrap()),
                    format!("\"{}\"", tu),
                ),
                (
                    "Decimal256 as chain JSON",
                    run(|| String::from_utf8(cosmwasm_std::to_vec(&d).unwrap()).unwrap()),
                    format!("\"{}\"", td),
                ),
            ];
            for (name, got, want) in texts {
                t.count(got.is_some());
                if got.as_deref() != Some(want.as_str()) {
                    t.bad(format!("{} {}", name, a), format!("{} of raw {} is {:?} instead of {:?}", name, a, got, want));
                }
            }
            let round = [
                ("Uint256 text", run(|| Uint256::from_str(&u.to_string()).ok().map(|x| x.0)).flatten()),
                ("Uint256 JSON", run(|| serde_json::from_str::<Uint256>(&serde_json::to_string(&u).unwrap()).ok().map(|x| x.0)).flatten()),
                ("Decimal256 text", run(|| Decimal256::from_str(&d.to_string()).ok().map(|x| x.0)).flatten()),
                (
                    "Decimal256 JSON",
                    run(|| cosmwasm_std::from_slice::<Decimal256>(&cosmwasm_std::to_vec(&d).unwrap()).ok().map(|x| x.0)).flatten(),
                ),
            ];
            for (name, got) in round {
                t.count(got.is_some());
                if got.map(wu) != Some(*a) {
                    t.bad(format!("{} {}", name, a), format!("{} of raw {} reads back as {:?}", name, a, got));
                }
            }
            judge_text(&mut t, &tu);
            judge_text(&mut t, &td);
            for z in [1usize, 2, 40, 100] {
                judge_text(&mut t, &format!("{}{}", "0".repeat(z), tu));
                judge_text(&mut t, &format!("{}{}", "0".repeat(z), td));
            }
            // written with more fractional zeros, up to and beyond eighteen
            let (i, f) = (*a / e18(), format!("{:018}", (*a % e18()).low_u128()));
            for l in 0..=18 {
                judge_text(&mut t, &format!("{}.{}", i, &f[..l]));
            }
            for tail in ["0", "00", "1", "000000000000000000000"] {
                judge_text(&mut t, &format!("{}.{}{}", i, f, tail));
            }
            // numbers that are read as text only, wrapped in other characters
            for (pre, post) in [("+", ""), ("-", ""), (" ", ""), ("", " "), ("", "\n"), ("0x", ""), ("", "e1"), ("", "."), (".", ""), ("", ".."), ("1.", ".1"), ("_", "")] {
                judge_text(&mut t, &format!("{}{}{}", pre, tu, post));
            }
            // the chain's own types
            if let Some(x) = to128(*a) {
                let cd = Decimal::new(Uint128::new(x));
                let got = run(|| Decimal256::from(cd).0).map(wu);
                t.count(got.is_some());
                if got != Some(*a) {
                    t.bad(format!("from Decimal {}", a), format!("Decimal of raw {} becomes raw {:?}", a, got));
                }
                let v = cosmwasm_std::to_vec(&Uint128::new(x)).unwrap();
                if cosmwasm_std::from_slice::<Uint256>(&v).ok().map(|x| wu(x.0)) != Some(*a) {
                    t.bad(format!("Uint128 JSON {}", a), format!("the JSON of the Uint128 {} reads differently", a));
                }
            }
            let got = run(|| Decimal::from(d).atomics().u128());
            t.count(got.is_some());
            if got != to128(*a) {
                t.bad(format!("to Decimal {}", a), format!("Decimal256 of raw {} becomes Decimal of raw {:?}", a, got));
            }
            t
        },
    ) {
        t.into(c);
    }
    // all short texts
    let alpha: Vec<char> = "0159.-+ a_e٣".chars().collect();
    let n = c.b(6, 7);
    c.bound(format!("every text of up to {} characters out of {:?}", n, alpha));
    let mut heads: Vec<String> = vec![];
    for a in &alpha {
        for b in &alpha {
            heads.push(format!("{}{}", a, b));
        }
    }
    let mut first = Tot::default();
    judge_text(&mut first, "");
    for a in &alpha {
        judge_text(&mut first, &a.to_string());
    }
    first.into(c);
    for t in par(
        &heads,
        || (),
        |_, _, h| {
            let mut t = Tot::default();
            let mut cur = vec![h.clone()];
            judge_text(&mut t, h);
            for _ in 2..n {
                let mut next = vec![];
                for s in &cur {
                    for ch in &alpha {
                        let mut x = s.clone();
                        x.push(*ch);
                        judge_text(&mut t, &x);
                        next.push(x);
                    }
                }
                cur = next;
            }
            t
        },
    ) {
        t.into(c);
    }
    // every byte as the only odd character, at every position of a number
    let mut t = Tot::default();
    for ch in (0u32..0x250).filter_map(char::from_u32) {
        for base in ["12.5", "700", "0.000000000000000001"] {
            for i in 0..=base.len() {
                let mut s = base.to_string();
                s.insert(i, ch);
                judge_text(&mut t, &s);
                if i < base.len() {
                    let mut s: Vec<char> = base.chars().collect();
                    s[i] = ch;
                    judge_text(&mut t, &s.into_iter().collect::<String>());
                }
            }
        }
    }
    t.into(c);
    // three arbitrary printable characters put before, into and after a number
    let printable: Vec<char> = (32u8..127).map(|b| b as char).collect();
    c.bound("every three printable ASCII characters before, inside and after \"1.5\" and \"7\"");
    for t in par(
        &printable,
        || (),
        |_, _, a| {
            let mut t = Tot::default();
            for b in &printable {
                for d in &printable {
                    if a.is_ascii_digit() && b.is_ascii_digit() && d.is_ascii_digit() {
                        continue;
                    }
                    for base in ["1.5", "7"] {
                        for i in [0, base.len() / 2 + 1, base.len()] {
                            if i == base.len() / 2 + 1 && base.len() == 1 {
                                continue;
                            }
                            judge_text(&mut t, &format!("{}{}{}{}{}", &base[..i], a, b, d, &base[i..]));
                        }
                    }
                }
            }
            t
        },
    ) {
        t.into(c);
    }
    let mut t = Tot::default();
    // around the largest values: each digit of the text changed
    for text in [max().to_string(), dec_text(max()), (max() / e18()).to_string(), (max() + 1).to_string(), dec_text(max() + 1), (max() / e18() + 1).to_string()] {
        for i in 0..=text.len() {
            for ch in "0123456789.".chars() {
                let mut s = text.clone();
                s.insert(i, ch);
                judge_text(&mut t, &s);
                if i < text.len() {
                    let mut s: Vec<char> = text.chars().collect();
                    s[i] = ch;
                    judge_text(&mut t, &s.into_iter().collect::<String>());
                }
            }
        }
    }
    // JSON that is not a text
    for j in ["1", "0", "1.5", "null", "true", "[1]", "{}", "[\"1\"]", "{\"0\":\"1\"}", "-1", "", "\"1", "1\"", "18446744073709551616"] {
        let a = run(|| serde_json::from_str::<Uint256>(j).ok().map(|x| x.0)).flatten();
        let b = run(|| serde_json::from_str::<Decimal256>(j).ok().map(|x| x.0)).flatten();
        t.n += 2;
        if a.is_some() || b.is_some() {
            t.bad(format!("JSON {}", j), format!("the JSON {} is read as {:?} / {:?}", j, a, b));
        }
    }
    t.into(c);
    c.sample(json!({"raw": max().to_string(), "text": Decimal256::MAX.to_string()}));
    c.sample(json!({"text": "1.050", "read": format!("{:?}", Decimal256::from_str("1.050").map(|x| wu(x.0).to_string()).ok())}));
    TRUST
}

// ------------------------------------------------------------------------------------------ C29
fn texts(thorough: bool) -> Vec<String> {
    let mut v: Vec<String> = vec!["".into()];
    let mut last = v.clone();
    for _ in 0..if thorough { 6 } else { 4 } {
        let mut next = vec![];
        for s in &last {
            for ch in ["a", "b", "/"] {
                next.push(format!("{}{}", s, ch));
            }
        }
        v.extend(next.clone());
        last = next;
    }
    v.extend(
        [
            "contract0", "contract1", "contract10", "uatom", "uato", "uatomx", "UATOM", "ibc/27", "ibc/2", "factory/a/b", "halo1", "token0", "token00",
            "ibc/aB", "ibc/Ab", "ibc/ab", "ibc/AB", "IBC/ab", "Uatom", "uAtom", "factory/A/b", "factory/a/B", "ibc/", "ibc", "/", "cw20:a", "native:a", "gamm/pool/1", "gamm/pool/01",
            "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2", "ibc/27394fb092d2eccd56123c74f36e4c1f926001ceada9ca97ea622b25f41e5eb2",
            "\u{0}", "a\u{0}", "a\u{0}\u{0}b", " ", "uatom ", "é", "aura1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq",
        ]
        .iter()
        .map(|s| s.to_string()),
    );
    for n in 1..=60 {
        v.push("x".repeat(n));
    }
    v.sort();
    v.dedup();
    v
}

pub fn c29(c: &Check) -> &'static [&'static str] {
    let ts = texts(c.thorough());
    let api = MockApi::default();
    let mut infos = vec![];
    for t in &ts {
        infos.push(tok(t));
        infos.push(nat(t));
    }
    // texts that look like the stored bytes of a token
    for t in &ts {
        if let Ok(x) = api.addr_canonicalize(t) {
            if let Ok(s) = String::from_utf8(x.to_vec()) {
                infos.push(nat(&s));
            }
        }
    }
    c.bound(format!(
        "every ordered pair of {} descriptions (both kinds, all texts over three characters up to length {}, prefixes, lengths up to 60, stored bytes of tokens as denoms)",
        infos.len(),
        c.b(4, 6)
    ));
    c.add(&c.states, infos.len() as u64);
    let key = |a: &AssetInfo| match a {
        AssetInfo::Token { contract_addr } => (0, contract_addr.clone()),
        AssetInfo::NativeToken { denom } => (1, denom.clone()),
    };
    let raws: Vec<Option<AssetInfoRaw>> = infos.iter().map(|i| run(|| i.to_raw(&api).ok()).flatten()).collect();
    let idx: Vec<usize> = (0..infos.len()).collect();
    for t in par(
        &idx,
        || (),
        |_, _, i| {
            let mut t = Tot::default();
            let a = &infos[*i];
            let native = matches!(a, AssetInfo::NativeToken { .. });
            if a.is_native_token() != native {
                t.bad(format!("kind {:?}", a), format!("is_native_token of {:?}", a));
            }
            // a valid address is one that the chain accepts
            let valid = native || api.addr_validate(&key(a).1).is_ok();
            t.count(raws[*i].is_some());
            match &raws[*i] {
                None if valid => t.bad(format!("raw {:?}", a), format!("{:?} cannot be stored", a)),
                None => {}
                Some(r) => {
                    if native != matches!(r, AssetInfoRaw::NativeToken { .. }) {
                        t.bad(format!("raw kind {:?}", a), format!("{:?} is stored as {:?}", a, r));
                    }
                    let back = run(|| r.to_normal(&api).ok()).flatten();
                    // spellings that are no valid address may come back in normal form
                    if valid && back.as_ref() != Some(a) {
                        t.bad(format!("back {:?}", a), format!("{:?} comes back as {:?}", a, back));
                    }
                    // the stored form, written and read
                    let mut st = MockStorage::new();
                    let item: cw_storage_plus::Item<AssetInfoRaw> = cw_storage_plus::Item::new("i");
                    item.save(&mut st, r).unwrap();
                    let again = item.load(&st as &dyn Storage).ok();
                    if again.as_ref() != Some(r) {
                        t.bad(format!("stored {:?}", a), format!("{:?} is read from the store as {:?}", a, again));
                    }
                    let bytes: Vec<u8> = match r {
                        AssetInfoRaw::NativeToken { denom } => denom.as_bytes().to_vec(),
                        AssetInfoRaw::Token { contract_addr } => contract_addr.to_vec(),
                    };
                    if r.as_bytes() != bytes.as_slice() {
                        t.bad(format!("bytes {:?}", a), format!("key bytes of {:?} are {:?}", a, r.as_bytes()));
                    }
                    for amt in [0, 1, 12_345, u64::MAX as u128 + 1, u128::MAX] {
                        let x = Asset {
                            info: a.clone(),
                            amount: Uint128::new(amt),
                        };
                        t.n += 1;
                        let y: Option<AssetRaw> = run(|| x.to_raw(&api).ok()).flatten();
                        let z = y.as_ref().and_then(|y| run(|| y.to_normal(&api).ok()).flatten());
                        if y.as_ref().map(|y| (&y.info, y.amount.u128())) != Some((r, amt)) || valid && z.as_ref() != Some(&x) {
                            t.bad(format!("asset {:?} {}", a, amt), format!("{:?} is stored as {:?} and comes back as {:?}", x, y, z));
                        }
                        if x.is_native_token() != native {
                            t.bad(format!("asset kind {:?}", a), format!("is_native_token of {:?}", x));
                        }
                        // payment
                        for to in ["alice", "contract7"] {
                            let want: CosmosMsg = if native {
                                BankMsg::Send {
                                    to_address: to.into(),
                                    amount: vec![coin(&key(a).1, amt)],
                                }
                                .into()
                            } else {
                                WasmMsg::Execute {
                                    contract_addr: key(a).1,
                                    msg: cosmwasm_std::to_binary(&cw20::Cw20ExecuteMsg::Transfer {
                                        recipient: to.into(),
                                        amount: Uint128::new(amt),
                                    })
                                    .unwrap(),
                                    funds: vec![],
                                }
                                .into()
                            };
                            let got = run(|| x.clone().into_msg(Addr::unchecked(to)).ok()).flatten();
                            let sub = run(|| x.clone().into_submsg(Addr::unchecked(to)).ok()).flatten().map(|s| s.msg);
                            t.n += 1;
                            if got.as_ref() != Some(&want) || sub.as_ref() != Some(&want) {
                                t.bad(format!("pay {:?} {}", x, to), format!("paying {:?} to {}: {:?} / {:?}", x, to, got, sub));
                            }
                        }
                    }
                }
            }
            // JSON of messages
            let j = cosmwasm_std::to_vec(a).unwrap();
            if cosmwasm_std::from_slice::<AssetInfo>(&j).ok().as_ref() != Some(a) {
                t.bad(format!("json {:?}", a), format!("{:?} does not survive JSON", a));
            }
            for (k, b) in infos.iter().enumerate() {
                let same = key(a) == key(b);
                t.n += 1;
                if a.equal(b) != same || (a == b) != same {
                    t.bad(format!("equal {:?} {:?}", a, b), format!("{:?} equal to {:?}: {}", a, b, a.equal(b)));
                }
                if let (Some(x), Some(y)) = (&raws[*i], &raws[k]) {
                    // the stored form of a token is that of its normal spelling
                    let norm = |i: usize, r: &AssetInfoRaw| match (&infos[i], r) {
                        (AssetInfo::Token { .. }, AssetInfoRaw::Token { contract_addr }) => {
                            (0, api.addr_humanize(contract_addr).map(|a| a.to_string()).unwrap_or_default())
                        }
                        (i, _) => key(i),
                    };
                    let same = norm(*i, x) == norm(k, y);
                    if x.equal(y) != same || (x == y) != same {
                        t.bad(
                            format!("raw equal {:?} {:?}", a, b),
                            format!("stored forms of {:?} and {:?} equal: {}, {}", a, b, x.equal(y), x == y),
                        );
                    }
                }
            }
            t
        },
    ) {
        t.into(c);
    }
    // records of pairs
    let some: Vec<usize> = (0..infos.len()).filter(|i| raws[*i].is_some() && (infos[*i].is_native_token() || api.addr_validate(&key(&infos[*i]).1).is_ok())).step_by(c.b(7, 3)).collect();
    let mut t = Tot::default();
    for i in &some {
        for j in &some {
            let (contract, lp) = ("contract5", "contract6");
            let rq = CreatePairRequirements {
                whitelist: vec![Addr::unchecked("alice")],
                first_asset_minimum: Uint128::new(3),
                second_asset_minimum: Uint128::new(4),
            };
            let raw = PairInfoRaw {
                asset_infos: [raws[*i].clone().unwrap(), raws[*j].clone().unwrap()],
                contract_addr: api.addr_canonicalize(contract).unwrap(),
                liquidity_token: api.addr_canonicalize(lp).unwrap(),
                asset_decimals: [6, 18],
                requirements: rq.clone(),
            };
            let want = PairInfo {
                asset_infos: [infos[*i].clone(), infos[*j].clone()],
                contract_addr: contract.into(),
                liquidity_token: lp.into(),
                asset_decimals: [6, 18],
                requirements: rq,
            };
            t.n += 1;
            let got = run(|| raw.to_normal(&api).ok()).flatten();
            if got.as_ref() != Some(&want) {
                t.bad(format!("pair {:?} {:?}", infos[*i], infos[*j]), format!("the record of {:?} and {:?} comes back as {:?}", infos[*i], infos[*j], got));
            }
        }
    }
    t.into(c);
    payments(c);
    TRUST
}

/// payments executed on a chain: exactly the recipient gains exactly the amount of exactly the asset
fn payments(c: &Check) {
    c.bound("every payment of six assets (one denom spelled like a token's address) between all accounts of a chain, four amounts");
    let mut sp = multi("payments", &[K::T(6), K::T(8), K::N(6), K::N(8), K::N(0)], &[[0, 2]], vec![prov(OWNER, 0, [1_000, 2_000])]);
    sp.natives[1].0 = "contract3".into();
    // the message itself, for recipients of every form of text
    c.bound("the payment message of six assets to 16 forms of recipient, seven amounts");
    let long = "L".repeat(90);
    let mut t = Tot::default();
    for info in [tok("contract3"), tok("TOKEN.a"), tok(""), nat("uatom"), nat("UAtom"), nat("contract3")] {
        for to in ["alice", "Alice", "ALICE", "alice.", ".alice", " alice", "alice ", "a", "", "contract3", "aura1abc", "Aura1ABC", "x/y", "\u{e9}", "0", long.as_str()] {
            for amt in [0u128, 1, 10, 999, 1 << 64, u128::MAX - 1, u128::MAX] {
                let x = Asset {
                    info: info.clone(),
                    amount: Uint128::new(amt),
                };
                let want: cosmwasm_std::CosmosMsg = match &info {
                    AssetInfo::Token { contract_addr } => cosmwasm_std::WasmMsg::Execute {
                        contract_addr: contract_addr.clone(),
                        msg: cosmwasm_std::to_binary(&cw20::Cw20ExecuteMsg::Transfer {
                            recipient: to.into(),
                            amount: Uint128::new(amt),
                        })
                        .unwrap(),
                        funds: vec![],
                    }
                    .into(),
                    AssetInfo::NativeToken { denom } => cosmwasm_std::BankMsg::Send {
                        to_address: to.into(),
                        amount: vec![coin(denom, amt)],
                    }
                    .into(),
                };
                let got = run(|| x.clone().into_msg(Addr::unchecked(to)).ok()).flatten();
                t.count(got.is_some());
                if got.as_ref() != Some(&want) {
                    t.bad(format!("message {:?} {} {}", info, to, amt), format!("paying {:?} to '{}' is {:?}", x, to, got));
                }
            }
        }
    }
    t.into(c);
    let Some((w0, s0, o0)) = make(c, &sp) else { return };
    let froms: Vec<usize> = (0..w0.accts.len()).collect();
    for t in par(
        &froms,
        || w0.base_chain(),
        |app, _, from| {
            let mut t = Tot::default();
            for a in 0..w0.assets.len() {
                for to in 0..w0.accts.len() {
                    let b = o0.bal[a][*from];
                    for amt in [0, 1, b, b.saturating_add(1)] {
                        restore(app, &s0);
                        let x = Asset {
                            info: w0.assets[a].info.clone(),
                            amount: Uint128::new(amt),
                        };
                        let Some(m) = run(|| x.clone().into_msg(Addr::unchecked(&w0.accts[to])).ok()).flatten() else {
                            t.bad(format!("pay {:?}", x), format!("no payment of {:?}", x));
                            continue;
                        };
                        let ok = outcome(guard(|| app.execute(Addr::unchecked(&w0.accts[*from]), m))).ok();
                        t.count(ok);
                        let mut e = o0.clone();
                        if ok {
                            e.bal[a][*from] = e.bal[a][*from].saturating_sub(amt);
                            e.bal[a][to] += amt;
                        }
                        let got = w0.observe(app);
                        if got.as_ref().ok() != Some(&e) || ok && amt > b || !ok && amt > 0 && amt <= b {
                            t.bad(
                                format!("payment {} {} {} {}", a, from, to, amt),
                                format!("paying {} from {} to {}: completed {}, other balances than expected", x, w0.accts[*from], w0.accts[to], ok),
                            );
                        }
                        // what a contract sees of its own holdings
                        let seen = run(|| {
                            let q = app.wrap();
                            w0.assets[a].info.query_pool(&q, &MockApi::default(), Addr::unchecked(&w0.accts[to])).ok()
                        })
                        .flatten()
                        .map(|x| x.u128());
                        if seen != Some(e.bal[a][to]) {
                            t.bad(
                                format!("query_pool {} {}", a, to),
                                format!("query_pool of {} for {}: {:?} instead of {}", w0.assets[a].id(), w0.accts[to], seen, e.bal[a][to]),
                            );
                        }
                    }
                }
            }
            t
        },
    ) {
        t.into(c);
    }
}
