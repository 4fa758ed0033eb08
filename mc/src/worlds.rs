//! Specs and operation shorthands shared by the checks.
use crate::ops::*;
use crate::refmodel::*;

pub const RICH: [u128; 5] = [1 << 127, 1 << 126, 1 << 125, 1 << 124, 1 << 123];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    T(u8),
    N(u8),
}
pub const DENOMS: [&str; 6] = ["uatom", "uaura", "ibc/27", "factory/a/b", "uato", "uatomx"];

/// one pair over two assets of the given kinds; the pair's first asset is `k[0]`
pub fn one(name: &str, k: [K; 2], seeds: Vec<Op>) -> Spec {
    multi(name, &k, &[[0, 1]], seeds)
}
/// position in the world's asset list (tokens first, natives after them) of the i-th of `ks`
pub fn pos(ks: &[K], i: usize) -> usize {
    let nt = ks.iter().filter(|k| matches!(k, K::T(_))).count();
    match ks[i] {
        K::T(_) => ks[..i].iter().filter(|k| matches!(k, K::T(_))).count(),
        K::N(_) => nt + ks[..i].iter().filter(|k| matches!(k, K::N(_))).count(),
    }
}
pub fn multi(name: &str, ks: &[K], pairs: &[[usize; 2]], seeds: Vec<Op>) -> Spec {
    let mut tokens = vec![];
    let mut natives = vec![];
    for k in ks {
        match k {
            K::T(d) => tokens.push((*d, RICH)),
            K::N(d) => {
                let n = natives.len();
                natives.push((DENOMS[n].to_string(), *d, RICH))
            }
        }
    }
    Spec {
        name: format!("{} {:?}", name, ks),
        tokens,
        natives,
        pairs: pairs
            .iter()
            .map(|p| PairSpec {
                assets: [pos(ks, p[0]), pos(ks, p[1])],
                whitelist: vec![OWNER],
                mins: [0, 0],
            })
            .collect(),
        allowance: BIG_ALLOWANCE,
        seeds,
        names: vec![],
        contracts: false,
        fillers: vec![],
    }
}

pub fn prov(u: usize, pair: usize, d: [u128; 2]) -> Op {
    Op::Provide {
        u,
        pair,
        d,
        rev: false,
        tol: None,
        to: None,
        declared: None,
        funds: None,
    }
}
pub fn prov_full(u: usize, pair: usize, d: [u128; 2], rev: bool, tol: Option<u128>, to: Option<usize>) -> Op {
    Op::Provide {
        u,
        pair,
        d,
        rev,
        tol,
        to,
        declared: None,
        funds: None,
    }
}
pub fn swap(u: usize, pair: usize, side: usize, amt: u128) -> Op {
    Op::Swap {
        u,
        pair,
        side,
        amt,
        belief: None,
        max: None,
        to: None,
    }
}
pub fn wd(u: usize, pair: usize, amt: u128) -> Op {
    Op::Withdraw { u, pair, amt }
}
pub fn give(u: usize, asset: usize, to: usize, amt: u128) -> Op {
    Op::Transfer { u, asset, to, amt }
}
/// donates to a pair (account index of pair p is PAIR0 + p)
pub fn donate(u: usize, asset: usize, pair: usize, amt: u128) -> Op {
    give(u, asset, PAIR0 + pair, amt)
}

pub fn magnitudes(thorough: bool) -> Vec<u128> {
    let mut v = vec![
        1,
        2,
        1_000,
        999_999,
        1_000_000_007,
        E18 - 1,
        E18,
        u64::MAX as u128,
        1 << 64,
        1_000_000 * E18 + 1,
        (1 << 96) - 1,
        1 << 120,
    ];
    if thorough {
        v.extend([
            3,
            7,
            333,
            997,
            1_003,
            10_000_000_000,
            E18 + 1,
            (1 << 64) + 1,
            1_000_000_000 * E18,
            340_282_366_920_938_463_463,
            340_282_366_920_938_463_464,
            1 << 100,
            (1 << 110) + 12_345,
            (1 << 125) - 1,
            (1 << 126) - 3,
        ]);
        v.sort();
    }
    v
}

/// the amounts worth offering to a reserve
pub fn amounts_for(r: u128) -> Vec<u128> {
    let mut v = vec![1, 3];
    if r > 6 {
        v.push(r / 2 + 1);
    }
    v.push(r.saturating_mul(3).saturating_add(1));
    v.dedup();
    v
}

/// adds accounts whose names resemble the users' and the addresses of the first pair, its LP token and its
/// first asset, and makes the tokens accounts of the world
pub fn peopled(mut s: Spec) -> Spec {
    let nt = s.tokens.len();
    s.names = ["alicex", "alic", "lice", "mall", "malloryx", "bobb"].map(String::from).to_vec();
    s.names.push("contract".into());
    s.names.push("contract3x".into());
    s.names.push(format!("contract{}x", 3 + nt));
    s.names.push(format!("contract{}x", 4 + nt));
    s.contracts = true;
    s
}
