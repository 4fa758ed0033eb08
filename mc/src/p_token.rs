//! C24 (token creation), C25 and C26 (token histories) against an explicit ledger model.
use crate::chain::*;
use crate::explore::*;
use crate::gx::*;
use crate::ops::Disc;
use crate::rep::*;
use cosmwasm_std::{to_binary, Addr, Binary, Uint128, WasmMsg};
use cw20::{
    AllAccountsResponse, AllAllowancesResponse, AllowanceResponse, Cw20Coin, Cw20ExecuteMsg, Cw20QueryMsg, Expiration,
    MinterResponse, TokenInfoResponse,
};
use cw_multi_test::Executor;
use haloswap::token::InstantiateMsg as TInst;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

const TRUST: &[&str] = &[
    "cw-multi-test executes messages and roll-back as a CosmWasm chain does; MockApi address validation stands for the chain's",
    "more accounts, other amounts and longer histories than the bounds are not covered",
];

/// accounts of the ledger; the fourth is a contract that records what it is told
pub const ACC: [&str; 5] = ["alice", "bobby", "alicex", "contract0", "contract1"];
const R: usize = 3;
const BAD: &str = "NoAddress";

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TCfg {
    pub name: String,
    pub bal: [u128; 5],
    pub minter: Option<usize>,
    pub cap: Option<u128>,
    /// prior operations
    pub seeds: Vec<TO>,
    pub full: bool,
    /// few operations, for long histories
    pub tiny: bool,
    /// which part of the alphabet: true: supply and minter, false: transfers and allowances
    pub supply: bool,
    /// if not empty, the whole alphabet
    #[serde(default)]
    pub list: Vec<TO>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Exp {
    Never,
    Height(u64),
    Time(u64),
}
impl Exp {
    fn real(self) -> Expiration {
        match self {
            Exp::Never => Expiration::Never {},
            Exp::Height(h) => Expiration::AtHeight(h),
            Exp::Time(t) => Expiration::AtTime(cosmwasm_std::Timestamp::from_seconds(t)),
        }
    }
    fn over(self, s: &TS) -> bool {
        match self {
            Exp::Never => false,
            Exp::Height(h) => s.height >= h,
            Exp::Time(t) => time(s.height) >= t,
        }
    }
}
/// five seconds per block
fn time(h: u64) -> u64 {
    1_000_000 + 5 * h
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TS {
    pub bal: [u128; 5],
    pub supply: u128,
    pub minter: Option<usize>,
    pub cap: Option<u128>,
    pub allow: BTreeMap<(usize, usize), (u128, Exp)>,
    pub height: u64,
    pub notes: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TO {
    /// recipient None: no valid address
    Transfer { u: usize, to: Option<usize>, amt: u128 },
    Send { u: usize, to: usize, amt: u128 },
    Burn { u: usize, amt: u128 },
    Mint { u: usize, to: Option<usize>, amt: u128 },
    Inc { u: usize, sp: usize, amt: u128, exp: Option<Exp> },
    Dec { u: usize, sp: usize, amt: u128, exp: Option<Exp> },
    TransferFrom { u: usize, owner: usize, to: Option<usize>, amt: u128 },
    SendFrom { u: usize, owner: usize, to: usize, amt: u128 },
    BurnFrom { u: usize, owner: usize, amt: u128 },
    /// inner None: no valid address
    Minter { u: usize, new: Option<Option<usize>> },
    Tick { n: u64 },
    /// marketing text and logo: not described by the properties, but nothing may move
    Market { u: usize },
    Logo { u: usize },
}

enum P {
    Refuse(Vec<&'static str>),
    Accept(TS, Vec<&'static str>),
    /// either outcome; this state if it completes
    Either(TS),
}

pub struct TM {
    pub cfg: TCfg,
    pub token: String,
}
fn hook() -> Binary {
    to_binary(&"payload").unwrap()
}

impl TM {
    pub fn new(cfg: &TCfg) -> Result<(TM, Snap, TS, Vec<Disc>), String> {
        let mut app = new_chain(&[]);
        let m = TM {
            cfg: cfg.clone(),
            token: "contract1".into(),
        };
        create(&mut app, CODE_RECORDER, to_binary(&cosmwasm_std::Empty {}).unwrap()).map_err(|e| e.1)?;
        let t = create(
            &mut app,
            CODE_TOKEN,
            to_binary(&TInst {
                name: "a token".into(),
                symbol: "TOK".into(),
                decimals: 6,
                initial_balances: ACC
                    .iter()
                    .zip(cfg.bal)
                    .filter(|x| x.1 > 0)
                    .map(|(a, b)| Cw20Coin {
                        address: a.to_string(),
                        amount: Uint128::new(b),
                    })
                    .collect(),
                mint: cfg.minter.map(|x| MinterResponse {
                    minter: ACC[x].into(),
                    cap: cfg.cap.map(Uint128::new),
                }),
            })
            .unwrap(),
        )
        .map_err(|e| e.1)?;
        if t != m.token {
            return Err(format!("token at {}", t));
        }
        let mut s = TS {
            bal: cfg.bal,
            supply: cfg.bal.iter().sum(),
            minter: cfg.minter,
            cap: cfg.minter.and(cfg.cap),
            allow: BTreeMap::new(),
            height: 100,
            notes: 0,
        };
        let mut d = vec![];
        m.prepare(&mut app, &s);
        for o in &cfg.seeds {
            match m.step(&mut app, &s, o, &mut d) {
                Some(n) => s = n,
                None => return Err(format!("{:?}: {:?}", o, d)),
            }
            m.prepare(&mut app, &s);
        }
        Ok((m, snap(&app), s, d))
    }

    fn pred(&self, s: &TS, o: &TO) -> P {
        let z = vec!["C26"];
        let mut n = s.clone();
        let mv = |n: &mut TS, from: usize, to: usize, amt: u128| -> bool {
            if n.bal[from] < amt {
                return false;
            }
            n.bal[from] -= amt;
            n.bal[to] += amt;
            true
        };
        let take = |n: &mut TS, owner: usize, sp: usize, amt: u128| -> bool {
            match n.allow.get_mut(&(owner, sp)) {
                Some(a) if !a.1.over(s) && a.0 >= amt => {
                    a.0 -= amt;
                    true
                }
                _ => false,
            }
        };
        match o {
            TO::Transfer { u, to, amt } => match to {
                Some(t) if *amt > 0 && mv(&mut n, *u, *t, *amt) => P::Accept(n, z),
                _ => P::Refuse(z),
            },
            TO::Send { u, to, amt } => {
                if *amt > 0 && *to == R && mv(&mut n, *u, *to, *amt) {
                    n.notes += 1;
                    P::Accept(n, z)
                } else {
                    P::Refuse(z)
                }
            }
            TO::Burn { u, amt } => {
                if *amt == 0 || n.bal[*u] < *amt {
                    return P::Refuse(vec!["C26", "C25"]);
                }
                n.bal[*u] -= amt;
                n.supply -= amt;
                P::Accept(n, vec!["C26", "C25"])
            }
            TO::Mint { u, to, amt } => {
                let t = match to {
                    Some(t) => *t,
                    None => return P::Refuse(vec!["C26", "C25"]),
                };
                if *amt == 0 {
                    return P::Refuse(vec!["C26", "C25"]);
                }
                match (s.minter, s.supply.checked_add(*amt)) {
                    (Some(m), Some(x)) if m == *u && s.cap.map_or(true, |c| x <= c) => {
                        n.supply = x;
                        n.bal[t] += amt;
                        P::Accept(n, vec!["C25", "C26"])
                    }
                    _ => P::Refuse(vec!["C25"]),
                }
            }
            TO::Inc { u, sp, amt, exp } => {
                if u == sp || exp.map_or(false, |e| e.over(s)) {
                    return P::Refuse(z);
                }
                let e = n.allow.entry((*u, *sp)).or_insert((0, Exp::Never));
                match e.0.checked_add(*amt) {
                    Some(x) => e.0 = x,
                    None => return P::Refuse(z),
                }
                if let Some(x) = exp {
                    e.1 = *x;
                }
                P::Accept(n, z)
            }
            TO::Dec { u, sp, amt, exp } => {
                if u == sp {
                    return P::Refuse(z);
                }
                match n.allow.get_mut(&(*u, *sp)) {
                    None => P::Either(s.clone()),
                    Some(a) => {
                        if *amt < a.0 {
                            if exp.map_or(false, |e| e.over(s)) {
                                return P::Refuse(z);
                            }
                            a.0 -= amt;
                            if let Some(x) = exp {
                                a.1 = *x;
                            }
                        } else {
                            n.allow.remove(&(*u, *sp));
                        }
                        P::Accept(n, z)
                    }
                }
            }
            TO::TransferFrom { u, owner, to, amt } => match to {
                Some(t) if take(&mut n, *owner, *u, *amt) && mv(&mut n, *owner, *t, *amt) => {
                    if *amt == 0 {
                        P::Either(n)
                    } else {
                        P::Accept(n, z)
                    }
                }
                _ => P::Refuse(z),
            },
            TO::SendFrom { u, owner, to, amt } => {
                if *to == R && take(&mut n, *owner, *u, *amt) && mv(&mut n, *owner, *to, *amt) {
                    n.notes += 1;
                    if *amt == 0 {
                        P::Either(n)
                    } else {
                        P::Accept(n, z)
                    }
                } else {
                    P::Refuse(z)
                }
            }
            TO::BurnFrom { u, owner, amt } => {
                if !take(&mut n, *owner, *u, *amt) || n.bal[*owner] < *amt {
                    return P::Refuse(vec!["C26", "C25"]);
                }
                n.bal[*owner] -= amt;
                n.supply -= amt;
                if *amt == 0 {
                    P::Either(n)
                } else {
                    P::Accept(n, vec!["C26", "C25"])
                }
            }
            TO::Minter { u, new } => {
                if s.minter != Some(*u) || *new == Some(None) {
                    return P::Refuse(vec!["C25"]);
                }
                n.minter = new.map(|x| x.unwrap());
                if n.minter.is_none() {
                    n.cap = None;
                }
                P::Accept(n, vec!["C25"])
            }
            TO::Market { .. } | TO::Logo { .. } => P::Either(n),
            TO::Tick { n: k } => {
                n.height += k;
                P::Accept(n, vec![])
            }
        }
    }
    fn tiny_ops(&self, s: &TS) -> Vec<TO> {
        let mut v = vec![TO::Tick { n: 1 }];
        for u in [0, 1] {
            let o = 1 - u;
            let b = s.bal[u];
            for amt in [1, b, b.saturating_add(1)] {
                v.push(TO::Transfer { u, to: Some(o), amt });
                v.push(TO::Send { u, to: R, amt });
            }
            v.push(TO::Burn { u, amt: 1 });
            v.push(TO::Inc { u, sp: o, amt: 2, exp: None });
            v.push(TO::Inc { u, sp: o, amt: 1, exp: Some(Exp::Height(s.height + 2)) });
            let cur = s.allow.get(&(u, o)).map_or(0, |x| x.0);
            v.push(TO::Dec { u, sp: o, amt: 1, exp: None });
            v.push(TO::Dec { u, sp: o, amt: cur, exp: None });
            let al = s.allow.get(&(o, u)).map_or(0, |x| x.0);
            for amt in [1, al, al.saturating_add(1)] {
                v.push(TO::TransferFrom { u, owner: o, to: Some(2), amt });
                v.push(TO::SendFrom { u, owner: o, to: R, amt });
                v.push(TO::BurnFrom { u, owner: o, amt });
            }
        }
        v
    }
    fn run(&self, app: &mut Chain, o: &TO) -> Outcome {
        let a = |x: &Option<usize>| x.map_or(BAD.to_string(), |i| ACC[i].to_string());
        let m = |x: &u128| Uint128::new(*x);
        let e = |x: &Option<Exp>| x.map(|e| e.real());
        let (u, msg) = match o {
            TO::Transfer { u, to, amt } => (
                *u,
                Cw20ExecuteMsg::Transfer {
                    recipient: a(to),
                    amount: m(amt),
                },
            ),
            TO::Send { u, to, amt } => (
                *u,
                Cw20ExecuteMsg::Send {
                    contract: ACC[*to].into(),
                    amount: m(amt),
                    msg: hook(),
                },
            ),
            TO::Burn { u, amt } => (*u, Cw20ExecuteMsg::Burn { amount: m(amt) }),
            TO::Mint { u, to, amt } => (
                *u,
                Cw20ExecuteMsg::Mint {
                    recipient: a(to),
                    amount: m(amt),
                },
            ),
            TO::Inc { u, sp, amt, exp } => (
                *u,
                Cw20ExecuteMsg::IncreaseAllowance {
                    spender: ACC[*sp].into(),
                    amount: m(amt),
                    expires: e(exp),
                },
            ),
            TO::Dec { u, sp, amt, exp } => (
                *u,
                Cw20ExecuteMsg::DecreaseAllowance {
                    spender: ACC[*sp].into(),
                    amount: m(amt),
                    expires: e(exp),
                },
            ),
            TO::TransferFrom { u, owner, to, amt } => (
                *u,
                Cw20ExecuteMsg::TransferFrom {
                    owner: ACC[*owner].into(),
                    recipient: a(to),
                    amount: m(amt),
                },
            ),
            TO::SendFrom { u, owner, to, amt } => (
                *u,
                Cw20ExecuteMsg::SendFrom {
                    owner: ACC[*owner].into(),
                    contract: ACC[*to].into(),
                    amount: m(amt),
                    msg: hook(),
                },
            ),
            TO::BurnFrom { u, owner, amt } => (
                *u,
                Cw20ExecuteMsg::BurnFrom {
                    owner: ACC[*owner].into(),
                    amount: m(amt),
                },
            ),
            TO::Minter { u, new } => (
                *u,
                Cw20ExecuteMsg::UpdateMinter {
                    new_minter: new.as_ref().map(a),
                },
            ),
            TO::Market { u } => (
                *u,
                Cw20ExecuteMsg::UpdateMarketing {
                    project: Some("x".into()),
                    description: None,
                    marketing: Some(ACC[*u].into()),
                },
            ),
            TO::Logo { u } => (*u, Cw20ExecuteMsg::UploadLogo(cw20::Logo::Url("x".into()))),
            TO::Tick { .. } => unreachable!(),
        };
        exec(app, ACC[u], &self.token, &msg, &[])
    }
}

impl Model for TM {
    type S = TS;
    type O = TO;
    fn describe(&self) -> Value {
        json!({"kind": "token", "cfg": enc(&self.cfg)})
    }
    fn chain(&self) -> Chain {
        new_chain(&[])
    }
    fn prepare(&self, app: &mut Chain, s: &TS) {
        app.update_block(|b| {
            b.height = s.height;
            b.time = cosmwasm_std::Timestamp::from_seconds(time(s.height));
        });
    }
    fn ops(&self, s: &TS, level: usize) -> Vec<TO> {
        if !self.cfg.list.is_empty() {
            return self.cfg.list.clone();
        }
        if self.cfg.tiny {
            return self.tiny_ops(s);
        }
        let full = self.cfg.full || level == 0;
        let mut v = vec![TO::Tick { n: 1 }];
        if level == 0 {
            v.extend([0, 1, R].map(|u| TO::Market { u }));
            v.extend([0, 1, R].map(|u| TO::Logo { u }));
            v.push(TO::Tick { n: 5_000_000 });
        }
        let us: &[usize] = if full { &[0, 1, 2, R] } else { &[0, 1, R] };
        for &u in us {
            let b = s.bal[u];
            let mut am = vec![0, 1, b, b.saturating_add(1)];
            if full {
                am.extend([b / 2, u128::MAX]);
            }
            am.sort();
            am.dedup();
            for &amt in &am {
                v.push(TO::Burn { u, amt });
                if self.cfg.supply {
                    if amt == 1 {
                        v.push(TO::Transfer { u, to: Some((u + 1) % 3), amt });
                    }
                } else {
                    for to in [Some(0), Some(1), Some(R), None] {
                        if full || to != Some(0) {
                            v.push(TO::Transfer { u, to, amt });
                        }
                    }
                    if full {
                        v.push(TO::Transfer { u, to: Some(4), amt });
                    }
                    v.push(TO::Send { u, to: R, amt });
                    if amt == 1 {
                        v.push(TO::Send { u, to: 1, amt });
                    }
                }
            }
            if self.cfg.supply {
                let room = s.cap.unwrap_or(u128::MAX).saturating_sub(s.supply);
                for amt in [0, 1, room / 2, room, room.saturating_add(1), u128::MAX] {
                    v.push(TO::Mint { u, to: Some(0), amt });
                    v.push(TO::Mint { u, to: Some(u), amt });
                    if full {
                        v.push(TO::Mint { u, to: Some(R), amt });
                    }
                }
                v.push(TO::Mint { u, to: None, amt: 1 });
                for new in [None, Some(None), Some(Some(0)), Some(Some(1)), Some(Some(R))] {
                    v.push(TO::Minter { u, new });
                }
            }
            let sps: Vec<usize> = [0usize, 1, 2, R].into_iter().filter(|x| full || *x < 2 || u == 0).collect();
            for sp in sps {
                let h = s.height;
                if self.cfg.supply {
                    if u == 0 && sp == 1 {
                        v.push(TO::Inc { u, sp, amt: 3, exp: None });
                    }
                } else {
                    let cur = s.allow.get(&(u, sp)).map_or(0, |x| x.0);
                    let mut inc = vec![(3, None), (1, Some(Exp::Height(h + 1))), (1, Some(Exp::Height(h)))];
                    if full {
                        inc.extend([
                            (0, None),
                            (u128::MAX, Some(Exp::Never)),
                            (2, Some(Exp::Time(time(h) + 5))),
                            (2, Some(Exp::Time(time(h)))),
                        ]);
                    }
                    for (amt, exp) in inc {
                        v.push(TO::Inc { u, sp, amt, exp });
                    }
                    let mut dec = vec![(1, None), (cur, None)];
                    if full {
                        dec.extend([
                            (0, None),
                            (cur.saturating_add(1), None),
                            (cur.saturating_sub(1), Some(Exp::Height(h + 2))),
                            (1, Some(Exp::Height(h))),
                            (cur, Some(Exp::Height(h))),
                        ]);
                    }
                    for (amt, exp) in dec {
                        v.push(TO::Dec { u, sp, amt, exp });
                    }
                }
            }
            // delegated: u spends for the owner
            for owner in [0, 1, R] {
                let cur = s.allow.get(&(owner, u)).map_or(0, |x| x.0);
                let mut am = vec![1, cur];
                if cur > 0 {
                    am.extend([cur.saturating_add(1), s.bal[owner], s.bal[owner].saturating_add(1), 0]);
                }
                am.sort();
                am.dedup();
                for amt in am {
                    v.push(TO::BurnFrom { u, owner, amt });
                    if !self.cfg.supply {
                        for to in [Some(2), Some(u), None] {
                            v.push(TO::TransferFrom { u, owner, to, amt });
                        }
                        if full {
                            v.push(TO::TransferFrom { u, owner, to: Some(owner), amt });
                        }
                        v.push(TO::SendFrom { u, owner, to: R, amt });
                        if amt == 1 {
                            // the token's own address is an account like any other, but takes no notices
                            v.push(TO::TransferFrom { u, owner, to: Some(4), amt });
                            v.push(TO::SendFrom { u, owner, to: 2, amt });
                            v.push(TO::SendFrom { u, owner, to: 4, amt });
                        }
                    } else if amt == 1 {
                        v.push(TO::TransferFrom { u, owner, to: Some(2), amt });
                    }
                }
            }
        }
        v
    }
    fn kind(&self, o: &TO) -> &'static str {
        match o {
            TO::Transfer { .. } => "transfer",
            TO::Send { .. } => "send",
            TO::Burn { .. } => "burn",
            TO::Mint { .. } => "mint",
            TO::Inc { .. } => "increase_allowance",
            TO::Dec { .. } => "decrease_allowance",
            TO::TransferFrom { .. } => "transfer_from",
            TO::SendFrom { .. } => "send_from",
            TO::BurnFrom { .. } => "burn_from",
            TO::Minter { .. } => "update_minter",
            TO::Tick { .. } => "block",
            TO::Market { .. } => "marketing",
            TO::Logo { .. } => "logo",
        }
    }
    fn atomic(&self, o: &TO) -> Vec<&'static str> {
        match o {
            TO::Mint { .. } | TO::Minter { .. } => vec!["C25", "C26"],
            _ => vec!["C26"],
        }
    }
    fn step(&self, app: &mut Chain, s: &TS, o: &TO, out: &mut Vec<Disc>) -> Option<TS> {
        let p = self.pred(s, o);
        if let TO::Tick { .. } = o {
            return match p {
                P::Accept(n, _) => {
                    self.prepare(app, &n);
                    Some(n)
                }
                _ => None,
            };
        }
        let r = self.run(app, o);
        match (p, r.ok()) {
            (P::Refuse(_), false) | (P::Either(_), false) => None,
            (P::Refuse(t), true) => {
                out.push((t, format!("{:?} has to be refused but completed in {:?}", o, s)));
                None
            }
            (P::Accept(_, t), false) => {
                out.push((t, format!("{:?} has to be accepted but was {} in {:?}", o, r.describe(), s)));
                None
            }
            (P::Accept(n, _), true) | (P::Either(n), true) => {
                // what the receiving contract was told
                let told = match o {
                    TO::Send { u, amt, .. } | TO::SendFrom { u, amt, .. } => Some((*u, *amt)),
                    _ => None,
                };
                if let Some((u, amt)) = told {
                    match query::<_, RecLast>(app, ACC[R], &RecQuery::Last {}) {
                        Ok(l)
                            if l.token == self.token
                                && l.sender == ACC[u]
                                && l.amount.u128() == amt
                                && l.msg == hook()
                                && l.count == n.notes => {}
                        l => out.push((vec!["C26"], format!("{:?}: the receiving contract was told {:?}", o, l))),
                    }
                }
                Some(n)
            }
        }
    }
    fn judge(&self, app: &mut Chain, s: &TS, out: &mut Vec<Disc>) -> u64 {
        let mut n = 0;
        for i in 0..5 {
            n += 1;
            match token_balance(app, &self.token, ACC[i]) {
                Ok(b) if b == s.bal[i] => {}
                r => out.push((vec!["C26"], format!("{} holds {:?} instead of {}", ACC[i], r, s.bal[i]))),
            }
            for j in 0..5 {
                n += 1;
                let want = s.allow.get(&(i, j)).copied().unwrap_or((0, Exp::Never));
                match query::<_, AllowanceResponse>(
                    app,
                    &self.token,
                    &Cw20QueryMsg::Allowance {
                        owner: ACC[i].into(),
                        spender: ACC[j].into(),
                    },
                ) {
                    Ok(a) if a.allowance.u128() == want.0 && a.expires == want.1.real() => {}
                    r => out.push((
                        vec!["C26"],
                        format!("allowance of {} for {} is {:?} instead of {:?}", ACC[i], ACC[j], r, want),
                    )),
                }
            }
            match query::<_, AllAllowancesResponse>(
                app,
                &self.token,
                &Cw20QueryMsg::AllAllowances {
                    owner: ACC[i].into(),
                    start_after: None,
                    limit: Some(30),
                },
            ) {
                Ok(a) => {
                    let got: BTreeMap<String, u128> =
                        a.allowances.iter().map(|x| (x.spender.clone(), x.allowance.u128())).collect();
                    let want: BTreeMap<String, u128> = s
                        .allow
                        .iter()
                        .filter(|x| x.0 .0 == i)
                        .map(|(k, v)| (ACC[k.1].to_string(), v.0))
                        .collect();
                    // expired entries may or may not be listed
                    let live: BTreeMap<_, _> = want
                        .iter()
                        .filter(|(k, _)| {
                            let j = ACC.iter().position(|a| a == k).unwrap();
                            !s.allow[&(i, j)].1.over(s)
                        })
                        .collect();
                    if got.iter().any(|(k, v)| want.get(k) != Some(v)) || live.iter().any(|(k, _)| !got.contains_key(*k)) {
                        out.push((vec!["C26"], format!("allowances of {}: {:?} instead of {:?}", ACC[i], got, want)));
                    }
                }
                Err(e) => out.push((vec!["C26"], format!("allowances of {}: {}", ACC[i], e))),
            }
        }
        n += 3;
        match token_info(app, &self.token) {
            Ok(t) => {
                if t.total_supply.u128() != s.supply {
                    out.push((vec!["C25"], format!("supply {} instead of {}", t.total_supply, s.supply)));
                }
                if (t.name.as_str(), t.symbol.as_str(), t.decimals) != ("a token", "TOK", 6) {
                    out.push((vec!["C24"], format!("metadata changed: {:?}", t)));
                }
            }
            Err(e) => out.push((vec!["C25"], format!("token info: {}", e))),
        }
        match query::<_, Option<MinterResponse>>(app, &self.token, &Cw20QueryMsg::Minter {}) {
            Ok(m) => {
                let want = s.minter.map(|x| MinterResponse {
                    minter: ACC[x].into(),
                    cap: s.cap.map(Uint128::new),
                });
                if m != want {
                    out.push((vec!["C25"], format!("minter {:?} instead of {:?}", m, want)));
                }
            }
            Err(e) => out.push((vec!["C25"], format!("minter: {}", e))),
        }
        // the sum over all accounts the contract knows
        match query::<_, AllAccountsResponse>(
            app,
            &self.token,
            &Cw20QueryMsg::AllAccounts {
                start_after: None,
                limit: Some(30),
            },
        ) {
            Ok(a) => {
                let mut sum = 0u128;
                for x in &a.accounts {
                    n += 1;
                    sum = sum.saturating_add(token_balance(app, &self.token, x).unwrap_or(0));
                }
                let sup = token_info(app, &self.token).map(|t| t.total_supply.u128()).unwrap_or(0);
                if sum != sup {
                    out.push((vec!["C25"], format!("the balances of {:?} add up to {}, the supply is {}", a.accounts, sum, sup)));
                }
            }
            Err(e) => out.push((vec!["C25"], format!("accounts: {}", e))),
        }
        n
    }
}

fn create(app: &mut Chain, code: u64, msg: Binary) -> Result<String, (bool, String)> {
    guard(|| {
        let r = app.execute(
            Addr::unchecked("owner"),
            WasmMsg::Instantiate {
                admin: None,
                code_id: code,
                msg,
                funds: vec![],
                label: "x".into(),
            }
            .into(),
        )?;
        Ok(cw_utils::parse_instantiate_response_data(r.data.unwrap_or_default().as_slice())?.contract_address)
    })
}

fn explore(c: &Check, cfg: &TCfg, depth: usize, max: usize) {
    match TM::new(cfg) {
        Ok((m, s0, s, d)) => {
            for x in d {
                if x.0.contains(&c.prop) {
                    let mut r = m.describe();
                    r["ops"] = json!("[]");
                    c.viol(Viol {
                        key: format!("setup {} {}", cfg.name, x.1),
                        msg: x.1,
                        replay: r,
                    });
                }
            }
            gbfs(c, &format!("token: {}", cfg.name), &m, s0, s, depth, max)
        }
        Err(e) => {
            // the set-up uses only transitions the properties demand
            c.viol_case(format!("token set-up {}", cfg.name), format!("set-up {}: {}", cfg.name, e));
        }
    }
}
pub fn replay(v: &Value) -> Vec<Disc> {
    let cfg: TCfg = serde_json::from_str(v["cfg"].as_str().unwrap()).unwrap();
    match TM::new(&cfg) {
        Ok((m, s0, s, mut d)) => {
            d.extend(greplay(&m, s0, s, v["ops"].as_str().unwrap()));
            d
        }
        Err(e) => vec![(vec!["C25", "C26"], e)],
    }
}

fn cfg(name: &str, bal: [u128; 5], minter: Option<usize>, cap: Option<u128>) -> TCfg {
    TCfg {
        name: name.into(),
        bal,
        minter,
        cap,
        seeds: vec![],
        full: false,
        tiny: false,
        list: vec![],
        supply: false,
    }
}

/// one operation of each kind, for periodic histories of a token
fn steps(s: &TS) -> Vec<Option<TO>> {
    let m = s.minter;
    let h = s.height;
    let al = |o: usize, u: usize| s.allow.get(&(o, u)).filter(|a| !a.1.over(s)).map_or(0, |a| a.0).min(s.bal[o]);
    let part = |x: u128| x / 3 + 1;
    vec![
        Some(TO::Transfer { u: 0, to: Some(1), amt: part(s.bal[0]) }),
        m.map(|u| TO::Mint { u, to: Some(0), amt: 4 }),
        Some(TO::Inc { u: 0, sp: 1, amt: 5, exp: None }),
        Some(TO::TransferFrom { u: 1, owner: 0, to: Some(2), amt: al(0, 1).min(2) }),
        Some(TO::Burn { u: 0, amt: 1 }),
        m.map(|u| TO::Minter { u, new: Some(Some((u + 1) % 4)) }),
        Some(TO::Tick { n: 1 }),
        Some(TO::BurnFrom { u: 1, owner: 0, amt: al(0, 1).max(1) }),
        Some(TO::SendFrom { u: 1, owner: 0, to: R, amt: 1 }),
        Some(TO::Transfer { u: 1, to: Some(0), amt: s.bal[1] }),
        Some(TO::Dec { u: 0, sp: 1, amt: 1, exp: None }),
        Some(TO::Inc { u: 0, sp: 1, amt: 1, exp: Some(Exp::Height(h + 3)) }),
        Some(TO::Tick { n: 1_000_000 }),
        Some(TO::Send { u: 1, to: R, amt: 1 }),
        Some(TO::Transfer { u: 2, to: Some(2), amt: s.bal[2].max(1) }),
        Some(TO::Mint { u: m.map_or(0, |u| (u + 1) % 4), to: Some(1), amt: 1 }),
        Some(TO::TransferFrom { u: 1, owner: 0, to: Some(1), amt: al(0, 1).saturating_add(1) }),
    ]
}
fn marathons(c: &Check) {
    for mut f in [
        cfg("periodic histories, cap", [50, 40, 0, 3, 0], Some(0), Some(1_000)),
        cfg("periodic histories, no cap", [1 << 70, 4, 1 << 100, 0, 0], Some(1), None),
    ] {
        f.supply = true;
        match TM::new(&f) {
            Ok((m, s, st, _)) => gmarathon(c, &f.name, &m, s, st, c.b(7, 11), c.b(40, 200), 4, &steps),
            Err(e) => c.error(format!("set-up of {}: {}", f.name, e)),
        }
    }
}
/// every operation with amounts of every magnitude, one level
fn magnitudes(c: &Check) {
    let mut am: Vec<u128> = vec![];
    for k in 0..39 {
        let p = 10u128.pow(k);
        am.extend([p - 1, p, p + 1, 2 * p + 1, 3 * p]);
    }
    for k in 0..127 {
        am.extend([(1u128 << k) - 1, 1 << k, (1u128 << k) + 1]);
    }
    am.retain(|x| *x > 0 && *x < u128::MAX / 4);
    am.sort();
    am.dedup();
    let mut f = cfg("amounts of every magnitude", [u128::MAX / 4, u128::MAX / 4, 7, 0, 0], Some(1), Some(u128::MAX - 5));
    f.seeds = vec![TO::Inc { u: 0, sp: 1, amt: u128::MAX / 3, exp: None }];
    f.list = am
        .iter()
        .flat_map(|&amt| {
            [
                TO::Transfer { u: 0, to: Some(1), amt },
                TO::Send { u: 1, to: R, amt },
                TO::Burn { u: 1, amt },
                TO::Mint { u: 1, to: Some(2), amt },
                TO::TransferFrom { u: 1, owner: 0, to: Some(2), amt },
                TO::SendFrom { u: 1, owner: 0, to: R, amt },
                TO::BurnFrom { u: 1, owner: 0, amt },
                TO::Inc { u: 0, sp: 1, amt, exp: None },
                TO::Inc { u: 1, sp: 2, amt, exp: None },
                TO::Dec { u: 0, sp: 1, amt, exp: None },
            ]
        })
        .collect();
    explore(c, &f, 1, 1);
}

pub fn c25(c: &Check) -> &'static [&'static str] {
    let mut list = vec![
        cfg("minter with cap", [5, 4, 0, 0, 0], Some(0), Some(12)),
        cfg("minter without cap", [5, 4, 0, 2, 0], Some(1), None),
        cfg("no minter", [5, 4, 0, 3, 0], None, None),
        cfg("supply at the cap", [7, 0, 0, 0, 0], Some(R), Some(7)),
        cfg("zero cap", [0; 5], Some(0), Some(0)),
        cfg("supply at the limit of the type", [u128::MAX - 9, 4, 0, 0, 0], Some(0), None),
        cfg("cap at the limit of the type", [u128::MAX / 2, 4, 0, 0, 0], Some(1), Some(u128::MAX)),
    ];
    for f in &mut list {
        f.supply = true;
        f.full = c.thorough();
        explore(c, f, c.b(4, 5), c.b(20_000, 60_000));
    }
    // everything else a token does leaves supply and minter alone
    let mut f = cfg("all operations", [5, 4, 0, 3, 0], Some(0), Some(20));
    f.full = c.thorough();
    f.seeds = vec![
        TO::Inc { u: 0, sp: 1, amt: 4, exp: None },
        TO::Mint { u: 0, to: Some(R), amt: 2 },
    ];
    explore(c, &f, c.b(2, 3), c.b(20_000, 60_000));
    magnitudes(c);
    marathons(c);
    TRUST
}

pub fn c26(c: &Check) -> &'static [&'static str] {
    let a = cfg("plain", [5, 4, 0, 0, 0], None, None);
    let mut b = cfg("allowances", [5, 4, 0, 3, 0], Some(0), None);
    b.seeds = vec![
        TO::Inc { u: 0, sp: 1, amt: 3, exp: None },
        TO::Inc { u: 0, sp: R, amt: 9, exp: Some(Exp::Height(102)) },
        TO::Inc { u: R, sp: 0, amt: 2, exp: Some(Exp::Time(time(101))) },
        TO::Inc { u: 1, sp: 0, amt: u128::MAX, exp: None },
    ];
    let mut d = cfg("expired allowances", [5, 4, 0, 3, 0], None, None);
    d.seeds = vec![
        TO::Inc { u: 0, sp: 1, amt: 3, exp: Some(Exp::Height(101)) },
        TO::Inc { u: 1, sp: R, amt: 2, exp: Some(Exp::Time(time(101))) },
        TO::Inc { u: 1, sp: 0, amt: 2, exp: Some(Exp::Never) },
        TO::Tick { n: 1 },
    ];
    let mut e = cfg("huge", [u128::MAX - 5, 3, 2, 0, 0], None, None);
    e.seeds = vec![
        TO::Inc { u: 0, sp: 1, amt: u128::MAX - 1, exp: None },
        TO::Inc { u: R, sp: 2, amt: 1, exp: None },
    ];
    for f in [a, b, d, e] {
        let mut g = f.clone();
        g.full = true;
        explore(c, &g, c.b(2, 3), c.b(5_000, 60_000));
        let mut g = f;
        g.name += ", long histories";
        g.tiny = true;
        explore(c, &g, c.b(4, 6), c.b(20_000, 150_000));
    }
    magnitudes(c);
    marathons(c);
    TRUST
}

// ------------------------------------------------------------------------------------------ C24
#[derive(Clone, Debug)]
struct Inst {
    name: String,
    symbol: String,
    decimals: u8,
    bal: Vec<(String, u128)>,
    mint: Option<(String, Option<u128>)>,
}
fn valid_addr(a: &str) -> bool {
    ACC.contains(&a) || a.starts_with("holder")
}
fn acceptable(i: &Inst) -> bool {
    let n = i.name.len();
    let s = i.symbol.len();
    let mut sum = Some(0u128);
    for (_, b) in &i.bal {
        sum = sum.and_then(|x| x.checked_add(*b));
    }
    let distinct = {
        let mut v: Vec<_> = i.bal.iter().map(|x| &x.0).collect();
        v.sort();
        v.dedup();
        v.len() == i.bal.len()
    };
    (3..=50).contains(&n)
        && (3..=12).contains(&s)
        && i.symbol.chars().all(|c| c.is_ascii_alphabetic() || c == '-')
        && i.decimals <= 18
        && distinct
        && i.bal.iter().all(|x| valid_addr(&x.0))
        && i.mint.as_ref().map_or(true, |m| valid_addr(&m.0))
        && match (sum, i.mint.as_ref().and_then(|m| m.1)) {
            (None, _) => false,
            (Some(s), Some(c)) => s <= c,
            _ => true,
        }
}
fn base_inst() -> Inst {
    Inst {
        name: "a token".into(),
        symbol: "TOK".into(),
        decimals: 6,
        bal: vec![("alice".into(), 5)],
        mint: None,
    }
}

/// creates, judges, restores
fn judge_inst(app: &mut Chain, base: &Snap, i: &Inst) -> (bool, Option<String>) {
    let want = acceptable(i);
    let r = create(
        app,
        CODE_TOKEN,
        to_binary(&TInst {
            name: i.name.clone(),
            symbol: i.symbol.clone(),
            decimals: i.decimals,
            initial_balances: i
                .bal
                .iter()
                .map(|(a, b)| Cw20Coin {
                    address: a.clone(),
                    amount: Uint128::new(*b),
                })
                .collect(),
            mint: i.mint.as_ref().map(|(m, c)| MinterResponse {
                minter: m.clone(),
                cap: c.map(Uint128::new),
            }),
        })
        .unwrap(),
    );
    let mut bad = None;
    match &r {
        Err((_, e)) => {
            if want {
                bad = Some(format!("has to be accepted but was refused: {}", e));
            } else if *snap(app) != **base {
                bad = Some("was refused but changed the state".into());
            }
        }
        Ok(t) => {
            if !want {
                bad = Some("has to be refused but was accepted".into());
            } else {
                let sum: u128 = i.bal.iter().map(|x| x.1).sum();
                let info = token_info(app, t);
                let exp = TokenInfoResponse {
                    name: i.name.clone(),
                    symbol: i.symbol.clone(),
                    decimals: i.decimals,
                    total_supply: Uint128::new(sum),
                };
                if info.as_ref().ok() != Some(&exp) {
                    bad = Some(format!("reports {:?}", info));
                }
                let m = query::<_, Option<MinterResponse>>(app, t, &Cw20QueryMsg::Minter {});
                let em = i.mint.as_ref().map(|(m, c)| MinterResponse {
                    minter: m.clone(),
                    cap: c.map(Uint128::new),
                });
                if m.as_ref().ok() != Some(&em) {
                    bad = Some(format!("reports minter {:?}", m));
                }
                for a in ACC.into_iter().chain(i.bal.iter().map(|x| &x.0[..])) {
                    let b = token_balance(app, t, a);
                    let eb: u128 = i.bal.iter().filter(|x| x.0 == a).map(|x| x.1).sum();
                    if b != Ok(eb) {
                        bad = Some(format!("{} holds {:?} instead of {}", a, b, eb));
                    }
                }
            }
        }
    }
    restore(app, base);
    (r.is_ok(), bad)
}

fn c24_space(thorough: bool) -> Vec<Inst> {
    let b = base_inst();
    let mut v = vec![b.clone()];
    // names: every length, with characters of one to four bytes
    for n in 0..=70usize {
        for ch in ["a", "é", "€", "𝄞", " ", "\u{0}", "-"] {
            let mut i = b.clone();
            i.name = ch.repeat(n);
            v.push(i.clone());
            if n > 0 {
                i.name = format!("{}x", ch.repeat(n - 1));
                v.push(i);
            }
        }
    }
    for n in [255, 256, 259, 306] {
        let mut i = b.clone();
        i.name = "n".repeat(n);
        v.push(i.clone());
        i.name = b.name.clone();
        i.symbol = "S".repeat(n);
        v.push(i);
    }
    // symbols: every length; every character at every position of every allowed length
    for n in 0..=20usize {
        for ch in ["A", "z", "-", "é", "1"] {
            let mut i = b.clone();
            i.symbol = ch.repeat(n);
            v.push(i);
        }
    }
    let chars: Vec<char> = (0u32..=0x17f).chain([0x20ac, 0xff21, 0x1d400]).filter_map(char::from_u32).collect();
    let lens: Vec<usize> = if thorough { (3..=12).collect() } else { vec![3, 7, 12] };
    for len in lens {
        for p in 0..len {
            for ch in &chars {
                let mut s: Vec<char> = "AbC-xYzKqWeR".chars().take(len).collect();
                s[p] = *ch;
                let mut i = b.clone();
                i.symbol = s.into_iter().collect();
                v.push(i);
            }
        }
    }
    // two characters at once
    let edge = ['@', 'A', 'Z', '[', '`', 'a', 'z', '{', '-', ',', '.', '0', '9', '_', ' '];
    for x in edge {
        for y in edge {
            for z in edge {
                let mut i = b.clone();
                i.symbol = [x, y, z].iter().collect();
                v.push(i);
            }
        }
    }
    // decimals
    for d in 0..=255u8 {
        let mut i = b.clone();
        i.decimals = d;
        v.push(i.clone());
        i.mint = Some(("bobby".into(), Some(5)));
        v.push(i);
    }
    // holders, minters and caps
    let who = ["alice", "bobby", "contract0", BAD, ""];
    let am = [0u128, 1, 7, u128::MAX / 2, u128::MAX - 1, u128::MAX];
    let mut lists: Vec<Vec<(String, u128)>> = vec![vec![]];
    let mut last = lists.clone();
    for n in 0..3 {
        let mut next = vec![];
        for l in &last {
            for a in who {
                for x in am {
                    if n == 2 && !thorough && (x == u128::MAX - 1 || a.is_empty()) {
                        continue;
                    }
                    let mut l = l.clone();
                    l.push((a.to_string(), x));
                    next.push(l);
                }
            }
        }
        lists.extend(next.clone());
        last = next;
    }
    for l in lists {
        let sum = l.iter().fold(0u128, |s, x| s.saturating_add(x.1));
        let mut mints: Vec<Option<(String, Option<u128>)>> = vec![None, Some(("bobby".into(), None))];
        let mut caps = vec![0, sum.saturating_sub(1), sum, sum.saturating_add(1), u128::MAX];
        // the cap against single balances
        caps.extend(l.iter().map(|x| x.1));
        caps.sort();
        caps.dedup();
        if l.len() == 3 && !thorough {
            caps.retain(|c| *c == sum || *c == sum.saturating_sub(1));
        }
        for cap in caps {
            mints.push(Some(("alice".into(), Some(cap))));
        }
        if l.len() < 3 || thorough {
            mints.push(Some((BAD.into(), None)));
            mints.push(Some(("".into(), Some(sum))));
        }
        for m in mints {
            let mut i = b.clone();
            i.bal = l.clone();
            i.mint = m;
            v.push(i);
        }
    }
    // many holders: distinct, with one twice in every place, with a bad address, sums over the limit
    for n in [4usize, 5, 8, 9, 10, 11, 16, 17, 30, 31, 33, 65, 101, 257] {
        let l: Vec<(String, u128)> = (0..n).map(|k| (format!("holder{}", k), 1 + k as u128)).collect();
        let sum: u128 = l.iter().map(|x| x.1).sum();
        let mut lists = vec![l.clone()];
        for at in [0, 1, n / 2, n - 2, n - 1] {
            for of in [0, n / 2, n - 1] {
                if at != of {
                    let mut x = l.clone();
                    x[at].0 = x[of].0.clone();
                    lists.push(x);
                }
            }
            for bad in [BAD, ""] {
                let mut x = l.clone();
                x[at].0 = bad.to_string();
                lists.push(x);
            }
            // the sum just fits, or does not
            for over in [0, 1] {
                let mut x = l.clone();
                x[at].1 = u128::MAX - (sum - l[at].1) + over;
                lists.push(x);
            }
            let mut x = l.clone();
            x[at].1 = 0;
            lists.push(x);
        }
        for l in lists {
            let sum = l.iter().fold(0u128, |s, x| s.saturating_add(x.1));
            for m in [None, Some(("bobby".to_string(), None)), Some(("alice".into(), Some(sum))), Some(("alice".into(), Some(sum - 1))), Some(("holder0".into(), Some(sum - l[n - 1].1)))] {
                let mut i = b.clone();
                i.bal = l.clone();
                i.mint = m;
                v.push(i);
            }
        }
    }
    // combinations of limits
    for name in ["ab", "abc", &"x".repeat(50), &"x".repeat(51)] {
        for symbol in ["AB", "ABC", "ABCDEFGHIJKL", "ABCDEFGHIJKLM", "A1C", "---"] {
            for decimals in [0, 18, 19] {
                for bal in [vec![], vec![("alice".to_string(), 1u128)], vec![("alice".to_string(), 1), ("alice".to_string(), 1)]] {
                    for mint in [None, Some(("bobby".to_string(), Some(0u128))), Some(("bobby".to_string(), Some(1))), Some((BAD.to_string(), None))] {
                        v.push(Inst { name: name.to_string(), symbol: symbol.into(), decimals, bal: bal.clone(), mint });
                    }
                }
            }
        }
    }
    v
}

pub fn c24(c: &Check) -> &'static [&'static str] {
    let space = c24_space(true);
    c.bound("names of every length 0..70 (and above) in one- to four-byte characters; symbols of every length 0..20, every character up to U+017F at every position, all triples of edge characters; decimals 0..255; up to three initial holders with every combination of addresses and amounts, minters and caps around the sum; fourteen lists of 4..257 holders, distinct, repeated, invalid or over the limit at five places; all combinations of limits");
    let idx: Vec<usize> = (0..space.len()).collect();
    let res = par(
        &idx,
        || {
            let app = new_chain(&[]);
            let s = snap(&app);
            (app, s)
        },
        |(app, s), _, i| judge_inst(app, s, &space[*i]),
    );
    let (mut ok, mut no) = (0, 0);
    for (i, (done, bad)) in res.into_iter().enumerate() {
        if done {
            ok += 1;
        } else {
            no += 1;
        }
        if i % (space.len() / 8) == 5 {
            c.sample(json!({"instantiate": format!("{:?}", space[i]), "accepted": done}));
        }
        if let Some(b) = bad {
            c.viol_case(format!("{:?}", space[i]), format!("creating {:?} {}", space[i], b));
        }
    }
    let n = ok + no;
    c.add(&c.states, ok + 1);
    c.add(&c.transitions, n);
    c.add(&c.conform, n);
    c.add(&c.traces, n);
    c.add(&c.completed, ok);
    c.add(&c.refused, no);
    c.kind("create accepted", ok);
    c.kind("create refused", no);
    // the metadata stays as it was whatever is done with the token
    let mut f = cfg("metadata over time", [5, 4, 0, 3, 0], Some(0), Some(20));
    f.supply = true;
    explore(c, &f, 2, c.b(100, 1_000));
    TRUST
}
