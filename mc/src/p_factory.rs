//! C14–C18 (factory) as a model checked in lock step, C30 (migration).
use crate::chain::*;
use crate::explore::*;
use crate::gx::*;
use crate::ops::{Disc, World, USERS};
use crate::rep::*;
use cosmwasm_std::{Addr, Coin, Uint128, WasmMsg};
use cw_multi_test::Executor;
use haloswap::asset::{Asset, AssetInfo, CreatePairRequirements, PairInfo};
use haloswap::factory::{
    ConfigResponse, ExecuteMsg as FExec, InstantiateMsg as FInst, NativeTokenDecimalsResponse, PairsResponse,
    QueryMsg as FQuery,
};
use haloswap::pair::{ExecuteMsg as PExec, PoolResponse, QueryMsg as PQuery};
use haloswap::token::InstantiateMsg as TInst;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const TRUST: &[&str] = &[
    "cw-multi-test executes messages, sub-messages, replies, migrations and roll-back as a CosmWasm chain does",
    "MockApi address validation stands for the chain's: an address is valid when it is written in its normal form",
    "sets of assets, users and codes and history lengths beyond the bounds are not covered",
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FCfg {
    pub name: String,
    /// decimals of token contracts
    pub tokens: Vec<u8>,
    /// denoms that exist in the bank; (denom, registered decimals at the start, funded at the start)
    pub denoms: Vec<(String, Option<u8>, bool)>,
    /// indices of assets used in creations: tokens, then denoms, then odd assets
    pub odd: Vec<AssetInfo>,
    /// which operations are in the alphabet
    pub create: Vec<usize>,
    pub creators: Vec<usize>,
    pub reqs: usize,
    pub register: Vec<(usize, usize, u8)>,
    pub fund: Vec<usize>,
    pub updates: Vec<(usize, Option<String>, Option<u64>, Option<u64>)>,
    pub migrate: Vec<(usize, Option<u64>)>,
    pub factory_migrate: bool,
    pub seed: bool,
    /// pairs created before the exploration, by asset index
    pub start: Vec<[usize; 2]>,
    /// sets of coins (denoms by index) sent along with creations, registrations, updates, migrations
    #[serde(default)]
    pub along: Vec<Vec<(usize, u128)>>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FP {
    pub a: [usize; 2],
    pub decs: [u8; 2],
    pub req: usize,
    pub contract: String,
    pub lp: String,
    pub code: u64,
    pub token_code: u64,
    pub funded: bool,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FS {
    pub owner: String,
    pub pair_code: u64,
    pub token_code: u64,
    pub dec: BTreeMap<String, u8>,
    pub bal: BTreeMap<String, u128>,
    pub pairs: Vec<FP>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FO {
    Create { u: usize, a: usize, b: usize, req: usize },
    Register { u: usize, denom: usize, dec: u8 },
    Fund { denom: usize },
    Update { u: usize, owner: Option<String>, token: Option<u64>, pair: Option<u64> },
    MigratePair { u: usize, pair: usize, code: Option<u64> },
    /// migration of the pair contract by an account, not through the factory
    MigrateDirect { u: usize, pair: usize, code: u64 },
    MigrateFactory,
    Seed { pair: usize },
    Wait { blocks: u64 },
    /// the operation with coins sent along
    With { funds: Vec<(usize, u128)>, op: Box<FO> },
}

pub struct FM {
    pub cfg: FCfg,
    pub bank: Vec<(String, Vec<Coin>)>,
    pub factory: String,
    pub assets: Vec<AssetInfo>,
}

fn req(i: usize) -> CreatePairRequirements {
    match i {
        0 => CreatePairRequirements {
            whitelist: vec![],
            first_asset_minimum: Uint128::zero(),
            second_asset_minimum: Uint128::zero(),
        },
        1 => CreatePairRequirements {
            whitelist: vec![Addr::unchecked("owner"), Addr::unchecked("bobby")],
            first_asset_minimum: Uint128::new(3),
            second_asset_minimum: Uint128::new(9),
        },
        _ => CreatePairRequirements {
            whitelist: vec![Addr::unchecked("owner")],
            first_asset_minimum: Uint128::new(12_345_678_901_234_567_890_123),
            second_asset_minimum: Uint128::new(1),
        },
    }
}

/// callers beyond the users: contracts of the world, and accounts whose names resemble the users'
pub const C_FACTORY: usize = 10;
pub const C_TOKEN: usize = 12;
pub const C_PAIR: usize = 13;
pub const C_LP: usize = 14;
pub const CALLERS: std::ops::Range<usize> = C_FACTORY..20;
impl FM {
    pub fn who(&self, u: usize, s: &FS) -> Option<String> {
        Some(match u {
            C_FACTORY => self.factory.clone(),
            11 => "contract1".into(),
            C_TOKEN => match self.assets.first() {
                Some(AssetInfo::Token { contract_addr }) => contract_addr.clone(),
                _ => return None,
            },
            C_PAIR => s.pairs.first()?.contract.clone(),
            C_LP => s.pairs.first()?.lp.clone(),
            15 => "ownerx".into(),
            16 => "owne".into(),
            17 => "ownes".into(),
            18 => "contract".into(),
            19 => "alicex".into(),
            _ => USERS[u].to_string(),
        })
    }
    pub fn new(cfg: &FCfg) -> Result<(FM, Snap, FS), String> {
        let mut bank = vec![];
        for u in USERS {
            let mut c: Vec<Coin> = cfg.denoms.iter().map(|d| coin(&d.0, 1_000_000)).collect();
            c.sort_by(|a, b| a.denom.cmp(&b.denom));
            bank.push((u.to_string(), c));
        }
        let mut app = new_chain(&bank);
        let inst = |app: &mut Chain, code: u64, msg: cosmwasm_std::Binary| -> Result<String, String> {
            guard(|| {
                let r = app.execute(
                    Addr::unchecked("owner"),
                    WasmMsg::Instantiate {
                        admin: Some("owner".into()),
                        code_id: code,
                        msg,
                        funds: vec![],
                        label: "x".into(),
                    }
                    .into(),
                )?;
                Ok(cw_utils::parse_instantiate_response_data(r.data.unwrap_or_default().as_slice())?.contract_address)
            })
            .map_err(|e| e.1)
        };
        let b = |m: &dyn crate::ops::erased::Ser| m.to_bin();
        let factory = inst(
            &mut app,
            CODE_FACTORY,
            b(&FInst {
                pair_code_id: CODE_PAIR,
                token_code_id: CODE_TOKEN,
            }),
        )?;
        inst(&mut app, CODE_RECORDER, b(&cosmwasm_std::Empty {}))?;
        let mut assets = vec![];
        for (i, d) in cfg.tokens.iter().enumerate() {
            let a = inst(
                &mut app,
                CODE_TOKEN,
                b(&TInst {
                    name: format!("token {}", i),
                    symbol: "TOK".into(),
                    decimals: *d,
                    initial_balances: vec![cw20::Cw20Coin {
                        address: "owner".into(),
                        amount: Uint128::new(1_000_000),
                    }],
                    mint: None,
                }),
            )?;
            assets.push(tok(&a));
        }
        let mut s = FS {
            owner: "owner".into(),
            pair_code: CODE_PAIR,
            token_code: CODE_TOKEN,
            dec: BTreeMap::new(),
            bal: BTreeMap::new(),
            pairs: vec![],
        };
        for (d, dec, funded) in &cfg.denoms {
            assets.push(nat(d));
            if *funded {
                guard(|| app.send_tokens(Addr::unchecked("owner"), Addr::unchecked(&factory), &[coin(d, 1)]))
                    .map_err(|e| e.1)?;
                s.bal.insert(d.clone(), 1);
            }
            if let Some(x) = dec {
                let o = exec(
                    &mut app,
                    "owner",
                    &factory,
                    &FExec::AddNativeTokenDecimals {
                        denom: d.clone(),
                        decimals: *x,
                    },
                    &[],
                );
                if !o.ok() {
                    return Err(format!("registering {}: {}", d, o.describe()));
                }
                s.dec.insert(d.clone(), *x);
            }
        }
        assets.extend(cfg.odd.clone());
        let m = FM {
            cfg: cfg.clone(),
            bank,
            factory,
            assets,
        };
        for (i, p) in cfg.start.iter().enumerate() {
            let mut out = vec![];
            match m.step(
                &mut app,
                &s,
                &FO::Create {
                    u: i % 2,
                    a: p[0],
                    b: p[1],
                    req: i % 2,
                },
                &mut out,
            ) {
                Some(n) => s = n,
                None => return Err(format!("creating {:?}: {:?}", p, out)),
            }
        }
        let sn = snap(&app);
        Ok((m, sn, s))
    }
    fn text(&self, i: usize) -> String {
        match &self.assets[i] {
            AssetInfo::Token { contract_addr } => contract_addr.clone(),
            AssetInfo::NativeToken { denom } => denom.clone(),
        }
    }
    fn decimals(&self, s: &FS, i: usize) -> Option<u8> {
        if i < self.cfg.tokens.len() {
            return Some(self.cfg.tokens[i]);
        }
        match &self.assets[i] {
            AssetInfo::NativeToken { denom } => s.dec.get(denom).copied(),
            _ => None,
        }
    }
    fn coins(&self, f: &[(usize, u128)]) -> Vec<Coin> {
        let mut v: Vec<Coin> = f.iter().map(|x| coin(&self.cfg.denoms[x.0].0, x.1)).collect();
        v.sort_by(|a, b| a.denom.cmp(&b.denom));
        v
    }
    /// every coin the account holds
    fn holds(&self, app: &Chain, who: &str) -> Vec<(String, u128)> {
        self.cfg
            .denoms
            .iter()
            .map(|d| (d.0.clone(), bank_balance(app, who, &d.0)))
            .filter(|x| x.1 > 0)
            .collect()
    }
    fn find(&self, s: &FS, a: usize, b: usize) -> Option<usize> {
        s.pairs.iter().position(|p| p.a == [a, b] || p.a == [b, a])
    }
    fn pair_q(&self, app: &Chain, a: &AssetInfo, b: &AssetInfo) -> Result<PairInfo, String> {
        query(
            app,
            &self.factory,
            &FQuery::Pair {
                asset_infos: [a.clone(), b.clone()],
            },
        )
    }
    fn expected(&self, p: &FP) -> PairInfo {
        PairInfo {
            asset_infos: [self.assets[p.a[0]].clone(), self.assets[p.a[1]].clone()],
            contract_addr: p.contract.clone(),
            liquidity_token: p.lp.clone(),
            asset_decimals: p.decs,
            requirements: req(p.req),
        }
    }
    fn step_with(&self, app: &mut Chain, s: &FS, o: &FO, funds: &[(usize, u128)], out: &mut Vec<Disc>) -> Option<FS> {
        let by = |u: usize| self.who(u, s).unwrap_or_default();
        let f = self.factory.clone();
        let along = self.coins(funds);
        let held = |app: &Chain| -> BTreeMap<String, u128> { self.holds(app, &f).into_iter().collect() };
        match o {
            FO::Create { u, a, b, req: r } => {
                let existed = self.find(s, *a, *b);
                let (da, db) = (self.decimals(s, *a), self.decimals(s, *b));
                let valid = a != b && da.is_some() && db.is_some();
                let codes_ok = [CODE_PAIR, CODE_PAIR2].contains(&s.pair_code) && [CODE_TOKEN, CODE_TOKEN2].contains(&s.token_code);
                let res = exec(
                    app,
                    &by(*u),
                    &f,
                    &FExec::CreatePair {
                        asset_infos: [self.assets[*a].clone(), self.assets[*b].clone()],
                        requirements: req(*r),
                    },
                    &along,
                );
                if !res.ok() {
                    if valid && existed.is_none() && codes_ok && funds.is_empty() {
                        // is it the recorded collision of two concatenated denoms?
                        let cat = |x: usize, y: usize| {
                            let mut t = [self.text(x), self.text(y)];
                            t.sort();
                            (t.concat(), t.join("+"))
                        };
                        let me = cat(*a, *b);
                        let nt = self.cfg.tokens.len();
                        let clash = s
                            .pairs
                            .iter()
                            .filter(|p| p.a.iter().all(|i| *i >= nt) && *a >= nt && *b >= nt)
                            .map(|p| cat(p.a[0], p.a[1]))
                            .find(|x| x.0 == me.0);
                        let note = match clash {
                            Some(x) => format!(" [key=collision:{}/{}]", me.1, x.1),
                            None => String::new(),
                        };
                        let mut tags = vec!["C14"];
                        if note.is_empty() {
                            tags.push("C15");
                        }
                        out.push((
                            tags,
                            format!(
                                "creating the pair {} / {} has to be accepted but was {}{}",
                                self.text(*a),
                                self.text(*b),
                                res.describe(),
                                note
                            ),
                        ));
                    }
                    return None;
                }
                if existed.is_some() {
                    out.push((vec!["C14"], format!("{:?}: the pair {} / {} was created again", o, self.text(*a), self.text(*b))));
                }
                if !valid {
                    out.push((vec!["C15"], format!("{:?}: a pair of {} / {} was created", o, self.text(*a), self.text(*b))));
                    return None;
                }
                if !codes_ok {
                    out.push((vec!["C15", "C17"], format!("{:?}: a pair was created with the configured codes {} and {}", o, s.pair_code, s.token_code)));
                    return None;
                }
                if existed.is_some() {
                    return None;
                }
                let mut n = s.clone();
                let pi = match self.pair_q(app, &self.assets[*a], &self.assets[*b]) {
                    Ok(p) => p,
                    Err(e) => {
                        out.push((vec!["C14"], format!("{:?}: the created pair cannot be looked up: {}", o, e)));
                        return None;
                    }
                };
                let (own, lp) = (pi.contract_addr.clone(), pi.liquidity_token.clone());
                if s.pairs.iter().any(|p| p.contract == own || p.lp == lp) {
                    out.push((vec!["C14", "C15"], format!("{:?}: the new record names an existing pair's contract or LP token", o)));
                }
                for x in [&own, &lp] {
                    let h = self.holds(app, x);
                    if !h.is_empty() {
                        out.push((vec!["C15"], format!("{:?} with {:?}: the new contract {} holds {:?}", o, along, x, h)));
                    }
                }
                // the new pair itself
                match app.contract_data(&Addr::unchecked(&own)) {
                    Ok(d) => {
                        if d.code_id as u64 != s.pair_code {
                            out.push((vec!["C15", "C17"], format!("{:?}: the pair runs code {} instead of {}", o, d.code_id, s.pair_code)));
                        }
                        if d.admin.as_ref().map(|x| x.as_str()) != Some(f.as_str()) {
                            out.push((vec!["C15", "C30"], format!("{:?}: the pair is administered by {:?}", o, d.admin)));
                        }
                    }
                    Err(e) => out.push((vec!["C15"], format!("{:?}: no such contract {}", o, e))),
                }
                match app.contract_data(&Addr::unchecked(&lp)) {
                    Ok(d) => {
                        if d.code_id as u64 != s.token_code {
                            out.push((vec!["C15", "C17"], format!("{:?}: the LP token runs code {} instead of {}", o, d.code_id, s.token_code)));
                        }
                        if d.creator.as_str() != own {
                            out.push((vec!["C15"], format!("{:?}: the LP token was made by {}", o, d.creator)));
                        }
                    }
                    Err(e) => out.push((vec!["C15"], format!("{:?}: no such LP token {}", o, e))),
                }
                match query::<_, PoolResponse>(app, &own, &PQuery::Pool {}) {
                    Ok(p) => {
                        if !p.total_share.is_zero() || p.assets.iter().any(|x| !x.amount.is_zero()) {
                            out.push((vec!["C15"], format!("{:?}: the new pair has funds {:?}", o, p)));
                        }
                    }
                    Err(e) => out.push((vec!["C15"], format!("{:?}: pool query of the new pair failed: {}", o, e))),
                }
                n.pairs.push(FP {
                    a: [*a, *b],
                    decs: [da.unwrap(), db.unwrap()],
                    req: *r,
                    contract: own,
                    lp,
                    code: s.pair_code,
                    token_code: s.token_code,
                    funded: false,
                });
                n.bal = held(app);
                Some(n)
            }
            FO::Register { u, denom, dec } => {
                let d = &self.cfg.denoms[*denom].0;
                let sent = along.iter().find(|c| c.denom == *d).map_or(0, |c| c.amount.u128());
                let must = by(*u) == s.owner && s.bal.get(d).copied().unwrap_or(0) + sent > 0;
                let res = exec(
                    app,
                    &by(*u),
                    &f,
                    &FExec::AddNativeTokenDecimals {
                        denom: d.clone(),
                        decimals: *dec,
                    },
                    &along,
                );
                if res.ok() != must {
                    let mut t = vec!["C18"];
                    if by(*u) != s.owner || res.ok() != must && by(*u) == s.owner && must {
                        t.push("C17");
                    }
                    out.push((t, format!("{:?} with {:?} (owner {}, factory holds {:?}): {}", o, along, s.owner, s.bal.get(d), res.describe())));
                }
                if !res.ok() {
                    return None;
                }
                let mut n = s.clone();
                n.dec.insert(d.clone(), *dec);
                n.bal = held(app);
                Some(n)
            }
            FO::Fund { denom } => {
                let d = &self.cfg.denoms[*denom].0;
                guard(|| app.send_tokens(Addr::unchecked("carol"), Addr::unchecked(&f), &[coin(d, 1)])).ok()?;
                let mut n = s.clone();
                n.bal.insert(d.clone(), 1);
                Some(n)
            }
            FO::Update { u, owner, token, pair } => {
                let ok_addr = owner.as_ref().map_or(true, |x| {
                    x.len() >= 3 && x.len() <= 54 && *x == x.to_lowercase()
                });
                let must = by(*u) == s.owner && ok_addr;
                let res = exec(
                    app,
                    &by(*u),
                    &f,
                    &FExec::UpdateConfig {
                        owner: owner.clone(),
                        token_code_id: *token,
                        pair_code_id: *pair,
                    },
                    &along,
                );
                if res.ok() != must && (funds.is_empty() || res.ok()) {
                    out.push((vec!["C17"], format!("{:?} (owner {}): {}", o, s.owner, res.describe())));
                }
                if !res.ok() {
                    return None;
                }
                let mut n = s.clone();
                if let Some(x) = owner {
                    n.owner = x.clone();
                }
                if let Some(x) = token {
                    n.token_code = *x;
                }
                if let Some(x) = pair {
                    n.pair_code = *x;
                }
                n.bal = held(app);
                Some(n)
            }
            FO::MigratePair { u, pair, code } => {
                let target = code.unwrap_or(s.pair_code);
                let res = exec(
                    app,
                    &by(*u),
                    &f,
                    &FExec::MigratePair {
                        contract: s.pairs[*pair].contract.clone(),
                        code_id: *code,
                    },
                    &along,
                );
                if by(*u) != s.owner {
                    if res.ok() {
                        out.push((vec!["C17", "C30"], format!("{:?} (owner {}): completed", o, s.owner)));
                    }
                } else if [CODE_PAIR, CODE_PAIR2].contains(&target) && !res.ok() && funds.is_empty() {
                    out.push((vec!["C30", "C17"], format!("{:?} (owner {}): {}", o, s.owner, res.describe())));
                }
                if !res.ok() {
                    return None;
                }
                let mut n = s.clone();
                n.pairs[*pair].code = target;
                n.bal = held(app);
                Some(n)
            }
            FO::MigrateDirect { u, pair, code } => {
                let msg = WasmMsg::Migrate {
                    contract_addr: s.pairs[*pair].contract.clone(),
                    new_code_id: *code,
                    msg: cosmwasm_std::Binary::from(b"{}".to_vec()),
                };
                let res = outcome(guard(|| app.execute(Addr::unchecked(by(*u)), msg.into())));
                if res.ok() {
                    out.push((vec!["C17", "C30"], format!("{:?}: completed", o)));
                    let mut n = s.clone();
                    n.pairs[*pair].code = *code;
                    return Some(n);
                }
                None
            }
            FO::MigrateFactory => {
                let msg = WasmMsg::Migrate {
                    contract_addr: f.clone(),
                    new_code_id: CODE_FACTORY,
                    msg: cosmwasm_std::Binary::from(b"{}".to_vec()),
                };
                let res = outcome(guard(|| app.execute(Addr::unchecked("owner"), msg.into())));
                if !res.ok() {
                    out.push((vec!["C30"], format!("migrating the factory was {}", res.describe())));
                    return None;
                }
                Some(s.clone())
            }
            FO::Wait { blocks } => {
                let n = clock(app).unwrap_or(0) + blocks;
                set_clock(app, n);
                Some(s.clone())
            }
            FO::Seed { pair } => {
                // the owner funds the pair; only its effect on the records is of interest here
                let p = &s.pairs[*pair];
                let mut coins = vec![];
                for i in p.a {
                    match &self.assets[i] {
                        AssetInfo::Token { contract_addr } => {
                            let r = exec(
                                app,
                                "owner",
                                contract_addr,
                                &cw20::Cw20ExecuteMsg::IncreaseAllowance {
                                    spender: p.contract.clone(),
                                    amount: Uint128::new(100),
                                    expires: None,
                                },
                                &[],
                            );
                            if !r.ok() {
                                return Some(s.clone());
                            }
                        }
                        AssetInfo::NativeToken { denom } => coins.push(coin(denom, 100)),
                    }
                }
                coins.sort_by(|a, b| a.denom.cmp(&b.denom));
                let mk = |i: usize| Asset {
                    info: self.assets[i].clone(),
                    amount: Uint128::new(100),
                };
                let _ = exec(
                    app,
                    "owner",
                    &p.contract,
                    &PExec::ProvideLiquidity {
                        assets: [mk(p.a[0]), mk(p.a[1])],
                        slippage_tolerance: None,
                        receiver: None,
                    },
                    &coins,
                );
                let mut n = s.clone();
                n.pairs[*pair].funded = true;
                Some(n)
            }
            FO::With { .. } => None,
        }
    }
    pub fn page(&self, app: &Chain, after: Option<[AssetInfo; 2]>, limit: Option<u32>) -> Result<Vec<PairInfo>, String> {
        query::<_, PairsResponse>(
            app,
            &self.factory,
            &FQuery::Pairs {
                start_after: after,
                limit,
            },
        )
        .map(|r| r.pairs)
    }
    /// walks the whole list; `ord`: 0 cursor as listed, 1 reversed, 2 alternating
    fn walk(&self, app: &Chain, s: &FS, limit: Option<u32>, ord: usize, out: &mut Vec<Disc>) -> u64 {
        let n = s.pairs.len();
        let size = limit.unwrap_or(10).min(30) as usize;
        let mut got: Vec<PairInfo> = vec![];
        let mut after: Option<[AssetInfo; 2]> = None;
        let mut q = 0;
        loop {
            q += 1;
            let page = match self.page(app, after.clone(), limit) {
                Ok(p) => p,
                Err(e) => {
                    out.push((vec!["C16"], format!("listing pairs after {:?} limit {:?} failed: {}", after, limit, e)));
                    return q;
                }
            };
            let want = size.min(n.saturating_sub(got.len()));
            if page.len() != want {
                out.push((
                    vec!["C16"],
                    format!(
                        "{} of {} pairs listed, limit {:?}, cursor order {}: a page of {} instead of {}",
                        got.len(),
                        n,
                        limit,
                        ord,
                        page.len(),
                        want
                    ),
                ));
                return q;
            }
            if page.is_empty() {
                break;
            }
            got.extend(page);
            let l = &got[got.len() - 1].asset_infos;
            let rev = ord == 1 || ord == 2 && q % 2 == 0;
            after = Some(if rev {
                [l[1].clone(), l[0].clone()]
            } else {
                l.clone()
            });
            if q > 400 {
                break;
            }
        }
        let mut seen = BTreeSet::new();
        for g in &got {
            if !seen.insert(g.contract_addr.clone()) {
                out.push((vec!["C16"], format!("{} is listed twice (limit {:?}, order {})", g.contract_addr, limit, ord)));
            }
            match s.pairs.iter().find(|p| p.contract == g.contract_addr) {
                Some(p) => {
                    if self.expected(p) != *g {
                        out.push((vec!["C16", "C14"], format!("listed {:?}, expected {:?}", g, self.expected(p))));
                    }
                }
                None => out.push((vec!["C16"], format!("{:?} is listed but was not created", g))),
            }
        }
        if got.len() != n {
            out.push((vec!["C16"], format!("{} of {} pairs listed (limit {:?})", got.len(), n, limit)));
        }
        q
    }
}

impl Model for FM {
    type S = FS;
    type O = FO;
    fn describe(&self) -> Value {
        json!({"kind": "factory", "cfg": enc(&self.cfg)})
    }
    fn chain(&self) -> Chain {
        new_chain(&self.bank)
    }
    fn ops(&self, s: &FS, _l: usize) -> Vec<FO> {
        let c = &self.cfg;
        let mut v = vec![];
        for u in &c.creators {
            for a in &c.create {
                for b in &c.create {
                    for r in 0..c.reqs {
                        v.push(FO::Create {
                            u: *u,
                            a: *a,
                            b: *b,
                            req: if c.reqs == 1 { (*a + *b) % 3 } else { r },
                        });
                    }
                }
            }
        }
        for (u, d, x) in &c.register {
            v.push(FO::Register {
                u: *u,
                denom: *d,
                dec: *x,
            });
        }
        for d in &c.fund {
            if !s.bal.contains_key(&c.denoms[*d].0) {
                v.push(FO::Fund { denom: *d });
            }
        }
        for (u, o, t, p) in &c.updates {
            v.push(FO::Update {
                u: *u,
                owner: o.clone(),
                token: *t,
                pair: *p,
            });
        }
        for (u, code) in &c.migrate {
            for p in 0..s.pairs.len().min(2) {
                v.push(FO::MigratePair {
                    u: *u,
                    pair: p,
                    code: *code,
                });
                if let Some(x) = code {
                    v.push(FO::MigrateDirect {
                        u: *u,
                        pair: p,
                        code: *x,
                    });
                }
            }
        }
        if c.factory_migrate {
            v.push(FO::MigrateFactory);
        }
        let plain: Vec<FO> = v.iter().filter(|o| !matches!(o, FO::Fund { .. } | FO::MigrateFactory | FO::MigrateDirect { .. })).cloned().collect();
        for a in &c.along {
            v.extend(plain.iter().map(|o| FO::With {
                funds: a.clone(),
                op: Box::new(o.clone()),
            }));
        }
        // a caller that does not exist yet; the factory is the pairs' administrator
        v.retain(|o| {
            let o = match o {
                FO::With { op, .. } => op,
                o => o,
            };
            match o {
                FO::Create { u, .. } | FO::Register { u, .. } | FO::Update { u, .. } | FO::MigratePair { u, .. } => self.who(*u, s).is_some(),
                FO::MigrateDirect { u, .. } => *u != C_FACTORY && self.who(*u, s).is_some(),
                _ => true,
            }
        });
        if c.seed {
            for p in 0..s.pairs.len() {
                if !s.pairs[p].funded && s.pairs[p].req != 2 {
                    v.push(FO::Seed { pair: p });
                }
            }
        }
        v
    }
    fn step(&self, app: &mut Chain, s: &FS, o: &FO, out: &mut Vec<Disc>) -> Option<FS> {
        match o {
            FO::With { funds, op } => self.step_with(app, s, op, funds, out),
            _ => self.step_with(app, s, o, &[], out),
        }
    }
    fn judge(&self, app: &mut Chain, s: &FS, out: &mut Vec<Disc>) -> u64 {
        let mut q = 0;
        // configuration
        q += 1;
        match query::<_, ConfigResponse>(app, &self.factory, &FQuery::Config {}) {
            Ok(c) => {
                if (c.owner.clone(), c.pair_code_id, c.token_code_id) != (s.owner.clone(), s.pair_code, s.token_code) {
                    out.push((
                        vec!["C17"],
                        format!("configuration {:?}, expected owner {} pair code {} token code {}", c, s.owner, s.pair_code, s.token_code),
                    ));
                }
            }
            Err(e) => out.push((vec!["C17"], format!("configuration query failed: {}", e))),
        }
        // decimals, also of denoms nobody registered
        let mut denoms: Vec<String> = self.cfg.denoms.iter().map(|d| d.0.clone()).collect();
        denoms.extend(["u".to_string(), "uatomxx".to_string(), "".to_string(), "UATOM".to_string()]);
        for d in denoms {
            q += 1;
            let r: Result<NativeTokenDecimalsResponse, String> =
                query(app, &self.factory, &FQuery::NativeTokenDecimals { denom: d.clone() });
            let got = r.ok().map(|x| x.decimals);
            if got != s.dec.get(&d).copied() {
                out.push((vec!["C18"], format!("decimals of '{}': {:?}, registered {:?}", d, got, s.dec.get(&d))));
            }
        }
        // records
        for a in 0..self.assets.len() {
            for b in 0..self.assets.len() {
                q += 1;
                let r = self.pair_q(app, &self.assets[a], &self.assets[b]);
                match (self.find(s, a, b), r) {
                    (Some(i), Ok(p)) => {
                        let want = self.expected(&s.pairs[i]);
                        if p != want {
                            let mut t = vec!["C14"];
                            if p.asset_decimals != want.asset_decimals {
                                t.push("C15");
                                t.push("C18");
                            }
                            out.push((t, format!("record of {} / {}: {:?}, expected {:?}", self.text(a), self.text(b), p, want)));
                        }
                    }
                    (Some(_), Err(e)) => out.push((
                        vec!["C14"],
                        format!("the pair {} / {} exists but its lookup failed: {}", self.text(a), self.text(b), e),
                    )),
                    // another spelling of a token's address finds the token's pairs
                    (None, Ok(_)) if [a, b].iter().any(|i| self.text(*i).starts_with("CONTRACT")) => (),
                    (None, Ok(p)) => out.push((
                        vec!["C14"],
                        format!("a lookup of {} / {}, which have no pair, returned {:?}", self.text(a), self.text(b), p),
                    )),
                    (None, Err(_)) => (),
                }
            }
        }
        for p in &s.pairs {
            q += 2;
            // the pair's own account of itself
            match query::<_, PairInfo>(app, &p.contract, &PQuery::Pair {}) {
                Ok(i) => {
                    let want = self.expected(p);
                    if i != want {
                        let mut t = vec!["C14", "C15"];
                        if i.asset_decimals != want.asset_decimals {
                            t.push("C18");
                        }
                        out.push((t, format!("the pair {} says {:?}, expected {:?}", p.contract, i, want)));
                    }
                }
                Err(e) => out.push((vec!["C14"], format!("{} does not answer as a pair: {}", p.contract, e))),
            }
            match app.contract_data(&Addr::unchecked(&p.contract)) {
                Ok(d) => {
                    if d.code_id as u64 != p.code || d.admin.as_ref().map(|x| x.as_str()) != Some(self.factory.as_str()) {
                        out.push((
                            vec!["C17", "C30"],
                            format!("{} runs code {} (admin {:?}), expected {}", p.contract, d.code_id, d.admin, p.code),
                        ));
                    }
                }
                Err(e) => out.push((vec!["C17"], e.to_string())),
            }
            match query::<_, Option<cw20::MinterResponse>>(app, &p.lp, &cw20::Cw20QueryMsg::Minter {}) {
                Ok(Some(m)) if m.minter == p.contract && m.cap.is_none() => (),
                x => out.push((vec!["C15"], format!("minter of the LP token of {}: {:?}", p.contract, x))),
            }
            if let Ok(t) = token_info(app, &p.lp) {
                if !p.funded && !t.total_supply.is_zero() {
                    out.push((vec!["C15"], format!("LP exists of {}, which was never funded", p.contract)));
                }
            }
        }
        // listings
        for l in [None, Some(1), Some(2), Some(7)] {
            for ord in 0..3 {
                if l == Some(7) && ord > 0 {
                    continue;
                }
                q += self.walk(app, s, l, ord, out);
            }
        }
        q
    }
    fn kind(&self, o: &FO) -> &'static str {
        match o {
            FO::Create { .. } => "create",
            FO::Register { .. } => "register",
            FO::Fund { .. } => "fund",
            FO::Update { .. } => "update_config",
            FO::MigratePair { .. } => "migrate_pair",
            FO::MigrateDirect { .. } => "migrate_pair_directly",
            FO::MigrateFactory => "migrate_factory",
            FO::Seed { .. } => "provide",
            FO::Wait { .. } => "wait",
            FO::With { op, .. } => match **op {
                FO::Create { .. } => "create with coins",
                FO::Register { .. } => "register with coins",
                _ => "other with coins",
            },
        }
    }
    fn blames(&self, o: &FO) -> Option<&'static str> {
        match o {
            FO::MigratePair { .. } | FO::MigrateFactory => Some("C30"),
            FO::With { op, .. } => self.blames(op),
            _ => None,
        }
    }
    fn atomic(&self, o: &FO) -> Vec<&'static str> {
        match o {
            FO::Create { .. } => vec!["C15", "C14"],
            FO::Register { .. } => vec!["C18", "C17"],
            FO::Update { .. } => vec!["C17"],
            FO::MigratePair { .. } | FO::MigrateDirect { .. } => vec!["C30", "C17"],
            FO::With { op, .. } => self.atomic(op),
            _ => vec!["C30"],
        }
    }
    fn key(&self, _p: &[FO], d: &Disc) -> Option<String> {
        let i = d.1.find("[key=")?;
        Some(d.1[i + 5..].trim_end_matches(']').to_string())
    }
}

fn base(name: &str) -> FCfg {
    FCfg {
        name: name.into(),
        tokens: vec![],
        denoms: vec![],
        odd: vec![],
        create: vec![],
        creators: vec![],
        reqs: 1,
        register: vec![],
        fund: vec![],
        updates: vec![],
        migrate: vec![],
        factory_migrate: false,
        seed: false,
        start: vec![],
        along: vec![],
    }
}
/// The set-up only registers decimals of funded denoms as the owner and creates pairs of valid
/// assets that have none: if it fails, that is what the check is about, or another check's business.
fn broken(c: &Check, world: &str, e: String) {
    let of = if e.starts_with("creating") {
        "C14"
    } else if e.starts_with("registering") {
        "C18"
    } else {
        ""
    };
    if c.prop == of {
        c.viol_case(format!("set-up of {}", world), format!("set-up of {}: {}", world, e));
    } else {
        c.error(format!("set-up of {}: {}", world, e));
    }
}
fn explore(c: &Check, cfg: &FCfg, depth: usize, cap: usize) {
    match FM::new(cfg) {
        Ok((m, s, st)) => gbfs(c, &cfg.name, &m, s, st, depth, cap),
        Err(e) => broken(c, &cfg.name, e),
    }
}
pub fn replay(v: &Value) -> Vec<Disc> {
    let cfg: FCfg = serde_json::from_str(v["cfg"].as_str().expect("cfg")).expect("cfg");
    let (m, s, st) = FM::new(&cfg).expect("set-up");
    greplay(&m, s, st, v["ops"].as_str().unwrap_or("[]"))
}
/// one operation of each kind, for periodic histories of the factory
fn steps(s: &FS) -> Vec<Option<FO>> {
    let users = ["owner", "alice", "bobby"];
    let o = users.iter().position(|u| *u == s.owner).unwrap_or(0);
    let n = s.pairs.len();
    let next = (0..8)
        .flat_map(|a| (0..a).map(move |b| (a, b)))
        .find(|(a, b)| !s.pairs.iter().any(|p| p.a == [*a, *b] || p.a == [*b, *a]))
        .map(|(a, b)| if (a + b) % 2 == 0 { (a, b) } else { (b, a) });
    let dec = |x: &str, k: u8| (s.dec.get(x).copied().unwrap_or(0) + k) % 31;
    let up = |u: usize, owner: Option<usize>, token: Option<u64>, pair: Option<u64>| FO::Update {
        u,
        owner: owner.map(|i| users[i].to_string()),
        token,
        pair,
    };
    let not = |x: u64, a: u64, b: u64| Some(if x == a { b } else { a });
    vec![
        next.map(|(a, b)| FO::Create { u: (o + 1) % 3, a, b, req: n % 2 }),
        Some(FO::Register { u: o, denom: 0, dec: dec("uatom", 1) }),
        Some(up(o, Some((o + 1) % 3), None, None)),
        Some(FO::Register { u: (o + 1) % 3, denom: 1, dec: dec("uatomx", 1) }),
        Some(up(o, None, None, not(s.pair_code, CODE_PAIR, CODE_PAIR2))),
        Some(up((o + 2) % 3, Some((o + 2) % 3), None, None)),
        Some(FO::MigrateFactory),
        (n > 0).then(|| FO::MigratePair { u: o, pair: 0, code: None }),
        (n > 0).then(|| FO::Create {
            u: o,
            a: s.pairs[n / 2].a[1],
            b: s.pairs[n / 2].a[0],
            req: 0,
        }),
        Some(up(o, None, not(s.token_code, CODE_TOKEN, CODE_TOKEN2), None)),
        (0..n).find(|i| !s.pairs[*i].funded && s.pairs[*i].req != 2).map(|pair| FO::Seed { pair }),
        Some(FO::Register { u: o, denom: 2, dec: dec("ibc/27", 7) }),
        Some(FO::Wait { blocks: 1 }),
        Some(FO::Wait { blocks: 1_000_000 }),
        (n > 0).then(|| FO::MigratePair { u: (o + 1) % 3, pair: n - 1, code: Some(CODE_PAIR2) }),
    ]
}
/// long histories of administration and creations
fn marathons(c: &Check) {
    let mut f = base("periodic histories of the factory");
    f.tokens = vec![6, 18, 0, 9];
    f.denoms = vec![d("uatom", Some(6), true), d("uatomx", Some(3), true), d("ibc/27", Some(0), true), d("contract2", Some(8), true)];
    match FM::new(&f) {
        Ok((m, s, st)) => gmarathon(c, &f.name, &m, s, st, c.b(5, 9), c.b(24, 90), c.b(6, 5), &steps),
        Err(e) => broken(c, &f.name, e),
    }
}
fn d(denom: &str, dec: Option<u8>, funded: bool) -> (String, Option<u8>, bool) {
    (denom.to_string(), dec, funded)
}

pub fn c14(c: &Check) -> &'static [&'static str] {
    // all creations in all orders over tokens and denoms
    let mut f = base("pair creations");
    f.tokens = vec![6, 18, 8];
    f.denoms = vec![d("uatom", Some(6), true), d("ibc/27", Some(8), true), d("contract2", Some(6), true), d("uxyz", None, false)];
    f.create = (0..6).collect();
    f.creators = vec![0];
    explore(c, &f, c.b(3, 4), c.b(300, 4_000));
    // with different creators and requirements, pairs in use, migrations, changes of configuration
    let mut f = base("records stay");
    f.tokens = vec![6, 9];
    f.denoms = vec![d("uatom", Some(6), true), d("uosmo", None, true)];
    f.create = vec![0, 1, 2];
    f.creators = vec![0, 4];
    f.reqs = 2;
    f.register = vec![(0, 0, 7), (0, 1, 3)];
    f.updates = vec![(0, Some("alice".into()), None, None), (0, None, Some(CODE_TOKEN2), Some(CODE_PAIR2))];
    f.migrate = vec![(0, None), (0, Some(CODE_PAIR2))];
    f.factory_migrate = true;
    f.seed = true;
    explore(c, &f, c.b(3, 4), c.b(400, 3_000));
    // similar denoms
    let mut f = base("similar denoms");
    f.tokens = vec![6];
    f.denoms = ["ua", "uab", "uaa", "aua", "b", "UA"].iter().map(|x| d(x, Some(6), true)).collect();
    f.create = (0..7).collect();
    f.creators = vec![1];
    explore(c, &f, c.b(2, 3), c.b(100, 1_500));
    // denoms of the greatest length
    let mut f = base("long denoms");
    f.tokens = vec![6];
    f.denoms = long_denoms().iter().map(|x| d(x, Some(6), true)).collect();
    f.create = (0..4).collect();
    f.creators = vec![1];
    explore(c, &f, c.b(2, 3), c.b(100, 1_500));
    // denoms whose concatenations coincide
    let mut f = base("colliding denoms");
    f.denoms = vec![
        d("uatomx", Some(6), true),
        d("ybtc", Some(6), true),
        d("uatom", Some(8), true),
        d("xybtc", Some(3), true),
    ];
    f.create = vec![0, 1, 2, 3];
    f.creators = vec![1];
    explore(c, &f, c.b(2, 3), 1_000);
    marathons(c);
    // many
    for cfg in paging_worlds(c).into_iter().chain(continued_keys(c)) {
        explore(c, &cfg, 0, 1);
    }
    c.bound("every lookup in sets of 0..66, 101 and 260 pairs");
    TRUST
}

/// denoms of the greatest length a chain admits that differ in their first, middle or last place only
fn long_denoms() -> [String; 3] {
    let l = |i: usize| {
        let mut v = vec![b'l'; 128];
        v[i] = b'x';
        String::from_utf8(v).unwrap()
    };
    [l(127), l(0), l(64)]
}

/// coins of every kind sent along with every message of the factory
fn coins_along(c: &Check) -> FCfg {
    let mut f = base("coins sent along");
    f.tokens = vec![6, 8];
    f.denoms = vec![
        d("uatom", Some(6), true),
        d("uosmo", None, false),
        d("uatomx", None, false),
        d("ujuno", Some(0), true),
    ];
    f.create = vec![0, 2, 5];
    f.creators = vec![0, 3];
    f.register = vec![(0, 0, 9), (0, 1, 3), (0, 2, 0), (1, 1, 3), (1, 0, 2)];
    f.updates = vec![
        (0, Some("alice".into()), None, None),
        (1, Some("alice".into()), None, None),
        (0, None, Some(CODE_TOKEN2), Some(CODE_PAIR2)),
    ];
    f.start = vec![[0, 1]];
    f.migrate = vec![(0, None), (1, None), (0, Some(CODE_PAIR2))];
    f.along = vec![vec![(0, 1)], vec![(1, 1)], vec![(1, 3), (0, 2)], vec![(2, 4), (3, 1)]];
    if c.thorough() {
        f.along.push(vec![(0, 1), (1, 1), (2, 1), (3, 1)]);
        f.along.push(vec![(3, 999_999)]);
    }
    f
}

pub fn c15(c: &Check) -> &'static [&'static str] {
    let odd = vec![
        tok("contract1"), // the recorder: not a token
        tok("contract0"), // the factory
        tok("alice"),
        tok("contract99"),
        tok("CONTRACT2"),
        tok(""),
        nat("unknown"),
        nat(""),
        nat("alice"),
        nat("UATOM"),
        tok("uatom"),
    ];
    let mut f = base("asset choices");
    f.tokens = vec![6, 18, 0];
    f.denoms = vec![d("uatom", Some(6), true), d("ibc/27", Some(18), true), d("contract2", Some(0), true), d("funded", None, true)];
    f.odd = odd.clone();
    f.create = (0..7 + odd.len()).collect();
    f.creators = vec![0, 3];
    f.reqs = 3;
    explore(c, &f, 1, 1);
    f.reqs = 1;
    f.creators = vec![3];
    explore(c, &f, c.b(2, 3), c.b(40, 400));
    // every number of decimals a registration can give
    let mut f = base("decimals");
    f.tokens = (0..=18).collect();
    let many = [19, 30, 38, 39, 77, 78, 100, 200, 254, 255];
    f.denoms = (0..=18u8).chain(many).map(|x| (format!("denom{}", x), Some(x), true)).collect();
    f.denoms.extend(many.map(|x| (format!("other{}", x), Some(x), true)));
    f.create = (0..f.tokens.len() + f.denoms.len()).collect();
    f.creators = vec![1];
    explore(c, &f, 1, 1);
    // configurations: codes that exist, that do not, that are no pairs or tokens; atomic failures
    let mut f = base("codes");
    f.tokens = vec![6, 8];
    f.denoms = vec![d("uatom", Some(6), true), d("uosmo", None, true)];
    f.create = vec![0, 1, 2, 3];
    f.creators = vec![0, 1];
    for t in [None, Some(CODE_TOKEN), Some(CODE_TOKEN2), Some(99), Some(CODE_PAIR)] {
        for p in [None, Some(CODE_PAIR), Some(CODE_PAIR2), Some(77), Some(CODE_RECORDER), Some(CODE_TOKEN)] {
            if t.is_some() || p.is_some() {
                f.updates.push((0, None, t, p));
            }
        }
    }
    f.register = vec![(0, 1, 9), (0, 0, 2)];
    explore(c, &f, c.b(2, 3), c.b(100, 1_000));
    f.updates.retain(|u| u.2.map_or(true, |x| x != CODE_TOKEN) && u.3.map_or(true, |x| x != CODE_PAIR));
    f.seed = true;
    f.creators = vec![1];
    explore(c, &f, 3, c.b(500, 3_000));
    explore(c, &coins_along(c), 2, c.b(200, 3_000));
    marathons(c);
    case_variants(c);
    TRUST
}

/// Where the chain writes one address in two ways (here: letter case), a pair of a token with itself
/// must not come about. The factory's entry point is driven directly, with a chain that answers
/// token queries under both spellings.
fn case_variants(c: &Check) {
    use cosmwasm_std::testing::{mock_env, mock_info, MockApi, MockQuerier, MockStorage};
    use cosmwasm_std::{to_binary, ContractResult, OwnedDeps, SystemResult, WasmQuery};
    let names = ["token0", "TOKEN0", "Token0", "tokeN0", "token1", "TOKEN1"];
    let mut n = 0;
    for a in names {
        for b in names {
            let mut querier: MockQuerier = MockQuerier::new(&[]);
            querier.update_wasm(|q| match q {
                WasmQuery::Smart { .. } => SystemResult::Ok(ContractResult::Ok(
                    to_binary(&cw20::TokenInfoResponse {
                        name: "token".into(),
                        symbol: "TOK".into(),
                        decimals: 6,
                        total_supply: Uint128::new(1),
                    })
                    .unwrap(),
                )),
                _ => SystemResult::Ok(ContractResult::Err("no".into())),
            });
            let mut deps: OwnedDeps<MockStorage, MockApi, MockQuerier> = OwnedDeps {
                storage: MockStorage::default(),
                api: MockApi::default(),
                querier,
                custom_query_type: std::marker::PhantomData,
            };
            let r = guard(|| {
                halo_factory::contract::instantiate(
                    deps.as_mut(),
                    mock_env(),
                    mock_info("owner", &[]),
                    FInst {
                        pair_code_id: 1,
                        token_code_id: 2,
                    },
                )
                .map_err(|e| anyhow::anyhow!("{}", e))
            });
            if let Err(e) = r {
                c.error(format!("factory instantiation: {}", e.1));
                return;
            }
            let r = guard(|| {
                halo_factory::contract::execute(
                    deps.as_mut(),
                    mock_env(),
                    mock_info("alice", &[]),
                    FExec::CreatePair {
                        asset_infos: [tok(a), tok(b)],
                        requirements: req(0),
                    },
                )
                .map_err(|e| anyhow::anyhow!("{}", e))
            });
            n += 1;
            let same = a.to_lowercase() == b.to_lowercase();
            if same && r.is_ok() {
                c.viol_case(format!("case:{}:{}", a, b), format!("a pair of {} and {}, which are the same token, was accepted", a, b));
            }
            if !same && a == a.to_lowercase() && b == b.to_lowercase() && r.is_err() {
                c.viol_case(format!("case:{}:{}", a, b), format!("a pair of {} and {} was refused", a, b));
            }
        }
    }
    c.add(&c.transitions, n);
    c.add(&c.conform, n);
    c.add(&c.traces, n);
    c.bound("all ordered pairs of six spellings of two token addresses");
}

fn paging_worlds(c: &Check) -> Vec<FCfg> {
    let mut v = vec![];
    let counts: Vec<usize> = if c.thorough() {
        (0..=66).collect()
    } else {
        vec![0, 1, 2, 3, 9, 10, 11, 12, 29, 30, 31, 33, 45, 61, 66]
    };
    for n in counts {
        for kind in 0..3 {
            let mut f = base(&format!("{} pairs of kind {}", n, kind));
            let (nt, names): (usize, Vec<String>) = match kind {
                // natives with related names, tokens
                0 => (4, ["uatom", "uatomb", "ibc/aaaaaaaa", "ibc/aaaaaaab", "factory/x/y", "z", "uz", "mid"].iter().map(|s| s.to_string()).collect()),
                1 => (12, vec![]),
                _ => (0, (0..12).map(|i| format!("{}{}", ["pico", "m", "nano", "x/y/"][i % 4], i)).collect()),
            };
            if n > 12 && !c.thorough() && kind == 1 && n % 3 != 0 {
                continue;
            }
            let decs = [6u8, 0, 18, 9, 0, 30];
            f.tokens = (0..nt).map(|i| decs[i % 5]).collect();
            f.denoms = names.iter().enumerate().map(|(i, x)| d(x, Some(decs[(i + n) % 6]), true)).collect();
            let m = nt + names.len();
            let mut all: Vec<[usize; 2]> = vec![];
            for i in 0..m {
                for j in 0..i {
                    all.push(if (i + j) % 2 == 0 { [i, j] } else { [j, i] });
                }
            }
            // an order of creation that is not the order of the list
            let k = all.len();
            let step = [7usize, 5, 11, 13].into_iter().find(|s| k % s != 0).unwrap_or(1);
            f.start = (0..n.min(k)).map(|i| all[(i * step) % k]).collect();
            v.push(f);
        }
    }
    // many pairs
    let counts: &[usize] = if c.thorough() { &[99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 260] } else { &[101usize, 260] };
    for &n in counts {
        let mut f = base(&format!("{} pairs", n));
        f.tokens = vec![6; 4];
        f.denoms = (0..20).map(|i| d(&format!("{}{}", ["pico", "m", "nano", "x/y/"][i % 4], i), Some(i as u8), true)).collect();
        let mut all: Vec<[usize; 2]> = vec![];
        for i in 0..24 {
            for j in 0..i {
                all.push([i, j]);
            }
        }
        f.start = (0..n).map(|i| all[(i * 7) % all.len()]).collect();
        v.push(f);
    }
    v
}
pub fn c16(c: &Check) -> &'static [&'static str] {
    let mut worlds = paging_worlds(c);
    worlds.extend(continued_keys(c));
    c.bound(format!("{} sets of 0..66 and of 101 and 260 pairs of tokens, natives and both, created in a scrambled order; every page size 0..33 and none, 45, 1000, 2^32-1; cursors as listed, reversed, alternating; and every single pair as the cursor", worlds.len()));
    let res: Vec<Result<(u64, Vec<Disc>, String), String>> = par(
        &worlds,
        || (),
        |_, _, cfg| {
            let (m, s, st) = FM::new(cfg)?;
            let mut app = m.chain();
            restore(&mut app, &s);
            let mut out = vec![];
            let mut q = 0;
            let mut limits: Vec<Option<u32>> = (1..=33).map(Some).collect();
            limits.extend([None, Some(45), Some(1_000), Some(u32::MAX)]);
            for l in limits {
                for ord in 0..3 {
                    q += m.walk(&app, &st, l, ord, &mut out);
                }
            }
            // a limit of zero
            q += 1;
            match m.page(&app, None, Some(0)) {
                Ok(p) if p.is_empty() => (),
                x => out.push((vec!["C16"], format!("a page of at most 0 pairs: {:?}", x))),
            }
            // every cursor: the rest of the list in the same order
            if let Ok(all) = full_list(&m, &app) {
                for (i, p) in all.iter().enumerate() {
                    for rev in [false, true] {
                        let cur = if rev {
                            [p.asset_infos[1].clone(), p.asset_infos[0].clone()]
                        } else {
                            p.asset_infos.clone()
                        };
                        for l in [1u32, 4, 30] {
                            q += 1;
                            let want: Vec<PairInfo> = all[i + 1..].iter().take(l as usize).cloned().collect();
                            let got = m.page(&app, Some(cur.clone()), Some(l));
                            if got.as_ref().ok() != Some(&want) {
                                out.push((
                                    vec!["C16"],
                                    format!("page of {} after {:?}: {} pairs instead of {}", l, cur, got.map(|x| x.len()).unwrap_or(999), want.len()),
                                ));
                            }
                        }
                    }
                    q += 1;
                    match m.pair_q(&app, &p.asset_infos[1], &p.asset_infos[0]) {
                        Ok(x) if x == *p => (),
                        x => out.push((vec!["C16"], format!("listed {:?} but looked up {:?}", p, x))),
                    }
                }
            } else {
                out.push((vec!["C16"], "the list cannot be read".into()));
            }
            q += m.judge(&mut app, &st, &mut out);
            Ok((q, out, enc(&m.cfg)))
        },
    );
    for r in res {
        match r {
            Ok((q, out, cfg)) => {
                c.add(&c.states, 1);
                c.add(&c.queries, q);
                c.add(&c.transitions, q);
                c.add(&c.conform, q);
                c.add(&c.traces, 1);
                for d in out {
                    if d.0.contains(&c.prop) {
                        c.viol(Viol {
                            key: d.1.clone(),
                            msg: d.1.clone(),
                            replay: json!({"kind": "paging", "cfg": cfg}),
                        });
                    }
                }
            }
            Err(e) => broken(c, "a list", e),
        }
    }
    // lists that grow
    let mut f = base("growing list");
    f.tokens = vec![6, 6];
    f.denoms = vec![d("uatom", Some(6), true), d("uatomx", Some(6), true)];
    f.create = (0..4).collect();
    f.creators = vec![0];
    explore(c, &f, c.b(3, 6), c.b(200, 2_000));
    c.sample(json!({"first_world": worlds[3].name, "pairs": format!("{:?}", worlds[3].start)}));
    TRUST
}
/// Denoms spelled like the first bytes of a token's stored address, so that the key of one pair
/// continues the key of another: all pairs of all assets, in three orders of creation.
fn continued_keys(c: &Check) -> Vec<FCfg> {
    let mut v = vec![];
    let canon = |i: usize| -> Vec<u8> {
        use cosmwasm_std::Api;
        cosmwasm_std::testing::MockApi::default()
            .addr_canonicalize(&format!("contract{}", i))
            .map(|x| x.as_slice().to_vec())
            .unwrap_or_default()
    };
    for nt in c.b(vec![4, 8], vec![2, 4, 6, 8, 9]) {
        let mut names: Vec<String> = vec!["uatom".into()];
        for i in 2..2 + nt {
            let k = canon(i);
            // printable beginnings of the stored form
            let n = k.iter().take_while(|b| b.is_ascii_graphic()).count();
            for l in 1..=n {
                let s = String::from_utf8_lossy(&k[..l]).to_string();
                if !names.contains(&s) {
                    names.push(s);
                }
            }
        }
        for order in 0..3usize {
            let mut f = base(&format!("continued keys, {} tokens, order {}", nt, order));
            f.tokens = vec![6; nt];
            f.denoms = names.iter().map(|x| d(x, Some(6), true)).collect();
            let m = nt + names.len();
            let mut all = vec![];
            for i in 0..m {
                for j in 0..i {
                    if i < nt || j < nt {
                        all.push(if (i * j + order) % 2 == 0 { [i, j] } else { [j, i] });
                    }
                }
            }
            if order == 1 {
                all.reverse();
            }
            if order == 2 {
                let k = all.len();
                let step = [7usize, 5, 11, 13].into_iter().find(|s| k % s != 0).unwrap_or(1);
                all = (0..k).map(|i| all[(i * step) % k]).collect();
            }
            f.start = all;
            v.push(f);
        }
    }
    v
}
fn full_list(m: &FM, app: &Chain) -> Result<Vec<PairInfo>, String> {
    let mut v: Vec<PairInfo> = vec![];
    loop {
        let p = m.page(app, v.last().map(|x: &PairInfo| x.asset_infos.clone()), Some(30))?;
        if p.is_empty() || v.len() > 400 {
            return Ok(v);
        }
        v.extend(p);
    }
}

pub fn c17(c: &Check) -> &'static [&'static str] {
    let names: Vec<Option<String>> = vec![
        None,
        Some("owner".into()),
        Some("alice".into()),
        Some("bobby".into()),
        Some("ALICE".into()),
        Some("al".into()),
        Some("".into()),
        Some("x".repeat(55)),
        Some("contract0".into()),
    ];
    let mut f = base("administration");
    f.tokens = vec![6, 8];
    f.denoms = vec![d("uatom", Some(6), true), d("uosmo", None, true), d("unfunded", None, false)];
    f.start = vec![[0, 1]];
    for u in [0, 1, 4] {
        for o in &names {
            for t in [None, Some(CODE_TOKEN2), Some(42)] {
                for p in [None, Some(CODE_PAIR2)] {
                    f.updates.push((u, o.clone(), t, p));
                }
            }
        }
        // codes that are equal, exchanged, unchanged, zero or huge
        for t in [None, Some(CODE_TOKEN), Some(CODE_PAIR), Some(0), Some(42), Some(u64::MAX)] {
            for p in [None, Some(CODE_TOKEN), Some(CODE_PAIR), Some(0), Some(42), Some(u64::MAX)] {
                for o in [None, Some("owner".to_string()), Some("bobby".to_string())] {
                    let x = (u, o, t, p);
                    if !f.updates.contains(&x) {
                        f.updates.push(x);
                    }
                }
            }
        }
        f.register.extend([(u, 0, 9), (u, 1, 3), (u, 2, 1)]);
        f.migrate.extend([(u, None), (u, Some(CODE_PAIR)), (u, Some(CODE_PAIR2))]);
    }
    f.create = vec![0, 2];
    f.creators = vec![1];
    explore(c, &f, 2, c.b(200, 2_000));
    // hand-over chains
    let mut f = base("ownership");
    f.tokens = vec![6, 8];
    f.denoms = vec![d("uatom", Some(6), true)];
    f.start = vec![[0, 1]];
    for u in [0, 1, 2] {
        for o in [None, Some("owner"), Some("alice"), Some("bobby")] {
            f.updates.push((u, o.map(|x| x.to_string()), None, None));
        }
        f.updates.push((u, None, Some(CODE_TOKEN2), None));
        f.updates.push((u, None, None, Some(CODE_PAIR2)));
        f.updates.push((u, None, None, Some(CODE_PAIR)));
        f.register.push((u, 0, 4));
        f.migrate.push((u, None));
    }
    f.create = vec![0, 2];
    f.creators = vec![2];
    explore(c, &f, c.b(4, 5), c.b(2_000, 20_000));
    explore(c, &coins_along(c), 2, c.b(200, 3_000));
    marathons(c);
    // every contract of the world and accounts with similar names as callers; pairs in all stages
    c.bound("administration by the factory itself, the other contracts, a token, a pair, an LP token and accounts with names like the owner's, before and after hand-overs to them");
    let mut f = base("contracts as callers");
    f.tokens = vec![6, 8];
    f.denoms = vec![d("uatom", Some(6), true), d("unfunded", None, false)];
    f.start = vec![[0, 1]];
    for u in CALLERS {
        for o in [None, Some("owner"), Some("ownerx"), Some("contract5")] {
            f.updates.push((u, o.map(|x| x.to_string()), None, Some(CODE_PAIR2)));
        }
        f.updates.push((u, None, Some(CODE_TOKEN2), None));
        f.updates.push((u, None, None, None));
        f.register.extend([(u, 0, 4), (u, 1, 4)]);
        f.migrate.extend([(u, None), (u, Some(CODE_PAIR2))]);
    }
    for o in ["ownerx", "contract0", "contract2", "contract4", "contract5", "bobby"] {
        f.updates.push((0, Some(o.into()), None, None));
    }
    f.create = vec![0, 2];
    f.creators = vec![1, C_FACTORY, C_PAIR];
    f.seed = true;
    explore(c, &f, c.b(2, 3), c.b(300, 4_000));
    TRUST
}

pub fn c18(c: &Check) -> &'static [&'static str] {
    // every number of decimals
    let mut f = base("decimals");
    f.tokens = vec![6];
    f.denoms = vec![d("uatom", None, true), d("uatomx", None, false)];
    for x in 0..=255 {
        f.register.push((0, 0, x));
        f.register.push((0, 1, x));
        if x % 16 == 0 {
            f.register.push((1, 0, x));
        }
    }
    f.fund = vec![1];
    explore(c, &f, 1, 1);
    // many denoms
    let mut f = base("many denoms");
    f.denoms = (0..150).map(|i| d(&format!("u{}", i), if i % 3 == 0 { None } else { Some(i as u8) }, i % 3 > 0 || i % 2 == 0)).collect();
    for k in [0, 1, 3, 75, 76, 100, 101, 147, 148, 149] {
        f.register.push((0, k, 200));
    }
    explore(c, &f, 2, c.b(100, 200));
    // related denoms, funded one by one, pairs in between, new owner
    let mut f = base("registry");
    f.tokens = vec![6];
    f.denoms = vec![
        d("uatom", None, false),
        d("uatomx", None, true),
        d("uato", Some(5), true),
        d("u", None, true),
        d("atom", None, false),
        d("UATOM", None, true),
    ];
    f.create = vec![0, 1, 3];
    f.creators = vec![3];
    for u in [0, 1] {
        for k in 0..6 {
            f.register.push((u, k, 7));
        }
        f.register.push((u, 2, 0));
        f.register.push((u, 0, 255));
    }
    f.updates = vec![(0, Some("alice".into()), None, None)];
    f.fund = vec![0, 4];
    f.factory_migrate = true;
    explore(c, &f, c.b(4, 5), c.b(1_500, 12_000));
    marathons(c);
    // denoms of unusual form
    let long = "l".repeat(120);
    let [end, begin, mid] = long_denoms();
    let mut f = base("forms of denoms");
    f.tokens = vec![6];
    f.denoms = [
        "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2",
        "factory/aura1abc/sub",
        "a",
        "contract2",
        "\u{0}",
        "uatom ",
        " uatom",
        "decimals",
        "config",
        "pair_info",
        long.as_str(),
        end.as_str(),
        begin.as_str(),
        mid.as_str(),
    ]
    .iter()
    .map(|x| d(x, None, true))
    .collect();
    for k in 0..f.denoms.len() {
        f.register.push((0, k, k as u8 + 1));
        f.register.push((0, k, 200));
    }
    explore(c, &f, c.b(2, 3), c.b(100, 1_000));
    explore(c, &coins_along(c), c.b(2, 3), c.b(200, 3_000));
    TRUST
}

// ------------------------------------------------------------------ C30
pub fn c30(c: &Check) -> &'static [&'static str] {
    use crate::ops::*;
    use crate::p_pair::{companies, everything, required, shared, twins};
    // who, which code
    let mut f = base("migration rights");
    f.tokens = vec![6, 8];
    f.denoms = vec![d("uatom", Some(6), true)];
    f.start = vec![[0, 1], [1, 2]];
    for u in [0, 1, 4] {
        for code in [None, Some(CODE_PAIR), Some(CODE_PAIR2), Some(99), Some(CODE_TOKEN), Some(CODE_RECORDER)] {
            f.migrate.push((u, code));
        }
    }
    f.updates = vec![
        (0, None, None, Some(CODE_PAIR2)),
        (0, Some("alice".into()), None, None),
        (1, None, None, Some(CODE_PAIR)),
    ];
    f.factory_migrate = true;
    f.create = vec![0, 2];
    f.creators = vec![1];
    f.seed = true;
    explore(c, &f, c.b(3, 4), c.b(800, 8_000));
    // transparency: everything is the same with and without a migration, at every point of a history
    let migs = [
        Mig::Pair(0, None),
        Mig::Pair(0, Some(CODE_PAIR2)),
        Mig::Pair(1, Some(CODE_PAIR)),
        Mig::Factory,
        Mig::Router,
    ];
    let d = c.b(1, 2);
    c.bound("every migration of a pair, the factory and the router in every state of a history; all queries and every following operation compared with the unmigrated chain");
    let extra = |w: &World, app: &mut Chain, o: &Obs, out: &mut Vec<Disc>| -> u64 {
        let base = snap(app);
        let mut n = 0;
        let q0 = all_queries(w, app);
        let answered = q0.iter().filter(|x| x["answer"] != "refused").count();
        c.add(&c.queries, answered as u64);
        if answered < 4 + 3 * w.pairs.len() {
            out.push((vec!["C30"], format!("only {} of {} queries are answered", answered, q0.len())));
        }
        let ops = {
            let mut v = everything(w, o, false);
            v.push(Op::Migrate { u: MAL, pair: 0, code: None });
            v.push(Op::Forge { sender: MAL, pair: 0, owner: MAL, amt: 3, swap: false, to: None });
            v.push(Op::LpTakeMinter { u: MAL, pair: 0 });
            v.push(prov0(MAL, 0));
            v
        };
        let plain: Vec<(bool, Option<Obs>, Vec<Value>)> = ops
            .iter()
            .map(|op| {
                let r = w.run(app, op).ok();
                let res = (r, w.observe(app).ok(), if r { all_queries(w, app) } else { vec![] });
                restore(app, &base);
                res
            })
            .collect();
        for m in &migs {
            n += 1;
            let r = m.run(w, app);
            if !r.ok() {
                out.push((vec!["C30"], format!("{:?} was {}", m, r.describe())));
                restore(app, &base);
                continue;
            }
            match w.observe(app) {
                Ok(x) if x == *o => (),
                _ => out.push((vec!["C30"], format!("{:?} changed a balance", m))),
            }
            let q1 = all_queries(w, app);
            if q1 != q0 {
                let i = (0..q0.len().min(q1.len())).find(|i| q0[*i] != q1[*i]).unwrap_or(0);
                out.push((vec!["C30"], format!("{:?} changed the answer {} into {}", m, q0[i], q1[i])));
            }
            let here = snap(app);
            for (op, before) in ops.iter().zip(&plain) {
                n += 1;
                let r = w.run(app, op).ok();
                let res = (r, w.observe(app).ok(), if r { all_queries(w, app) } else { vec![] });
                if res != *before {
                    out.push((
                        vec!["C30"],
                        format!("after {:?}, {:?} gives a different result (completed {} / without the migration {})", m, op, r, before.0),
                    ));
                }
                restore(app, &here);
            }
            restore(app, &base);
        }
        n
    };
    let mut worlds = vec![
        shared("migrations", true),
        shared("migrations, empty pairs", false),
        required("migrations, pairs with requirements", true),
        required("migrations, empty pairs with requirements", false),
        twins("migrations, twins", [crate::worlds::K::T(6), crate::worlds::K::N(0), crate::worlds::K::T(6)], true),
    ];
    // decimals far apart, and beyond those of any token
    let ks = [crate::worlds::K::T(18), crate::worlds::K::N(24), crate::worlds::K::N(255), crate::worlds::K::T(0)];
    worlds.push(crate::worlds::multi("migrations, wide decimals", &ks, &[[0, 1], [2, 1], [3, 2]], vec![]));
    worlds.extend(companies());
    for s in worlds {
        bfs(c, &s, d, c.b(500, 5_000), &|w, o, l| {
            let v = everything(w, o, false);
            v.into_iter().enumerate().filter(|(i, _)| l == 0 && (c.thorough() || i % 2 == 1) || i % 4 == 1).map(|x| x.1).collect()
        }, Some(&extra));
    }
    TRUST
}
fn prov0(u: usize, pair: usize) -> crate::ops::Op {
    crate::worlds::prov(u, pair, [5, 5])
}
#[derive(Debug)]
enum Mig {
    Pair(usize, Option<u64>),
    Factory,
    Router,
}
impl Mig {
    fn run(&self, w: &World, app: &mut Chain) -> Outcome {
        use crate::ops::*;
        let direct = |app: &mut Chain, acct: usize, code: u64| {
            let m = WasmMsg::Migrate {
                contract_addr: w.accts[acct].clone(),
                new_code_id: code,
                msg: cosmwasm_std::Binary::from(b"{}".to_vec()),
            };
            outcome(guard(|| app.execute(Addr::unchecked("owner"), m.into())))
        };
        match self {
            Mig::Pair(p, code) => w.run(
                app,
                &Op::Migrate {
                    u: OWNER,
                    pair: *p,
                    code: *code,
                },
            ),
            Mig::Factory => direct(app, FACT, CODE_FACTORY),
            Mig::Router => direct(app, ROUT, CODE_ROUTER),
        }
    }
}
/// the answers of every query of the factory, the router and the pairs (code ids left out)
fn all_queries(w: &World, app: &Chain) -> Vec<Value> {
    use haloswap::router::QueryMsg as RQuery;
    let mut v = vec![];
    let mut ask = |addr: &str, m: Value| {
        let r = query_text(app, addr, &m);
        v.push(json!({"of": addr, "query": m, "answer": r.unwrap_or("refused".into())}));
    };
    let to = |x: &dyn erased_json::J| x.j();
    ask(w.factory(), to(&FQuery::Config {}));
    ask(w.factory(), to(&FQuery::Pairs { start_after: None, limit: None }));
    for a in &w.assets {
        if a.native() {
            ask(w.factory(), to(&FQuery::NativeTokenDecimals { denom: a.id().to_string() }));
        }
    }
    ask(w.router(), to(&RQuery::Config {}));
    for p in &w.pairs {
        let infos = [w.assets[p.assets[0]].info.clone(), w.assets[p.assets[1]].info.clone()];
        ask(w.factory(), to(&FQuery::Pair { asset_infos: [infos[1].clone(), infos[0].clone()] }));
        ask(&p.addr, to(&PQuery::Pair {}));
        ask(&p.addr, to(&PQuery::Pool {}));
        for i in &infos {
            let asset = Asset {
                info: i.clone(),
                amount: Uint128::new(13),
            };
            ask(&p.addr, to(&PQuery::Simulation { offer_asset: asset.clone() }));
            ask(&p.addr, to(&PQuery::ReverseSimulation { ask_asset: asset }));
        }
        ask(w.assets[p.lp].id(), to(&cw20::Cw20QueryMsg::TokenInfo {}));
        ask(w.assets[p.lp].id(), to(&cw20::Cw20QueryMsg::Minter {}));
    }
    v
}
mod erased_json {
    pub trait J {
        fn j(&self) -> serde_json::Value;
    }
    impl<T: serde::Serialize> J for T {
        fn j(&self) -> serde_json::Value {
            serde_json::to_value(self).unwrap()
        }
    }
}
