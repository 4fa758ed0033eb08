//! Worlds, observations, operations, reference predictions and the per-transition judge.
use crate::chain::*;
use crate::refmodel::*;
use cosmwasm_std::{to_binary, Addr, Binary, Coin, Decimal, Uint128};
use cw20::Cw20ExecuteMsg;
use cw_multi_test::{AppResponse, Executor};
use haloswap::asset::{Asset, AssetInfo, CreatePairRequirements, PairInfo};
use haloswap::factory::{ExecuteMsg as FExec, InstantiateMsg as FInst, QueryMsg as FQuery};
use haloswap::pair::{
    Cw20HookMsg, ExecuteMsg as PExec, PoolResponse, QueryMsg as PQuery, ReverseSimulationResponse,
    SimulationResponse,
};
use haloswap::router::{
    Cw20HookMsg as RHook, ExecuteMsg as RExec, InstantiateMsg as RInst, QueryMsg as RQuery,
    SimulateSwapOperationsResponse, SwapOperation,
};
use haloswap::token::InstantiateMsg as TInst;
use serde::{Deserialize, Serialize};

pub const USERS: [&str; 5] = ["owner", "alice", "bobby", "carol", "mallory"];
pub const OWNER: usize = 0;
pub const ALICE: usize = 1;
pub const BOB: usize = 2;
pub const CAROL: usize = 3;
pub const MAL: usize = 4;
pub const FACT: usize = 5;
pub const ROUT: usize = 6;
pub const RECO: usize = 7;
/// first pair account
pub const PAIR0: usize = 8;
pub const BIG_ALLOWANCE: u128 = u128::MAX;
/// recipients that are no valid addresses are named by ODD + their index here
pub const ODD: usize = 1_000;
pub const ODD_TEXTS: [&str; 5] = ["al", "ALICE", "", "alicE", "a-text-that-is-by-far-too-long-to-be-the-address-of-anybody-at-all"];
/// whitelist entries from here on are the world's additional names
pub const NAMED: usize = 100;
/// whitelist entries from here on are accounts that never act
pub const STRANGERS: usize = 1_000;
pub fn odd(a: &Option<usize>) -> bool {
    a.map_or(false, |i| i >= ODD)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PairSpec {
    /// asset indices (tokens first, then natives, then LP tokens of earlier pairs)
    pub assets: [usize; 2],
    pub whitelist: Vec<usize>,
    pub mins: [u128; 2],
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec {
    pub name: String,
    /// decimals, initial balance of each user
    pub tokens: Vec<(u8, [u128; 5])>,
    pub natives: Vec<(String, u8, [u128; 5])>,
    pub pairs: Vec<PairSpec>,
    /// allowance of every user to every pair for every token (0: none is given)
    pub allowance: u128,
    pub seeds: Vec<Op>,
    /// further accounts (whose names resemble those of the users); they hold nothing at first
    #[serde(default)]
    pub names: Vec<String>,
    /// the contracts of tokens and LP tokens are accounts as well
    #[serde(default)]
    pub contracts: bool,
    /// other contracts created before each pair
    #[serde(default)]
    pub fillers: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct AssetRef {
    pub info: AssetInfo,
    pub decimals: u8,
    pub lp_of: Option<usize>,
}
impl AssetRef {
    pub fn id(&self) -> &str {
        match &self.info {
            AssetInfo::Token { contract_addr } => contract_addr,
            AssetInfo::NativeToken { denom } => denom,
        }
    }
    pub fn native(&self) -> bool {
        matches!(self.info, AssetInfo::NativeToken { .. })
    }
}
#[derive(Clone, Debug)]
pub struct PairRef {
    pub addr: String,
    pub acct: usize,
    pub assets: [usize; 2],
    pub lp: usize,
    pub whitelist: Vec<usize>,
    pub mins: [u128; 2],
}
#[derive(Clone, Debug)]
pub struct World {
    pub spec: Spec,
    pub accts: Vec<String>,
    pub assets: Vec<AssetRef>,
    pub pairs: Vec<PairRef>,
    pub native_total: Vec<u128>,
    pub bank: Vec<(String, Vec<Coin>)>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Obs {
    /// [asset][account]
    pub bal: Vec<Vec<u128>>,
    /// [asset]; natives: genesis total
    pub supply: Vec<u128>,
    /// [pair][user][side]; 0 for native sides
    pub allow: Vec<Vec<[u128; 2]>>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Swap {
        u: usize,
        pair: usize,
        side: usize,
        amt: u128,
        belief: Option<u128>,
        max: Option<u128>,
        to: Option<usize>,
    },
    Provide {
        u: usize,
        pair: usize,
        d: [u128; 2],
        /// list the assets in reverse order
        rev: bool,
        tol: Option<u128>,
        to: Option<usize>,
        /// declared assets, by index, in pair order; None: the pair's own
        declared: Option<[usize; 2]>,
        /// coins sent, by asset index; None: exactly the declared native amounts
        funds: Option<Vec<(usize, u128)>>,
    },
    Withdraw {
        u: usize,
        pair: usize,
        amt: u128,
    },
    Transfer {
        u: usize,
        asset: usize,
        to: usize,
        amt: u128,
    },
    /// a hook message sent directly by an account
    Forge {
        sender: usize,
        pair: usize,
        owner: usize,
        amt: u128,
        swap: bool,
        to: Option<usize>,
    },
    /// a hook message that appears to come from a token contract of the world
    ForgeByToken {
        asset: usize,
        pair: usize,
        owner: usize,
        amt: u128,
        swap: bool,
    },
    /// a token sent to a pair with the wrong kind of request
    SendHook {
        u: usize,
        asset: usize,
        pair: usize,
        amt: u128,
        swap: bool,
    },
    /// a token sent to a pair with an undecodable hook
    SendJunk {
        u: usize,
        asset: usize,
        pair: usize,
        amt: u128,
    },
    LpMint {
        u: usize,
        pair: usize,
        to: usize,
        amt: u128,
    },
    LpTakeMinter {
        u: usize,
        pair: usize,
    },
    LpBurn {
        u: usize,
        pair: usize,
        amt: u128,
    },
    /// the swap message for native coins (disabled in this code base)
    NativeSwap {
        u: usize,
        pair: usize,
        side: usize,
        amt: u128,
    },
    /// a route; a cw20 offer is sent to the router with the route as hook, a native offer is sent
    /// along with the route message
    Route {
        u: usize,
        offer: usize,
        hops: Vec<(usize, usize)>,
        amt: u128,
        min: Option<u128>,
        to: Option<usize>,
    },
    /// the route message without sending anything along
    RouteBare {
        u: usize,
        hops: Vec<(usize, usize)>,
        min: Option<u128>,
        to: Option<usize>,
    },
    /// the route message as a token transfer notice, sent by an account that is no token
    RouteForged {
        u: usize,
        sender: usize,
        hops: Vec<(usize, usize)>,
        min: Option<u128>,
        to: Option<usize>,
    },
    /// an internal message of the router as the hook of a token transfer
    RouterHookStep {
        u: usize,
        offer: usize,
        amt: u128,
        hop: (usize, usize),
        to: Option<usize>,
    },
    RouterStep {
        u: usize,
        hop: (usize, usize),
        to: Option<usize>,
    },
    RouterAssert {
        u: usize,
        asset: usize,
        prev: u128,
        min: u128,
        receiver: usize,
    },
    /// factory owner (or somebody else) migrates a pair
    Migrate {
        u: usize,
        pair: usize,
        code: Option<u64>,
    },
    /// blocks pass
    Wait { blocks: u64 },
    /// an operation with additional coins (asset, amount) sent along
    Paid { op: Box<Op>, coins: Vec<(usize, u128)> },
    /// a swap, redemption, route or stray request made with another user's tokens, out of an allowance
    Delegated { owner: usize, op: Box<Op> },
    /// several operations, judged one after the other
    Seq(Vec<Op>),
}

pub type Disc = (Vec<&'static str>, String);

pub struct Pred {
    pub verdict: Verdict,
    /// why it has to be refused
    pub refuse: Vec<&'static str>,
    /// broken if it is refused although it has to be accepted
    pub live: Vec<&'static str>,
    pub post: Option<Obs>,
}

pub fn dec(atomics: u128) -> Decimal {
    Decimal::new(Uint128::new(atomics))
}

impl World {
    pub fn base_chain(&self) -> Chain {
        new_chain(&self.bank)
    }

    /// Builds the world; `judge` receives every seeding step. Err: the set-up could not be done.
    pub fn build(spec: &Spec) -> Result<(World, Chain, Vec<Disc>), (String, Vec<Disc>)> {
        let mut discs = vec![];
        match World::build_inner(spec, &mut discs) {
            Ok((w, c)) => Ok((w, c, discs)),
            Err(e) => Err((e, discs)),
        }
    }
    fn build_inner(spec: &Spec, discs: &mut Vec<Disc>) -> Result<(World, Chain), String> {
        let mut bank = vec![];
        for (i, u) in USERS.iter().enumerate() {
            let mut c = vec![];
            for (d, _, b) in &spec.natives {
                if b[i] > 0 {
                    c.push(coin(d, b[i]));
                }
            }
            c.sort_by(|a: &Coin, b: &Coin| a.denom.cmp(&b.denom));
            bank.push((u.to_string(), c));
        }
        let mut app = new_chain(&bank);
        set_clock(&mut app, 0);
        let inst = |app: &mut Chain, code: u64, by: &str, msg: &dyn erased::Ser, label: &str| {
            let bin = msg.to_bin();
            guard(|| {
                let m = cosmwasm_std::WasmMsg::Instantiate {
                    admin: Some("owner".into()),
                    code_id: code,
                    msg: bin,
                    funds: vec![],
                    label: label.into(),
                };
                let r = app.execute(Addr::unchecked(by), m.into())?;
                let d = cw_utils::parse_instantiate_response_data(r.data.unwrap_or_default().as_slice())?;
                Ok(d.contract_address)
            })
            .map_err(|e| format!("instantiating {}: {}", label, e.1))
        };
        let factory = inst(
            &mut app,
            CODE_FACTORY,
            "owner",
            &FInst {
                pair_code_id: CODE_PAIR,
                token_code_id: CODE_TOKEN,
            },
            "factory",
        )?;
        let router = inst(
            &mut app,
            CODE_ROUTER,
            "owner",
            &RInst {
                halo_factory: factory.clone(),
            },
            "router",
        )?;
        let recorder = inst(&mut app, CODE_RECORDER, "owner", &cosmwasm_std::Empty {}, "recorder")?;
        let mut accts: Vec<String> = USERS.iter().map(|s| s.to_string()).collect();
        accts.extend([factory.clone(), router.clone(), recorder]);
        let mut assets = vec![];
        for (i, (d, b)) in spec.tokens.iter().enumerate() {
            let a = inst(
                &mut app,
                CODE_TOKEN,
                "owner",
                &TInst {
                    name: format!("token {}", i),
                    symbol: "TOK".into(),
                    decimals: *d,
                    initial_balances: USERS
                        .iter()
                        .zip(b)
                        .filter(|x| *x.1 > 0)
                        .map(|(u, a)| cw20::Cw20Coin {
                            address: u.to_string(),
                            amount: Uint128::new(*a),
                        })
                        .collect(),
                    mint: None,
                },
                "token",
            )?;
            assets.push(AssetRef {
                info: tok(&a),
                decimals: *d,
                lp_of: None,
            });
        }
        for (den, d, b) in &spec.natives {
            assets.push(AssetRef {
                info: nat(den),
                decimals: *d,
                lp_of: None,
            });
            // the factory verifies a denom by its own balance
            if b[OWNER] == 0 {
                return Err("spec: owner needs every native".into());
            }
            guard(|| app.send_tokens(Addr::unchecked("owner"), Addr::unchecked(&factory), &[coin(den, 1)]))
                .map_err(|e| e.1)?;
            let o = exec(
                &mut app,
                "owner",
                &factory,
                &FExec::AddNativeTokenDecimals {
                    denom: den.clone(),
                    decimals: *d,
                },
                &[],
            );
            if !o.ok() {
                return Err(format!("registering {}: {}", den, o.describe()));
            }
        }
        let mut w = World {
            spec: spec.clone(),
            accts,
            assets,
            pairs: vec![],
            native_total: vec![],
            bank,
        };
        for (i, p) in spec.pairs.iter().enumerate() {
            for _ in 0..spec.fillers.get(i).cloned().unwrap_or(0) {
                inst(&mut app, CODE_RECORDER, "owner", &cosmwasm_std::Empty {}, "filler")?;
            }
            let infos = [w.assets[p.assets[0]].info.clone(), w.assets[p.assets[1]].info.clone()];
            let o = exec(
                &mut app,
                "owner",
                &factory,
                &FExec::CreatePair {
                    asset_infos: infos.clone(),
                    requirements: CreatePairRequirements {
                        whitelist: p
                            .whitelist
                            .iter()
                            .map(|u| match u.checked_sub(NAMED) {
                                // strangers who never act
                                Some(i) if *u >= STRANGERS => Addr::unchecked(format!("stranger{}", i)),
                                Some(i) => Addr::unchecked(&spec.names[i]),
                                None => Addr::unchecked(USERS[*u]),
                            })
                            .collect(),
                        first_asset_minimum: Uint128::new(p.mins[0]),
                        second_asset_minimum: Uint128::new(p.mins[1]),
                    },
                },
                &[],
            );
            if !o.ok() {
                return Err(format!("creating pair {}: {}", i, o.describe()));
            }
            let pi: PairInfo = query(&app, &factory, &FQuery::Pair { asset_infos: infos })?;
            let acct = w.accts.len();
            w.accts.push(pi.contract_addr.clone());
            w.assets.push(AssetRef {
                info: tok(&pi.liquidity_token),
                decimals: 6,
                lp_of: Some(i),
            });
            w.pairs.push(PairRef {
                addr: pi.contract_addr.clone(),
                acct,
                assets: p.assets,
                lp: w.assets.len() - 1,
                whitelist: p.whitelist.clone(),
                mins: p.mins,
            });
            if spec.allowance > 0 {
                for side in 0..2 {
                    let a = &w.assets[p.assets[side]];
                    if a.native() {
                        continue;
                    }
                    for u in USERS {
                        let o = exec(
                            &mut app,
                            u,
                            a.id(),
                            &Cw20ExecuteMsg::IncreaseAllowance {
                                spender: pi.contract_addr.clone(),
                                amount: Uint128::new(spec.allowance),
                                expires: None,
                            },
                            &[],
                        );
                        if !o.ok() {
                            return Err(format!("allowance: {}", o.describe()));
                        }
                    }
                }
            }
        }
        w.accts.extend(spec.names.iter().cloned());
        if spec.contracts {
            for a in &w.assets {
                if !a.native() {
                    w.accts.push(a.id().to_string());
                }
            }
        }
        w.native_total = w
            .assets
            .iter()
            .map(|a| {
                if a.native() {
                    let k = spec.natives.iter().find(|n| n.0 == a.id()).unwrap();
                    k.2.iter().sum()
                } else {
                    0
                }
            })
            .collect();
        for op in &spec.seeds {
            let pre = w.observe(&app)?;
            let s = w.step(&mut app, &pre, op, discs);
            if !s {
                return Err(format!("seeding step {:?} did not complete ({:?})", op, discs));
            }
        }
        Ok((w, app))
    }

    pub fn observe(&self, app: &Chain) -> Result<Obs, String> {
        let mut bal = Vec::with_capacity(self.assets.len());
        let mut supply = Vec::with_capacity(self.assets.len());
        for (i, a) in self.assets.iter().enumerate() {
            let mut v = Vec::with_capacity(self.accts.len());
            for c in &self.accts {
                v.push(if a.native() {
                    bank_balance(app, c, a.id())
                } else {
                    token_balance(app, a.id(), c)?
                });
            }
            bal.push(v);
            supply.push(if a.native() {
                self.native_total[i]
            } else {
                token_info(app, a.id())?.total_supply.u128()
            });
        }
        let mut allow = vec![];
        for p in &self.pairs {
            let mut v = vec![];
            for u in USERS {
                let mut x = [0, 0];
                for s in 0..2 {
                    let a = &self.assets[p.assets[s]];
                    if !a.native() {
                        x[s] = allowance(app, a.id(), u, &p.addr)?;
                    }
                }
                v.push(x);
            }
            allow.push(v);
        }
        Ok(Obs { bal, supply, allow })
    }

    pub fn reserves(&self, o: &Obs, pair: usize) -> [u128; 2] {
        let p = &self.pairs[pair];
        [o.bal[p.assets[0]][p.acct], o.bal[p.assets[1]][p.acct]]
    }
    pub fn lp_supply(&self, o: &Obs, pair: usize) -> u128 {
        o.supply[self.pairs[pair].lp]
    }
    pub fn factory(&self) -> &str {
        &self.accts[FACT]
    }
    pub fn router(&self) -> &str {
        &self.accts[ROUT]
    }
    fn opt_acct(&self, a: Option<usize>) -> Option<String> {
        a.map(|i| match i.checked_sub(ODD) {
            Some(o) => ODD_TEXTS[o].to_string(),
            None => self.accts[i].clone(),
        })
    }
    /// the accounts beyond users, system contracts and pairs: additional names and tokens
    pub fn others(&self) -> std::ops::Range<usize> {
        PAIR0 + self.spec.pairs.len()..self.accts.len()
    }
    /// no address at all
    pub fn odds(&self) -> std::ops::Range<usize> {
        ODD..ODD + ODD_TEXTS.len()
    }
    pub fn hops(&self, hops: &[(usize, usize)]) -> Vec<SwapOperation> {
        hops.iter()
            .map(|(a, b)| SwapOperation::HaloSwap {
                offer_asset_info: self.assets[*a].info.clone(),
                ask_asset_info: self.assets[*b].info.clone(),
            })
            .collect()
    }
    pub fn pair_of(&self, a: usize, b: usize) -> Option<usize> {
        self.pairs
            .iter()
            .position(|p| p.assets == [a, b] || p.assets == [b, a])
    }
    /// declared assets, deposits by pair side (None when the pair's assets are not both declared), funds
    fn provide_parts(
        &self,
        pair: usize,
        d: [u128; 2],
        declared: &Option<[usize; 2]>,
        funds: &Option<Vec<(usize, u128)>>,
    ) -> (Vec<(usize, u128)>, Vec<(usize, u128)>) {
        let p = &self.pairs[pair];
        let da = declared.unwrap_or(p.assets);
        let decl = vec![(da[0], d[0]), (da[1], d[1])];
        let f = match funds {
            Some(f) => f.clone(),
            None => decl
                .iter()
                .filter(|x| self.assets[x.0].native() && x.1 > 0)
                .cloned()
                .collect(),
        };
        (decl, f)
    }

    // ------------------------------------------------------------------ execution
    pub fn run(&self, app: &mut Chain, op: &Op) -> Outcome {
        if let Op::Paid { op, coins } = op {
            let mut c: Vec<Coin> = coins.iter().map(|x| coin(self.assets[x.0].id(), x.1)).collect();
            c.sort_by(|a, b| a.denom.cmp(&b.denom));
            return self.run_with(app, op, &c, None);
        }
        if let Op::Delegated { owner, op } = op {
            let before = snap(app);
            let (u, asset, amt) = self.sends(op).expect("an operation that sends tokens");
            let a = exec(
                app,
                USERS[*owner],
                self.assets[asset].id(),
                &Cw20ExecuteMsg::IncreaseAllowance {
                    spender: USERS[u].into(),
                    amount: Uint128::new(amt),
                    expires: None,
                },
                &[],
            );
            let r = if a.ok() { self.run_with(app, op, &[], Some(*owner)) } else { a };
            if !r.ok() {
                restore(app, &before);
            }
            return r;
        }
        self.run_with(app, op, &[], None)
    }
    /// user, asset and amount of an operation that sends a cw20 token
    fn sends(&self, op: &Op) -> Option<(usize, usize, u128)> {
        Some(match op {
            Op::Swap { u, pair, side, amt, .. } => (*u, self.pairs[*pair].assets[*side], *amt),
            Op::Withdraw { u, pair, amt } => (*u, self.pairs[*pair].lp, *amt),
            Op::SendHook { u, asset, amt, .. } => (*u, *asset, *amt),
            Op::Route { u, offer, amt, .. } => (*u, *offer, *amt),
            _ => return None,
        })
    }
    /// sends tokens with a request, one's own or (`owner`) somebody else's
    fn give_with(&self, app: &mut Chain, u: usize, owner: Option<usize>, asset: usize, contract: &str, amt: u128, msg: Binary) -> Outcome {
        let (contract, amount) = (contract.to_string(), Uint128::new(amt));
        let m = match owner {
            None => Cw20ExecuteMsg::Send { contract, amount, msg },
            Some(o) => Cw20ExecuteMsg::SendFrom {
                owner: USERS[o].into(),
                contract,
                amount,
                msg,
            },
        };
        exec(app, USERS[u], self.assets[asset].id(), &m, &[])
    }
    /// `extra`: coins sent along with a message that needs none; `owner`: whose tokens are sent
    fn run_with(&self, app: &mut Chain, op: &Op, extra: &[Coin], owner: Option<usize>) -> Outcome {
        match op {
            Op::Swap {
                u,
                pair,
                side,
                amt,
                belief,
                max,
                to,
            } => {
                let p = &self.pairs[*pair];
                let hook = Cw20HookMsg::Swap {
                    belief_price: belief.map(dec),
                    max_spread: max.map(dec),
                    to: self.opt_acct(*to),
                };
                self.give_with(app, *u, owner, p.assets[*side], &p.addr, *amt, to_binary(&hook).unwrap())
            }
            Op::Provide {
                u,
                pair,
                d,
                rev,
                tol,
                to,
                declared,
                funds,
            } => {
                let p = &self.pairs[*pair];
                let (mut decl, f) = self.provide_parts(*pair, *d, declared, funds);
                if *rev {
                    decl.reverse();
                }
                let mk = |x: (usize, u128)| Asset {
                    info: self.assets[x.0].info.clone(),
                    amount: Uint128::new(x.1),
                };
                let mut coins: Vec<Coin> = f.iter().map(|x| coin(self.assets[x.0].id(), x.1)).collect();
                coins.sort_by(|a, b| a.denom.cmp(&b.denom));
                exec(
                    app,
                    USERS[*u],
                    &p.addr,
                    &PExec::ProvideLiquidity {
                        assets: [mk(decl[0]), mk(decl[1])],
                        slippage_tolerance: tol.map(dec),
                        receiver: self.opt_acct(*to),
                    },
                    &coins,
                )
            }
            Op::Withdraw { u, pair, amt } => {
                let p = &self.pairs[*pair];
                let h = to_binary(&Cw20HookMsg::WithdrawLiquidity {}).unwrap();
                self.give_with(app, *u, owner, p.lp, &p.addr, *amt, h)
            }
            Op::Transfer { u, asset, to, amt } => {
                let a = &self.assets[*asset];
                if a.native() {
                    outcome(guard(|| {
                        app.send_tokens(
                            Addr::unchecked(USERS[*u]),
                            Addr::unchecked(&self.accts[*to]),
                            &[coin(a.id(), *amt)],
                        )
                    }))
                } else {
                    exec(
                        app,
                        USERS[*u],
                        a.id(),
                        &Cw20ExecuteMsg::Transfer {
                            recipient: self.accts[*to].clone(),
                            amount: Uint128::new(*amt),
                        },
                        &[],
                    )
                }
            }
            Op::Forge {
                sender,
                pair,
                owner,
                amt,
                swap,
                to,
            } => self.forge(app, &self.accts[*sender].clone(), *pair, *owner, *amt, *swap, *to, extra),
            Op::ForgeByToken {
                asset,
                pair,
                owner,
                amt,
                swap,
            } => self.forge(
                app,
                &self.assets[*asset].id().to_string(),
                *pair,
                *owner,
                *amt,
                *swap,
                None,
                extra,
            ),
            Op::SendHook {
                u,
                asset,
                pair,
                amt,
                swap,
            } => {
                let h = if *swap {
                    Cw20HookMsg::Swap {
                        belief_price: None,
                        max_spread: None,
                        to: None,
                    }
                } else {
                    Cw20HookMsg::WithdrawLiquidity {}
                };
                self.give_with(app, *u, owner, *asset, &self.pairs[*pair].addr, *amt, to_binary(&h).unwrap())
            }
            Op::SendJunk { u, asset, pair, amt } => exec(
                app,
                USERS[*u],
                self.assets[*asset].id(),
                &Cw20ExecuteMsg::Send {
                    contract: self.pairs[*pair].addr.clone(),
                    amount: Uint128::new(*amt),
                    msg: cosmwasm_std::Binary::from(b"{\"swop\":{}}".to_vec()),
                },
                &[],
            ),
            Op::LpMint { u, pair, to, amt } => exec(
                app,
                &self.accts[*u].clone(),
                self.assets[self.pairs[*pair].lp].id(),
                &Cw20ExecuteMsg::Mint {
                    recipient: self.accts[*to].clone(),
                    amount: Uint128::new(*amt),
                },
                &[],
            ),
            Op::LpTakeMinter { u, pair } => exec(
                app,
                &self.accts[*u].clone(),
                self.assets[self.pairs[*pair].lp].id(),
                &Cw20ExecuteMsg::UpdateMinter {
                    new_minter: Some(self.accts[*u].clone()),
                },
                &[],
            ),
            Op::LpBurn { u, pair, amt } => exec(
                app,
                USERS[*u],
                self.assets[self.pairs[*pair].lp].id(),
                &Cw20ExecuteMsg::Burn {
                    amount: Uint128::new(*amt),
                },
                &[],
            ),
            Op::NativeSwap { u, pair, side, amt } => {
                let p = &self.pairs[*pair];
                let a = &self.assets[p.assets[*side]];
                let j = serde_json::json!({"swap": {
                    "offer_asset": {"info": a.info, "amount": amt.to_string()},
                    "belief_price": null, "max_spread": null, "to": null}});
                exec(app, USERS[*u], &p.addr, &j, &[coin(a.id(), *amt)])
            }
            Op::Route {
                u,
                offer,
                hops,
                amt,
                min,
                to,
            } => {
                let a = &self.assets[*offer];
                if a.native() {
                    exec(
                        app,
                        USERS[*u],
                        self.router(),
                        &RExec::ExecuteSwapOperations {
                            operations: self.hops(hops),
                            minimum_receive: min.map(Uint128::new),
                            to: self.opt_acct(*to),
                        },
                        &[coin(a.id(), *amt)],
                    )
                } else {
                    let h = RHook::ExecuteSwapOperations {
                        operations: self.hops(hops),
                        minimum_receive: min.map(Uint128::new),
                        to: self.opt_acct(*to),
                    };
                    self.give_with(app, *u, owner, *offer, self.router(), *amt, to_binary(&h).unwrap())
                }
            }
            Op::RouteBare { u, hops, min, to } => exec(
                app,
                USERS[*u],
                self.router(),
                &RExec::ExecuteSwapOperations {
                    operations: self.hops(hops),
                    minimum_receive: min.map(Uint128::new),
                    to: self.opt_acct(*to),
                },
                &[],
            ),
            Op::RouteForged { u, sender, hops, min, to } => {
                let h = RHook::ExecuteSwapOperations {
                    operations: self.hops(hops),
                    minimum_receive: min.map(Uint128::new),
                    to: self.opt_acct(*to),
                };
                exec(
                    app,
                    &self.accts[*u].clone(),
                    self.router(),
                    &RExec::Receive(cw20::Cw20ReceiveMsg {
                        sender: self.accts[*sender].clone(),
                        amount: Uint128::new(1_000),
                        msg: to_binary(&h).unwrap(),
                    }),
                    extra,
                )
            }
            Op::RouterHookStep { u, offer, amt, hop, to } => {
                let h = RExec::ExecuteSwapOperation {
                    operation: self.hops(&[*hop]).pop().unwrap(),
                    to: self.opt_acct(*to),
                };
                exec(
                    app,
                    USERS[*u],
                    self.assets[*offer].id(),
                    &Cw20ExecuteMsg::Send {
                        contract: self.router().to_string(),
                        amount: Uint128::new(*amt),
                        msg: to_binary(&h).unwrap(),
                    },
                    &[],
                )
            }
            Op::RouterStep { u, hop, to } => exec(
                app,
                &self.accts[*u].clone(),
                self.router(),
                &RExec::ExecuteSwapOperation {
                    operation: self.hops(&[*hop]).pop().unwrap(),
                    to: self.opt_acct(*to),
                },
                extra,
            ),
            Op::RouterAssert {
                u,
                asset,
                prev,
                min,
                receiver,
            } => exec(
                app,
                &self.accts[*u].clone(),
                self.router(),
                &RExec::AssertMinimumReceive {
                    asset_info: self.assets[*asset].info.clone(),
                    prev_balance: Uint128::new(*prev),
                    minimum_receive: Uint128::new(*min),
                    receiver: self.accts[*receiver].clone(),
                },
                extra,
            ),
            Op::Migrate { u, pair, code } => exec(
                app,
                &self.accts[*u].clone(),
                self.factory(),
                &FExec::MigratePair {
                    contract: self.pairs[*pair].addr.clone(),
                    code_id: *code,
                },
                extra,
            ),
            Op::Wait { blocks } => {
                let n = clock(app).unwrap_or(0) + blocks;
                set_clock(app, n);
                Outcome::Done(AppResponse { events: vec![], data: None })
            }
            Op::Paid { .. } | Op::Delegated { .. } | Op::Seq(_) => unreachable!("expanded by the callers"),
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn forge(
        &self,
        app: &mut Chain,
        sender: &str,
        pair: usize,
        owner: usize,
        amt: u128,
        swap: bool,
        to: Option<usize>,
        extra: &[Coin],
    ) -> Outcome {
        let h = if swap {
            Cw20HookMsg::Swap {
                belief_price: None,
                max_spread: None,
                to: self.opt_acct(to),
            }
        } else {
            Cw20HookMsg::WithdrawLiquidity {}
        };
        exec(
            app,
            sender,
            &self.pairs[pair].addr,
            &PExec::Receive(cw20::Cw20ReceiveMsg {
                sender: self.accts[owner].clone(),
                amount: Uint128::new(amt),
                msg: to_binary(&h).unwrap(),
            }),
            extra,
        )
    }

    // ------------------------------------------------------------------ prediction
    fn mv(&self, o: &mut Obs, asset: usize, from: usize, to: usize, amt: u128) -> bool {
        let f = o.bal[asset][from];
        if f < amt {
            return false;
        }
        o.bal[asset][from] = f - amt;
        match o.bal[asset][to].checked_add(amt) {
            Some(x) => o.bal[asset][to] = x,
            None => return false,
        }
        true
    }

    fn apply_swap(
        &self,
        e: &mut Obs,
        pair: usize,
        offer_asset: usize,
        from: usize,
        amt: u128,
        recv: usize,
    ) -> Option<SwapRef> {
        let p = &self.pairs[pair];
        let side = if p.assets[0] == offer_asset { 0 } else { 1 };
        let (x, y) = (
            e.bal[p.assets[side]][p.acct],
            e.bal[p.assets[1 - side]][p.acct],
        );
        let s = swap_ref(x, y, amt)?;
        if !self.mv(e, offer_asset, from, p.acct, amt) || !self.mv(e, p.assets[1 - side], p.acct, recv, s.ret)
        {
            return None;
        }
        Some(s)
    }

    pub fn predict(&self, pre: &Obs, op: &Op) -> Pred {
        let refuse = |t: Vec<&'static str>| Pred {
            verdict: Verdict::Refuse,
            refuse: t,
            live: vec![],
            post: None,
        };
        let unspec = || Pred {
            verdict: Verdict::Unspec,
            refuse: vec![],
            live: vec![],
            post: None,
        };
        match op {
            Op::Swap {
                u,
                pair,
                side,
                amt,
                belief,
                max,
                to,
            } => {
                let p = &self.pairs[*pair];
                let (oa, aa) = (p.assets[*side], p.assets[1 - *side]);
                if odd(to) {
                    return refuse(vec!["C02"]);
                }
                if *amt == 0 || pre.bal[oa][*u] < *amt {
                    return refuse(vec!["C26"]);
                }
                let mut e = pre.clone();
                let s = match self.apply_swap(&mut e, *pair, oa, *u, *amt, to.unwrap_or(*u)) {
                    Some(s) => s,
                    None => return unspec(),
                };
                let v = limit_ref(
                    *amt,
                    &s,
                    self.assets[oa].decimals,
                    self.assets[aa].decimals,
                    *belief,
                    *max,
                );
                let v = if s.ret == 0 && v == Verdict::Accept {
                    Verdict::Unspec
                } else {
                    v
                };
                Pred {
                    verdict: v,
                    refuse: vec!["C05"],
                    live: if max.is_none() {
                        vec!["C02", "C03", "C05"]
                    } else {
                        vec!["C05"]
                    },
                    post: Some(e),
                }
            }
            Op::Provide {
                u,
                pair,
                d,
                tol,
                to,
                declared,
                funds,
                ..
            } => {
                let p = &self.pairs[*pair];
                let (decl, f) = self.provide_parts(*pair, *d, declared, funds);
                let mut why: Vec<&'static str> = vec![];
                let find = |a: usize| decl.iter().find(|x| x.0 == a).map(|x| x.1);
                let (d0, d1) = (find(p.assets[0]), find(p.assets[1]));
                if odd(to) {
                    return refuse(vec!["C12"]);
                }
                if d0.is_none() || d1.is_none() {
                    why.push("C12");
                    return refuse(why);
                }
                let dep = [d0.unwrap(), d1.unwrap()];
                let mut extra = false;
                for (a, _) in &f {
                    if !p.assets.contains(a) {
                        extra = true;
                    }
                }
                for (a, x) in &decl {
                    if self.assets[*a].native() {
                        let sent: u128 = f.iter().find(|y| y.0 == *a).map(|y| y.1).unwrap_or(0);
                        if sent != *x {
                            why.push("C12");
                        }
                    }
                }
                for (a, x) in &f {
                    if pre.bal[*a][*u] < *x {
                        why.push("C13");
                    }
                }
                for s in 0..2 {
                    let a = p.assets[s];
                    if !self.assets[a].native()
                        && (pre.bal[a][*u] < dep[s] || pre.allow[*pair][*u][s] < dep[s])
                    {
                        why.push("C12");
                    }
                }
                let t = self.lp_supply(pre, *pair);
                let r = self.reserves(pre, *pair);
                let mut uns = extra;
                if t == 0 {
                    if !p.whitelist.contains(u) {
                        why.push("C10");
                    }
                    if dep[0] < p.mins[0] || dep[1] < p.mins[1] {
                        why.push("C10");
                    }
                    match tol {
                        Some(x) if *x > E18 => why.push("C06"),
                        Some(_) => uns = true,
                        None => (),
                    }
                } else {
                    match slippage_ref(dep, r, *tol) {
                        Verdict::Refuse => why.push("C06"),
                        Verdict::Unspec => uns = true,
                        Verdict::Accept => (),
                    }
                }
                let share = share_ref(dep, r, t);
                if share == Some(0) {
                    why.push("C07");
                }
                if !why.is_empty() {
                    return refuse(why);
                }
                let share = match share {
                    Some(s) => s,
                    None => return unspec(),
                };
                let mut e = pre.clone();
                for s in 0..2 {
                    let a = p.assets[s];
                    if !self.mv(&mut e, a, *u, p.acct, dep[s]) {
                        return unspec();
                    }
                    if !self.assets[a].native() {
                        e.allow[*pair][*u][s] -= dep[s];
                    }
                }
                let recv = to.unwrap_or(*u);
                match (
                    e.bal[p.lp][recv].checked_add(share),
                    e.supply[p.lp].checked_add(share),
                ) {
                    (Some(b), Some(s)) => {
                        e.bal[p.lp][recv] = b;
                        e.supply[p.lp] = s;
                    }
                    _ => return unspec(),
                }
                if extra {
                    for (a, x) in &f {
                        if !p.assets.contains(a) {
                            self.mv(&mut e, *a, *u, p.acct, *x);
                        }
                    }
                }
                Pred {
                    verdict: if uns { Verdict::Unspec } else { Verdict::Accept },
                    refuse: vec![],
                    live: vec!["C06", "C07", "C10", "C12"],
                    post: Some(e),
                }
            }
            Op::Withdraw { u, pair, amt } => {
                let p = &self.pairs[*pair];
                if *amt == 0 || pre.bal[p.lp][*u] < *amt {
                    return refuse(vec!["C11"]);
                }
                let t = self.lp_supply(pre, *pair);
                let r = self.reserves(pre, *pair);
                let ratio = fl(w(*amt) * w(E18), w(t));
                let ok = r.iter().all(|x| fl(w(*x) * ratio, w(E18)) >= w(1));
                Pred {
                    verdict: if ok { Verdict::Accept } else { Verdict::Unspec },
                    refuse: vec![],
                    live: vec!["C08"],
                    post: None,
                }
            }
            Op::Transfer { u, asset, to, amt } => {
                if *amt == 0 || pre.bal[*asset][*u] < *amt {
                    return refuse(vec!["C26"]);
                }
                let mut e = pre.clone();
                self.mv(&mut e, *asset, *u, *to, *amt);
                Pred {
                    verdict: Verdict::Accept,
                    refuse: vec![],
                    live: vec!["C26"],
                    post: Some(e),
                }
            }
            Op::Forge {
                sender,
                pair,
                swap,
                owner,
                amt,
                ..
            } => match self.assets.iter().position(|a| !a.native() && a.id() == self.accts[*sender]) {
                Some(asset) => self.predict(
                    pre,
                    &Op::ForgeByToken {
                        asset,
                        pair: *pair,
                        owner: *owner,
                        amt: *amt,
                        swap: *swap,
                    },
                ),
                None => refuse(vec!["C11"]),
            },
            Op::ForgeByToken {
                asset, pair, swap, ..
            }
            | Op::SendHook {
                asset, pair, swap, ..
            } => {
                let p = &self.pairs[*pair];
                if *swap && p.assets.contains(asset) || !*swap && p.lp == *asset {
                    unspec()
                } else if self.assets[*asset].lp_of.map_or(false, |x| x != *pair) {
                    refuse(vec!["C11", "C31"])
                } else {
                    refuse(vec!["C11"])
                }
            }
            Op::SendJunk { .. } => refuse(vec!["C11"]),
            Op::LpMint { u, pair, .. } => {
                if *u == self.pairs[*pair].acct {
                    unspec()
                } else {
                    refuse(vec!["C11"])
                }
            }
            Op::LpTakeMinter { u, pair } => {
                if *u == self.pairs[*pair].acct {
                    unspec()
                } else {
                    refuse(vec!["C11"])
                }
            }
            Op::LpBurn { u, pair, amt } => {
                let lp = self.pairs[*pair].lp;
                if *amt == 0 || pre.bal[lp][*u] < *amt {
                    return refuse(vec!["C26"]);
                }
                let mut e = pre.clone();
                e.bal[lp][*u] -= *amt;
                e.supply[lp] -= *amt;
                Pred {
                    verdict: Verdict::Accept,
                    refuse: vec![],
                    live: vec!["C26"],
                    post: Some(e),
                }
            }
            Op::NativeSwap { .. } => unspec(),
            Op::Route {
                u,
                offer,
                hops,
                amt,
                min,
                to,
            } => {
                if odd(to) {
                    return refuse(vec!["C19"]);
                }
                if !self.assets[*offer].native() && *amt == 0 || pre.bal[*offer][*u] < *amt {
                    return refuse(vec!["C26"]);
                }
                let mut e = pre.clone();
                self.mv(&mut e, *offer, *u, ROUT, *amt);
                self.predict_route(pre, e, hops, *min, to.unwrap_or(*u), Some(*offer))
            }
            Op::RouteBare { u, hops, min, to } => {
                if odd(to) {
                    return refuse(vec!["C19"]);
                }
                self.predict_route(pre, pre.clone(), hops, *min, to.unwrap_or(*u), None)
            }
            Op::RouteForged { sender, hops, min, to, .. } => {
                if odd(to) {
                    return refuse(vec!["C19"]);
                }
                self.predict_route(pre, pre.clone(), hops, *min, to.unwrap_or(*sender), None)
            }
            Op::RouterHookStep { .. } => refuse(vec!["C22"]),
            Op::RouterStep { u, .. } => {
                if *u == ROUT {
                    unspec()
                } else {
                    refuse(vec!["C22"])
                }
            }
            Op::RouterAssert {
                asset,
                prev,
                min,
                receiver,
                ..
            } => {
                let b = pre.bal[*asset][*receiver];
                if b >= *prev && b - *prev >= *min {
                    Pred {
                        verdict: Verdict::Accept,
                        refuse: vec![],
                        live: vec!["C22"],
                        post: Some(pre.clone()),
                    }
                } else {
                    refuse(vec!["C22"])
                }
            }
            Op::Migrate { u, code, .. } => {
                if *u != OWNER {
                    return refuse(vec!["C30", "C17"]);
                }
                match code {
                    None | Some(CODE_PAIR) | Some(CODE_PAIR2) => Pred {
                        verdict: Verdict::Accept,
                        refuse: vec![],
                        live: vec!["C30"],
                        post: Some(pre.clone()),
                    },
                    _ => unspec(),
                }
            }
            Op::Paid { op, coins } => {
                let p = match self.paid(pre, op, coins) {
                    Some(e) => self.predict(&e, op),
                    None => refuse(vec!["C13"]),
                };
                p
            }
            Op::Delegated { owner, op } => match self.lent(pre, *owner, op) {
                Some(e) => self.predict(&e, op),
                None => refuse(vec!["C26"]),
            },
            Op::Wait { .. } => Pred {
                verdict: Verdict::Accept,
                refuse: vec![],
                live: vec![],
                post: Some(pre.clone()),
            },
            Op::Seq(_) => unspec(),
        }
    }
    pub fn actor(&self, op: &Op) -> Option<usize> {
        match op {
            Op::Forge { sender, .. } => Some(*sender),
            Op::RouteForged { u, .. } | Op::RouterStep { u, .. } | Op::RouterAssert { u, .. } | Op::Migrate { u, .. } => Some(*u),
            _ => None,
        }
    }
    /// the observation as if the owner's tokens had been the sender's
    fn lent(&self, pre: &Obs, owner: usize, op: &Op) -> Option<Obs> {
        let (u, asset, amt) = self.sends(op)?;
        let mut e = pre.clone();
        (owner != u && self.mv(&mut e, asset, owner, u, amt)).then_some(e)
    }
    /// the observation after the additional coins of an operation have reached the contract called
    fn paid(&self, pre: &Obs, op: &Op, coins: &[(usize, u128)]) -> Option<Obs> {
        let from = self.actor(op).expect("an operation that takes coins");
        let to = match op {
            Op::Forge { pair, .. } => self.pairs[*pair].acct,
            Op::Migrate { .. } => FACT,
            _ => ROUT,
        };
        let mut e = pre.clone();
        for (a, x) in coins {
            if !self.mv(&mut e, *a, from, to, *x) {
                return None;
            }
        }
        Some(e)
    }

    /// outputs left over by a route, as the property defines them
    pub fn leftover(hops: &[(usize, usize)]) -> std::collections::BTreeSet<usize> {
        let mut s = std::collections::BTreeSet::new();
        for (a, b) in hops {
            s.remove(a);
            s.insert(*b);
        }
        s
    }
    pub fn chained(hops: &[(usize, usize)]) -> bool {
        hops.windows(2).all(|x| x[0].1 == x[1].0)
    }

    /// `e`: observation after the offer reached the router
    fn predict_route(
        &self,
        pre: &Obs,
        mut e: Obs,
        hops: &[(usize, usize)],
        min: Option<u128>,
        recv: usize,
        offer: Option<usize>,
    ) -> Pred {
        let mut p = Pred {
            verdict: Verdict::Accept,
            refuse: vec![],
            live: vec!["C19", "C21"],
            post: None,
        };
        if hops.is_empty() || World::leftover(hops).len() != 1 {
            p.verdict = Verdict::Refuse;
            p.refuse = vec!["C21"];
            return p;
        }
        if hops.iter().any(|(a, b)| a == b || self.pair_of(*a, *b).is_none()) {
            p.verdict = Verdict::Refuse;
            p.refuse = vec!["C21"];
            return p;
        }
        let involved: Vec<usize> = hops.iter().flat_map(|h| [h.0, h.1]).collect();
        let clean = involved.iter().all(|a| pre.bal[*a][ROUT] == 0);
        if !World::chained(hops) || !clean || recv == ROUT || offer.map_or(true, |o| o != hops[0].0) {
            // not specified beyond safety
            p.verdict = Verdict::Unspec;
            return p;
        }
        // a hop whose offer is native cannot be swapped in this code base
        if hops.iter().any(|h| self.assets[h.0].native()) {
            p.verdict = Verdict::Unspec;
            return p;
        }
        let target = hops.last().unwrap().1;
        let before = e.bal[target][recv];
        for (i, h) in hops.iter().enumerate() {
            let amt = e.bal[h.0][ROUT];
            let pr = self.pair_of(h.0, h.1).unwrap();
            let last = i + 1 == hops.len();
            if amt == 0 {
                p.verdict = Verdict::Unspec;
                return p;
            }
            let s = match self.apply_swap(&mut e, pr, h.0, ROUT, amt, if last { recv } else { ROUT }) {
                Some(s) => s,
                None => {
                    p.verdict = Verdict::Unspec;
                    return p;
                }
            };
            let l = limit_ref(
                amt,
                &s,
                self.assets[h.0].decimals,
                self.assets[h.1].decimals,
                None,
                None,
            );
            if l != Verdict::Accept {
                p.verdict = Verdict::Unspec;
                return p;
            }
            if s.ret == 0 {
                p.verdict = Verdict::Unspec;
                if !last {
                    return p;
                }
            }
        }
        if let Some(m) = min {
            p.live.push("C20");
            let after = e.bal[target][recv];
            if after < before || after - before < m {
                p.verdict = Verdict::Refuse;
                p.refuse = vec!["C20"];
                return p;
            }
        } else {
            p.live.push("C20");
        }
        p.post = Some(e);
        p
    }

    /// properties that say that this operation, refused, changes nothing
    pub fn atomic_tags(&self, op: &Op) -> Vec<&'static str> {
        if let Op::Paid { op, .. } | Op::Delegated { op, .. } = op {
            return self.atomic_tags(op);
        }
        let mut t = vec!["C13"];
        t.extend(match op {
            Op::Provide { .. } => vec!["C12"],
            Op::Forge { .. } | Op::ForgeByToken { .. } | Op::SendHook { .. } | Op::SendJunk { .. } => vec!["C11"],
            Op::Route { .. } | Op::RouteBare { .. } | Op::RouteForged { .. } => vec!["C19", "C21"],
            Op::RouterStep { .. } | Op::RouterHookStep { .. } | Op::RouterAssert { .. } => vec!["C22"],
            Op::Transfer { .. } => vec!["C26"],
            Op::Migrate { .. } => vec!["C30", "C17"],
            _ => vec![],
        });
        t
    }

    // ------------------------------------------------------------------ judging
    fn targets(&self, op: &Op) -> Option<usize> {
        match op {
            Op::Swap { pair, .. }
            | Op::Provide { pair, .. }
            | Op::Withdraw { pair, .. }
            | Op::Forge { pair, .. }
            | Op::ForgeByToken { pair, .. }
            | Op::SendHook { pair, .. }
            | Op::SendJunk { pair, .. }
            | Op::LpMint { pair, .. }
            | Op::LpTakeMinter { pair, .. }
            | Op::LpBurn { pair, .. }
            | Op::NativeSwap { pair, .. }
            | Op::Migrate { pair, .. } => Some(*pair),
            _ => None,
        }
    }

    /// an invalid recipient is named: nothing can be said about balances
    fn nowhere(&self, op: &Op) -> bool {
        match op {
            Op::Swap { to, .. }
            | Op::Provide { to, .. }
            | Op::Route { to, .. }
            | Op::RouteBare { to, .. }
            | Op::RouteForged { to, .. } => odd(to),
            _ => false,
        }
    }
    fn diff(&self, e: &Obs, a: &Obs) -> Vec<(usize, usize, u128, u128)> {
        let mut v = vec![];
        for i in 0..e.bal.len() {
            for j in 0..e.bal[i].len() {
                if e.bal[i][j] != a.bal[i][j] {
                    v.push((i, j, e.bal[i][j], a.bal[i][j]));
                }
            }
        }
        v
    }
    fn show_diff(&self, e: &Obs, a: &Obs) -> String {
        let mut s = String::new();
        for (i, j, x, y) in self.diff(e, a) {
            s += &format!(
                "[{} of {}: expected {}, found {}] ",
                self.assets[i].id(),
                self.accts[j],
                x,
                y
            );
        }
        for i in 0..e.supply.len() {
            if e.supply[i] != a.supply[i] {
                s += &format!(
                    "[supply of {}: expected {}, found {}] ",
                    self.assets[i].id(),
                    e.supply[i],
                    a.supply[i]
                );
            }
        }
        if e.allow != a.allow {
            s += "[allowances differ]";
        }
        s
    }

    /// model-independent invariants of a state
    pub fn invariants(&self, app: &Chain, o: &Obs, out: &mut Vec<Disc>, pools: bool) {
        for (i, a) in self.assets.iter().enumerate() {
            let sum = o.bal[i].iter().fold(w(0), |s, x| s + w(*x));
            let want = if a.native() { self.native_total[i] } else { o.supply[i] };
            if sum != w(want) {
                out.push((
                    vec!["C13"],
                    format!(
                        "the balances of {} add up to {} but its total is {}",
                        a.id(),
                        sum,
                        want
                    ),
                ));
            }
        }
        if pools {
            for (i, p) in self.pairs.iter().enumerate() {
                match query::<_, PoolResponse>(app, &p.addr, &PQuery::Pool {}) {
                    Ok(r) => {
                        let want: Vec<Asset> = (0..2)
                            .map(|s| Asset {
                                info: self.assets[p.assets[s]].info.clone(),
                                amount: Uint128::new(o.bal[p.assets[s]][p.acct]),
                            })
                            .collect();
                        let got = r.assets.to_vec();
                        let same = got == want || got.iter().rev().cloned().collect::<Vec<_>>() == want;
                        if !same || r.total_share.u128() != self.lp_supply(o, i) {
                            out.push((
                                vec!["C13"],
                                format!(
                                    "pool query of pair {} reports {:?} / {}, actual holdings {:?} / {}",
                                    i,
                                    got,
                                    r.total_share,
                                    want,
                                    self.lp_supply(o, i)
                                ),
                            ));
                        }
                    }
                    Err(e) => out.push((vec!["C13"], format!("pool query of pair {} failed: {}", i, e))),
                }
            }
        }
    }

    /// quotes taken before a swap
    pub fn sim(&self, app: &Chain, pair: usize, asset: usize, amt: u128) -> Result<SimulationResponse, String> {
        query(
            app,
            &self.pairs[pair].addr,
            &PQuery::Simulation {
                offer_asset: Asset {
                    info: self.assets[asset].info.clone(),
                    amount: Uint128::new(amt),
                },
            },
        )
    }
    pub fn rsim(
        &self,
        app: &Chain,
        pair: usize,
        asset: usize,
        amt: u128,
    ) -> Result<ReverseSimulationResponse, String> {
        query(
            app,
            &self.pairs[pair].addr,
            &PQuery::ReverseSimulation {
                ask_asset: Asset {
                    info: self.assets[asset].info.clone(),
                    amount: Uint128::new(amt),
                },
            },
        )
    }
    pub fn route_sim(&self, app: &Chain, hops: &[(usize, usize)], amt: u128) -> Result<u128, String> {
        query::<_, SimulateSwapOperationsResponse>(
            app,
            self.router(),
            &RQuery::SimulateSwapOperations {
                offer_amount: Uint128::new(amt),
                operations: self.hops(hops),
            },
        )
        .map(|r| r.amount.u128())
    }
    pub fn route_rsim(&self, app: &Chain, hops: &[(usize, usize)], amt: u128) -> Result<u128, String> {
        query::<_, SimulateSwapOperationsResponse>(
            app,
            self.router(),
            &RQuery::ReverseSimulateSwapOperations {
                ask_amount: Uint128::new(amt),
                operations: self.hops(hops),
            },
        )
        .map(|r| r.amount.u128())
    }

    /// Executes and judges one operation; true: it completed. Discrepancies are appended to `out`.
    pub fn step(&self, app: &mut Chain, pre: &Obs, op: &Op, out: &mut Vec<Disc>) -> bool {
        self.step_obs(app, pre, op, out).is_some()
    }

    /// As `step`; the observation after a completed operation.
    pub fn step_obs(&self, app: &mut Chain, pre: &Obs, op: &Op, out: &mut Vec<Disc>) -> Option<Obs> {
        if let Op::Seq(ops) = op {
            let mut o = pre.clone();
            let mut any = false;
            for x in ops {
                if let Some(n) = self.step_obs(app, &o, x, out) {
                    o = n;
                    any = true;
                }
                if !out.is_empty() {
                    break;
                }
            }
            return if any { Some(o) } else { None };
        }
        if let Op::Paid { op: inner, coins } = op {
            let pred = self.predict(pre, op);
            let res = self.run(app, op);
            let e = self.paid(pre, inner, coins).unwrap_or_else(|| pre.clone());
            return self.judge(app, &e, inner, pred, res, None, None, out);
        }
        if let Op::Delegated { owner, op: inner } = op {
            let pred = self.predict(pre, op);
            let res = self.run(app, op);
            let e = self.lent(pre, *owner, inner).unwrap_or_else(|| pre.clone());
            return self.judge(app, &e, inner, pred, res, None, None, out);
        }
        // quotes before the operation
        let mut quote: Option<Result<SimulationResponse, String>> = None;
        if let Op::Swap { pair, side, amt, .. } = op {
            quote = Some(self.sim(app, *pair, self.pairs[*pair].assets[*side], *amt));
        }
        let mut rquote: Option<Result<u128, String>> = None;
        if let Op::Route { hops, amt, .. } = op {
            rquote = Some(self.route_sim(app, hops, *amt));
        }
        let pred = self.predict(pre, op);
        let res = self.run(app, op);
        self.judge(app, pre, op, pred, res, quote, rquote, out)
    }

    #[allow(clippy::too_many_arguments)]
    fn judge(
        &self,
        app: &mut Chain,
        pre: &Obs,
        op: &Op,
        pred: Pred,
        res: Outcome,
        quote: Option<Result<SimulationResponse, String>>,
        rquote: Option<Result<u128, String>>,
        out: &mut Vec<Disc>,
    ) -> Option<Obs> {
        let ctx = |m: String| m;
        if !res.ok() {
            if pred.verdict == Verdict::Accept {
                out.push((
                    pred.live.clone(),
                    ctx(format!("{:?} has to be accepted but was {}", op, res.describe())),
                ));
            }
            return None;
        }
        let resp = match res {
            Outcome::Done(r) => r,
            _ => unreachable!(),
        };
        let post = match self.observe(app) {
            Ok(o) => o,
            Err(e) => {
                out.push((vec!["C13"], format!("after {:?} a balance query failed: {}", op, e)));
                return None;
            }
        };
        if pred.verdict == Verdict::Refuse {
            out.push((
                pred.refuse.clone(),
                format!("{:?} has to be refused but completed", op),
            ));
        }
        if !self.nowhere(op) {
            self.rules(app, pre, op, &post, &pred, &resp, quote, rquote, out);
        }
        Some(post)
    }

    #[allow(clippy::too_many_arguments)]
    fn rules(
        &self,
        app: &Chain,
        pre: &Obs,
        op: &Op,
        post: &Obs,
        pred: &Pred,
        resp: &AppResponse,
        quote: Option<Result<SimulationResponse, String>>,
        rquote: Option<Result<u128, String>>,
        out: &mut Vec<Disc>,
    ) {
        // ---- expected post state
        if pred.verdict != Verdict::Refuse {
            if let Some(e) = &pred.post {
                if e != post {
                    let mut tags: Vec<&'static str> = match op {
                        Op::Swap { .. } => vec!["C02"],
                        Op::Provide { pair, .. } => {
                            let lp = self.pairs[*pair].lp;
                            let mut t = vec![];
                            if e.supply[lp] != post.supply[lp] {
                                t.push("C07");
                            }
                            let mut e2 = e.clone();
                            let mut p2 = post.clone();
                            if !t.is_empty() {
                                // amounts differ: look only at who was credited
                                e2.supply[lp] = 0;
                                p2.supply[lp] = 0;
                                for j in 0..e2.bal[lp].len() {
                                    e2.bal[lp][j] = (e.bal[lp][j] > pre.bal[lp][j]) as u128;
                                    p2.bal[lp][j] = (post.bal[lp][j] > pre.bal[lp][j]) as u128;
                                }
                            }
                            if e2 != p2 {
                                t.push("C12");
                            }
                            t
                        }
                        Op::Transfer { .. } | Op::LpBurn { .. } => vec!["C26"],
                        Op::Route { .. } | Op::RouteBare { .. } | Op::RouteForged { .. } => vec!["C19"],
                        Op::RouterAssert { .. } => vec!["C22"],
                        Op::Migrate { .. } => vec!["C30"],
                        _ => vec![],
                    };
                    if let Some(t) = self.targets(op) {
                        if self.other_pair_changed(pre, post, t, op) {
                            tags.push("C31");
                        }
                    }
                    out.push((tags, format!("{:?}: {}", op, self.show_diff(e, post))));
                }
            }
        }
        // ---- rules on the actual states
        match op {
            Op::Swap { pair, side, to, u, amt, .. } => {
                let (r0, r1) = (self.reserves(pre, *pair), self.reserves(post, *pair));
                if !product_not_lower(r0, r1) || (r0[0] > 0 && r1[0] == 0) || (r0[1] > 0 && r1[1] == 0) {
                    out.push((
                        vec!["C01"],
                        format!("{:?}: reserves {:?} became {:?}", op, r0, r1),
                    ));
                }
                let ask = self.pairs[*pair].assets[1 - *side];
                let recv = to.unwrap_or(*u);
                let paid = post.bal[ask][recv].wrapping_sub(pre.bal[ask][recv]);
                match quote {
                    Some(Ok(q)) => {
                        let pr = &self.pairs[*pair];
                        let at = |k: &str| -> Option<u128> {
                            resp.events
                                .iter()
                                .filter(|e| {
                                    e.ty == "wasm"
                                        && e.attributes
                                            .iter()
                                            .any(|a| a.key == "_contract_addr" && a.value == pr.addr)
                                })
                                .flat_map(|e| e.attributes.iter())
                                .find(|a| a.key == k)
                                .and_then(|a| a.value.parse().ok())
                        };
                        let rep = (at("return_amount"), at("spread_amount"), at("commission_amount"));
                        if recv != pr.acct && q.return_amount.u128() != paid {
                            out.push((
                                vec!["C03"],
                                format!("{:?}: simulated {} but paid {}", op, q.return_amount, paid),
                            ));
                        }
                        if rep
                            != (
                                Some(q.return_amount.u128()),
                                Some(q.spread_amount.u128()),
                                Some(q.commission_amount.u128()),
                            )
                        {
                            out.push((
                                vec!["C03"],
                                format!("{:?}: simulated {:?} but reported {:?}", op, q, rep),
                            ));
                        }
                        if let Some(s) = swap_ref(r0[*side], r0[1 - *side], *amt) {
                            if (q.return_amount.u128(), q.commission_amount.u128()) != (s.ret, s.comm)
                                || s.spread.map_or(false, |x| x != q.spread_amount.u128())
                            {
                                out.push((
                                    vec!["C03"],
                                    format!("{:?}: reserves {:?} simulated {:?}, exact {:?}", op, r0, q, s),
                                ));
                            }
                        }
                    }
                    Some(Err(e)) => out.push((
                        vec!["C03"],
                        format!("{:?} completed but its simulation failed: {}", op, e),
                    )),
                    None => (),
                }
            }
            Op::Withdraw { u, pair, amt } => {
                let p = &self.pairs[*pair];
                let (r0, r1) = (self.reserves(pre, *pair), self.reserves(post, *pair));
                let t = self.lp_supply(pre, *pair);
                let mut e = pre.clone();
                let mut ok = pre.bal[p.lp][*u] >= *amt;
                if ok {
                    e.bal[p.lp][*u] -= *amt;
                    e.supply[p.lp] -= *amt;
                    for s in 0..2 {
                        if r1[s] > r0[s] || !refund_ok(r0[s], *amt, t, r0[s] - r1[s]) {
                            ok = false;
                        } else {
                            self.mv(&mut e, p.assets[s], p.acct, *u, r0[s] - r1[s]);
                        }
                    }
                    if e != *post {
                        ok = false;
                    }
                }
                if !ok {
                    let mut tags = vec!["C08"];
                    if self.other_pair_changed(pre, post, *pair, op) {
                        tags.push("C31");
                    }
                    out.push((
                        tags,
                        format!(
                            "{:?}: reserves {:?} -> {:?}, supply {} -> {}, {}",
                            op,
                            r0,
                            r1,
                            t,
                            self.lp_supply(post, *pair),
                            self.show_diff(&e, post)
                        ),
                    ));
                }
            }
            Op::Route { hops, to, u, min, .. } => {
                let recv = to.unwrap_or(*u);
                // never leaves anything in a router that was empty (chained routes)
                if World::chained(hops) && recv != ROUT && !hops.is_empty() {
                    for h in hops {
                        for a in [h.0, h.1] {
                            if pre.bal[a][ROUT] == 0 && post.bal[a][ROUT] != 0 {
                                out.push((
                                    vec!["C19"],
                                    format!("{:?}: the router kept {} of {}", op, post.bal[a][ROUT], self.assets[a].id()),
                                ));
                            }
                        }
                    }
                    let target = hops.last().unwrap().1;
                    if let (Some(m), true) = (min, hops[0].0 != target || recv != *u) {
                        let got = post.bal[target][recv].saturating_sub(pre.bal[target][recv]);
                        if got < *m {
                            out.push((
                                vec!["C20"],
                                format!("{:?}: completed but the recipient got {}", op, got),
                            ));
                        }
                    }
                    // quote = execution when every pair occurs once
                    let mut ps: Vec<_> = hops.iter().map(|h| self.pair_of(h.0, h.1)).collect();
                    let n = ps.len();
                    ps.sort();
                    ps.dedup();
                    // a donation to the router joins the route and a pair keeps what it pays itself: no prediction then
                    let clean = hops.iter().all(|h| pre.bal[h.0][ROUT] == 0 && pre.bal[h.1][ROUT] == 0)
                        && !self.pairs.iter().any(|p| p.acct == recv);
                    if ps.len() == n && hops[0].0 != target && clean {
                        let got = post.bal[target][recv].saturating_sub(pre.bal[target][recv]);
                        match rquote {
                            Some(Ok(q)) if q == got => (),
                            Some(q) => out.push((
                                vec!["C23"],
                                format!("{:?}: quoted {:?} but delivered {}", op, q, got),
                            )),
                            None => (),
                        }
                    }
                }
            }
            Op::NativeSwap { pair, .. } => {
                let (r0, r1) = (self.reserves(pre, *pair), self.reserves(post, *pair));
                if !product_not_lower(r0, r1) {
                    out.push((
                        vec!["C01", "C11"],
                        format!("{:?}: reserves {:?} became {:?}", op, r0, r1),
                    ));
                }
            }
            _ => (),
        }
        // pair funds only move by swaps, provisions and redemptions
        let may_spend = matches!(
            op,
            Op::Swap { .. }
                | Op::Withdraw { .. }
                | Op::Route { .. }
                | Op::RouteBare { .. }
                | Op::RouteForged { .. }
                | Op::NativeSwap { .. }
        );
        for (i, p) in self.pairs.iter().enumerate() {
            let (r0, r1) = (self.reserves(pre, i), self.reserves(post, i));
            let (t0, t1) = (self.lp_supply(pre, i), self.lp_supply(post, i));
            if !may_spend && (r1[0] < r0[0] || r1[1] < r0[1]) {
                out.push((
                    vec!["C11"],
                    format!("{:?}: reserves of pair {} fell from {:?} to {:?}", op, i, r0, r1),
                ));
            }
            let lp_may_change = match op {
                Op::Provide { pair, .. } | Op::Withdraw { pair, .. } | Op::LpBurn { pair, .. } => *pair == i,
                _ => false,
            };
            if t0 != t1 && !lp_may_change {
                out.push((
                    vec!["C11", "C13"],
                    format!("{:?}: LP supply of pair {} went from {} to {}", op, i, t0, t1),
                ));
            }
            if t0 > 0 && t1 > 0 && !value_not_lower(r0, t0, r1, t1) {
                out.push((
                    vec!["C09"],
                    format!(
                        "{:?}: value per LP unit of pair {} fell: reserves {:?} supply {} -> {:?} supply {}",
                        op, i, r0, t0, r1, t1
                    ),
                ));
            }
            // LP handed out by nobody
            if !matches!(op, Op::Transfer { asset, .. } if *asset == p.lp)
                && !lp_may_change
                && pre.bal[p.lp] != post.bal[p.lp]
                && !self.pairs.iter().any(|q| q.assets.contains(&p.lp))
            {
                out.push((
                    vec!["C11", "C13"],
                    format!("{:?}: LP holdings of pair {} changed", op, i),
                ));
            }
        }
        if let Some(t) = self.targets(op) {
            if self.other_pair_changed(pre, post, t, op) && !out.iter().any(|d| d.0.contains(&"C31")) {
                out.push((vec!["C31"], format!("{:?}: another pair changed", op)));
            }
        }
        self.invariants(app, post, out, true);
    }

    fn other_pair_changed(&self, pre: &Obs, post: &Obs, t: usize, op: &Op) -> bool {
        let named = match op {
            Op::Swap { to, .. } | Op::Provide { to, .. } | Op::Forge { to, .. } => *to,
            _ => None,
        };
        self.pairs.iter().enumerate().any(|(i, p)| {
            // (a payout may be directed to another pair)
            i != t && named != Some(p.acct)
                && (self.reserves(pre, i) != self.reserves(post, i)
                    || pre.supply[p.lp] != post.supply[p.lp]
                    || pre.bal[p.lp] != post.bal[p.lp])
                && !self.pairs[t].assets.contains(&p.lp)
        })
    }
}

pub mod erased {
    use cosmwasm_std::{to_binary, Binary};
    pub trait Ser {
        fn to_bin(&self) -> Binary;
    }
    impl<T: serde::Serialize> Ser for T {
        fn to_bin(&self) -> Binary {
            to_binary(self).unwrap()
        }
    }
}
