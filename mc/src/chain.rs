//! A complete chain with snapshot-able storage, running the contract code of /repo.
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{
    from_binary, to_binary, Addr, Binary, Coin, Deps, DepsMut, Empty, Env, MessageInfo, Order, Record,
    Response, StdResult, Storage, Uint128,
};
use cw20::Cw20ReceiveMsg;
use cw_multi_test::{App, AppBuilder, AppResponse, BankKeeper, ContractWrapper, Executor};
use haloswap::asset::AssetInfo;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub type Snap = Arc<BTreeMap<Vec<u8>, Vec<u8>>>;

/// storage whose whole contents can be taken and put back through the shared handle
#[derive(Clone, Default)]
pub struct SnapStore {
    pub map: Rc<RefCell<Snap>>,
}

impl Storage for SnapStore {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.map.borrow().get(key).cloned()
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        Arc::make_mut(&mut self.map.borrow_mut()).insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        Arc::make_mut(&mut self.map.borrow_mut()).remove(key);
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        if let (Some(s), Some(e)) = (start, end) {
            if s >= e {
                return Box::new(std::iter::empty());
            }
        }
        let b = (
            start.map_or(Bound::Unbounded, |s| Bound::Included(s.to_vec())),
            end.map_or(Bound::Unbounded, |e| Bound::Excluded(e.to_vec())),
        );
        let v: Vec<Record> = self
            .map
            .borrow()
            .range(b)
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect();
        match order {
            Order::Ascending => Box::new(v.into_iter()),
            Order::Descending => Box::new(v.into_iter().rev()),
        }
    }
}

pub type InnerApp = App<BankKeeper, MockApi, SnapStore>;
pub struct Chain {
    pub app: InnerApp,
    map: Rc<RefCell<Snap>>,
}
impl std::ops::Deref for Chain {
    type Target = InnerApp;
    fn deref(&self) -> &InnerApp {
        &self.app
    }
}
impl std::ops::DerefMut for Chain {
    fn deref_mut(&mut self) -> &mut InnerApp {
        &mut self.app
    }
}

/// FNV-like 128-bit digest of the whole store, used for state deduplication
pub fn digest(s: &Snap) -> u128 {
    use std::collections::hash_map::DefaultHasher;
    use std::hash::{Hash, Hasher};
    let mut a = DefaultHasher::new();
    let mut b = DefaultHasher::new();
    0x5eed_u64.hash(&mut b);
    for (k, v) in s.iter() {
        k.hash(&mut a);
        v.hash(&mut a);
        v.hash(&mut b);
        k.hash(&mut b);
    }
    ((a.finish() as u128) << 64) | b.finish() as u128
}

// ---- code ids (fixed order of registration) ----
pub const CODE_FACTORY: u64 = 1;
pub const CODE_PAIR: u64 = 2;
pub const CODE_TOKEN: u64 = 3;
pub const CODE_ROUTER: u64 = 4;
pub const CODE_RECORDER: u64 = 5;
pub const CODE_PAIR2: u64 = 6;
pub const CODE_TOKEN2: u64 = 7;

// ---- recorder: a contract that is not a token; remembers the last hook it received ----
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum RecExec {
    Receive(Cw20ReceiveMsg),
    Noop {},
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum RecQuery {
    Last {},
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct RecLast {
    pub token: String,
    pub sender: String,
    pub amount: Uint128,
    pub msg: Binary,
    pub count: u64,
}
fn rec_inst(_d: DepsMut, _e: Env, _i: MessageInfo, _m: Empty) -> StdResult<Response> {
    Ok(Response::new())
}
fn rec_exec(d: DepsMut, _e: Env, i: MessageInfo, m: RecExec) -> StdResult<Response> {
    if let RecExec::Receive(r) = m {
        let prev: RecLast = d
            .storage
            .get(b"last")
            .map(|b| serde_json::from_slice(&b).unwrap())
            .unwrap_or_default();
        let v = RecLast {
            token: i.sender.to_string(),
            sender: r.sender,
            amount: r.amount,
            msg: r.msg,
            count: prev.count + 1,
        };
        d.storage.set(b"last", &serde_json::to_vec(&v).unwrap());
    }
    Ok(Response::new())
}
fn rec_query(d: Deps, _e: Env, _m: RecQuery) -> StdResult<Binary> {
    let v: RecLast = d
        .storage
        .get(b"last")
        .map(|b| serde_json::from_slice(&b).unwrap())
        .unwrap_or_default();
    to_binary(&v)
}

/// a fresh chain with all code registered and the given genesis bank balances, no contracts
pub fn new_chain(bank: &[(String, Vec<Coin>)]) -> Chain {
    let store = SnapStore::default();
    let map = store.map.clone();
    let mut app: InnerApp = AppBuilder::new()
        .with_storage(store)
        .build(|router, _api, storage| {
            for (a, c) in bank {
                if !c.is_empty() {
                    router
                        .bank
                        .init_balance(storage, &Addr::unchecked(a), c.clone())
                        .unwrap();
                }
            }
        });
    let f = ContractWrapper::new(
        halo_factory::contract::execute,
        halo_factory::contract::instantiate,
        halo_factory::contract::query,
    )
    .with_reply(halo_factory::contract::reply)
    .with_migrate(halo_factory::contract::migrate);
    assert_eq!(app.store_code(Box::new(f)), CODE_FACTORY);
    let p = || {
        ContractWrapper::new(
            halo_pair::contract::execute,
            halo_pair::contract::instantiate,
            halo_pair::contract::query,
        )
        .with_reply(halo_pair::contract::reply)
        .with_migrate(halo_pair::contract::migrate)
    };
    assert_eq!(app.store_code(Box::new(p())), CODE_PAIR);
    let t = || {
        ContractWrapper::new(
            halo_token::contract::execute,
            halo_token::contract::instantiate,
            halo_token::contract::query,
        )
    };
    assert_eq!(app.store_code(Box::new(t())), CODE_TOKEN);
    let r = ContractWrapper::new(
        halo_router::contract::execute,
        halo_router::contract::instantiate,
        halo_router::contract::query,
    )
    .with_migrate(halo_router::contract::migrate);
    assert_eq!(app.store_code(Box::new(r)), CODE_ROUTER);
    let rec = ContractWrapper::new(rec_exec, rec_inst, rec_query);
    assert_eq!(app.store_code(Box::new(rec)), CODE_RECORDER);
    assert_eq!(app.store_code(Box::new(p())), CODE_PAIR2);
    assert_eq!(app.store_code(Box::new(t())), CODE_TOKEN2);
    Chain { app, map }
}

pub fn snap(app: &Chain) -> Snap {
    app.map.borrow().clone()
}
pub fn restore(app: &mut Chain, s: &Snap) {
    *app.map.borrow_mut() = s.clone();
    place_block(app);
}
/// the chain's block is kept beside the contracts' storage when a world has a clock (blocks passed)
const CLOCK: &[u8] = b"~clock";
pub fn clock(app: &Chain) -> Option<u64> {
    app.map.borrow().get(CLOCK).map(|v| u64::from_be_bytes(v[..].try_into().unwrap()))
}
pub fn set_clock(app: &mut Chain, blocks: u64) {
    Arc::make_mut(&mut app.map.borrow_mut()).insert(CLOCK.to_vec(), blocks.to_be_bytes().to_vec());
    place_block(app);
}
fn place_block(app: &mut Chain) {
    if let Some(n) = clock(app) {
        app.update_block(|b| {
            b.height = 12_345 + n;
            b.time = cosmwasm_std::Timestamp::from_seconds(1_571_797_419 + 6 * n);
        });
    }
}

#[derive(Clone, Debug)]
pub enum Outcome {
    Done(AppResponse),
    Refused(String),
    /// the contract aborted; on chain this is a refusal as well
    Aborted(String),
}
impl Outcome {
    pub fn ok(&self) -> bool {
        matches!(self, Outcome::Done(_))
    }
    pub fn describe(&self) -> String {
        match self {
            Outcome::Done(_) => "completed".into(),
            Outcome::Refused(e) => format!("refused: {}", e),
            Outcome::Aborted(e) => format!("aborted: {}", e),
        }
    }
}
pub fn guard<T>(f: impl FnOnce() -> anyhow::Result<T>) -> Result<T, (bool, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err((false, e.root_cause().to_string())),
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err((true, m))
        }
    }
}
pub fn outcome(r: Result<AppResponse, (bool, String)>) -> Outcome {
    match r {
        Ok(v) => Outcome::Done(v),
        Err((false, e)) => Outcome::Refused(e),
        Err((true, e)) => Outcome::Aborted(e),
    }
}

pub fn exec<M: Serialize + std::fmt::Debug>(
    app: &mut Chain,
    sender: &str,
    contract: &str,
    msg: &M,
    funds: &[Coin],
) -> Outcome {
    outcome(guard(|| {
        app.execute_contract(Addr::unchecked(sender), Addr::unchecked(contract), msg, funds)
    }))
}
pub fn query<M: Serialize, R: serde::de::DeserializeOwned>(
    app: &Chain,
    contract: &str,
    msg: &M,
) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(|| {
        app.wrap().query_wasm_smart::<R>(contract.to_string(), msg)
    })) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(e.to_string()),
        Err(_) => Err("aborted".into()),
    }
}
/// the answer of a query as text
pub fn query_text<M: Serialize>(app: &Chain, contract: &str, msg: &M) -> Result<String, String> {
    use cosmwasm_std::{ContractResult, QueryRequest, SystemResult, WasmQuery};
    let m: QueryRequest<cosmwasm_std::Empty> = WasmQuery::Smart {
        contract_addr: contract.to_string(),
        msg: cosmwasm_std::Binary::from(serde_json::to_vec(msg).map_err(|e| e.to_string())?),
    }
    .into();
    let raw = serde_json::to_vec(&m).map_err(|e| e.to_string())?;
    match catch_unwind(AssertUnwindSafe(|| app.wrap().raw_query(&raw))) {
        Ok(SystemResult::Ok(ContractResult::Ok(b))) => Ok(String::from_utf8_lossy(b.as_slice()).to_string()),
        Ok(x) => Err(format!("{:?}", x)),
        Err(_) => Err("aborted".into()),
    }
}
pub fn bank_balance(app: &Chain, acct: &str, denom: &str) -> u128 {
    app.wrap().query_balance(acct, denom).unwrap().amount.u128()
}
pub fn token_balance(app: &Chain, token: &str, acct: &str) -> Result<u128, String> {
    query::<_, cw20::BalanceResponse>(
        app,
        token,
        &cw20::Cw20QueryMsg::Balance {
            address: acct.to_string(),
        },
    )
    .map(|r| r.balance.u128())
}
pub fn token_info(app: &Chain, token: &str) -> Result<cw20::TokenInfoResponse, String> {
    query(app, token, &cw20::Cw20QueryMsg::TokenInfo {})
}
pub fn allowance(app: &Chain, token: &str, owner: &str, spender: &str) -> Result<u128, String> {
    query::<_, cw20::AllowanceResponse>(
        app,
        token,
        &cw20::Cw20QueryMsg::Allowance {
            owner: owner.to_string(),
            spender: spender.to_string(),
        },
    )
    .map(|r| r.allowance.u128())
}

pub fn tok(a: &str) -> AssetInfo {
    AssetInfo::Token {
        contract_addr: a.to_string(),
    }
}
pub fn nat(d: &str) -> AssetInfo {
    AssetInfo::NativeToken {
        denom: d.to_string(),
    }
}
pub fn coin(denom: &str, amount: u128) -> Coin {
    Coin {
        denom: denom.to_string(),
        amount: Uint128::new(amount),
    }
}
#[allow(dead_code)]
pub fn parse<T: serde::de::DeserializeOwned>(b: &Binary) -> Option<T> {
    from_binary(b).ok()
}
