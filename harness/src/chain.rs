//! A small deterministic chain: cw-multi-test with snapshot-able storage, a strict bank
//! (zero coins, empty sends and duplicate denoms are rejected, as on the real chain; burned
//! coins move to the account "burnt" so that totals stay constant), Stargaze's custom messages,
//! and contracts whose addresses are the symbolic names the specification uses.
use anyhow::{bail, Result as AnyResult};
use cosmwasm_std::{
    Addr, Api, BankMsg, BankQuery, Binary, BlockInfo, Coin, CosmosMsg, CustomQuery, Empty, Event,
    Order, Querier, Record, Storage, Timestamp,
};
use cw_multi_test::{
    AddressGenerator, App, AppBuilder, AppResponse, Bank, BankKeeper, BankSudo, CosmosRouter,
    DistributionKeeper, Executor, FailingModule, GovFailingModule, IbcFailingModule, Module,
    StakeKeeper, StargateFailing, WasmKeeper,
};
use serde::de::DeserializeOwned;
use serde_json::{json, Value};
use sg_std::{StargazeMsg, StargazeMsgWrapper};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const T0_SECS: u64 = 1_700_000_000;

#[derive(Clone, Default)]
pub struct SnapStorage(pub std::sync::Arc<BTreeMap<Vec<u8>, Vec<u8>>>);
impl Storage for SnapStorage {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.get(key).cloned()
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        std::sync::Arc::make_mut(&mut self.0).insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        std::sync::Arc::make_mut(&mut self.0).remove(key);
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        let lo = start.map_or(Bound::Unbounded, |s| Bound::Included(s.to_vec()));
        let hi = end.map_or(Bound::Unbounded, |e| Bound::Excluded(e.to_vec()));
        if let (Some(s), Some(e)) = (start, end) {
            if s >= e {
                return Box::new(std::iter::empty());
            }
        }
        let it = self.0.range((lo, hi)).map(|(k, v)| (k.clone(), v.clone()));
        match order {
            Order::Ascending => Box::new(it),
            Order::Descending => Box::new(it.rev()),
        }
    }
}

pub struct StrictBank(BankKeeper);
fn check_coins(c: &[Coin]) -> AnyResult<()> {
    if c.is_empty() {
        bail!("empty coins");
    }
    let mut seen = std::collections::BTreeSet::new();
    for x in c {
        if x.amount.is_zero() {
            bail!("zero amount coin {}", x.denom);
        }
        if !seen.insert(x.denom.clone()) {
            bail!("duplicate denom {}", x.denom);
        }
    }
    Ok(())
}
impl Bank for StrictBank {}
impl Module for StrictBank {
    type ExecT = BankMsg;
    type QueryT = BankQuery;
    type SudoT = BankSudo;
    fn execute<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        sender: Addr,
        msg: BankMsg,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + schemars::JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        let msg = match msg {
            BankMsg::Send { to_address, amount } => {
                check_coins(&amount)?;
                BankMsg::Send { to_address, amount }
            }
            BankMsg::Burn { amount } => {
                // burning nothing is accepted
                let amount: Vec<Coin> = amount.into_iter().filter(|c| !c.amount.is_zero()).collect();
                if amount.is_empty() {
                    return Ok(AppResponse::default());
                }
                check_coins(&amount)?;
                BankMsg::Send { to_address: "burnt".into(), amount }
            }
            m => m,
        };
        self.0.execute(api, storage, router, block, sender, msg)
    }
    fn query(
        &self,
        api: &dyn Api,
        storage: &dyn Storage,
        querier: &dyn Querier,
        block: &BlockInfo,
        request: BankQuery,
    ) -> AnyResult<Binary> {
        self.0.query(api, storage, querier, block, request)
    }
    fn sudo<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        msg: BankSudo,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + schemars::JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        self.0.sudo(api, storage, router, block, msg)
    }
}


/// Stargaze's custom messages: pools become plain accounts.
pub struct SgModule;
impl Module for SgModule {
    type ExecT = StargazeMsgWrapper;
    type QueryT = Empty;
    type SudoT = Empty;
    fn execute<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        sender: Addr,
        msg: StargazeMsgWrapper,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + schemars::JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        let (to, amount) = match msg.msg_data {
            StargazeMsg::FundCommunityPool { amount } => ("community", amount),
            StargazeMsg::FundFairburnPool { amount } => ("burnpool", amount),
            m => bail!("unsupported custom message {:?}", m),
        };
        router.execute(
            api,
            storage,
            block,
            sender,
            CosmosMsg::<ExecC>::Bank(BankMsg::Send { to_address: to.into(), amount }),
        )
    }
    fn query(
        &self,
        _api: &dyn Api,
        _storage: &dyn Storage,
        _querier: &dyn Querier,
        _block: &BlockInfo,
        _request: Empty,
    ) -> AnyResult<Binary> {
        bail!("no custom queries")
    }
    fn sudo<ExecC, QueryC>(
        &self,
        _api: &dyn Api,
        _storage: &mut dyn Storage,
        _router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        _block: &BlockInfo,
        _msg: Empty,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + schemars::JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        bail!("no custom sudo")
    }
}

pub struct Names(pub Vec<&'static str>);
impl AddressGenerator for Names {
    fn contract_address(
        &self,
        _api: &dyn Api,
        _storage: &mut dyn Storage,
        _code_id: u64,
        instance_id: u64,
    ) -> AnyResult<Addr> {
        let i = instance_id as usize;
        Ok(Addr::unchecked(match self.0.get(i) {
            Some(n) => n.to_string(),
            None => format!("contract{}", i),
        }))
    }
}

pub type TheApp = App<
    StrictBank,
    cosmwasm_std::testing::MockApi,
    SnapStorage,
    SgModule,
    WasmKeeper<StargazeMsgWrapper, Empty>,
    StakeKeeper,
    DistributionKeeper,
    IbcFailingModule,
    GovFailingModule,
    StargateFailing,
>;

pub struct Chain {
    pub app: TheApp,
}

#[derive(Clone)]
pub struct Snap {
    st: SnapStorage,
    block: BlockInfo,
}

#[derive(Debug)]
pub struct Outcome {
    pub ok: bool,
    pub err: String,
    pub events: Vec<Event>,
}

pub fn block_at(ms: i64, height: u64) -> BlockInfo {
    BlockInfo {
        height,
        time: ts(ms),
        chain_id: "stargaze-1".into(),
    }
}
thread_local! {
    /// how long a millisecond of the specification lasts on the chain, in milliseconds: the
    /// specification's times are 32 bits wide, so months and years show only in stretched runs
    static STRETCH: std::cell::Cell<i64> = const { std::cell::Cell::new(1) };
}
pub fn set_stretch(root: &Value) {
    STRETCH.with(|c| c.set(root.get("tscale").and_then(|x| x.as_i64()).unwrap_or(1).max(1)));
}
pub fn stretch() -> i64 {
    STRETCH.with(|c| c.get())
}
/// a duration in seconds on its way in; 2e9 stands for the largest u64
pub fn secs_in(x: i64) -> u64 {
    if x == 2_000_000_000 { u64::MAX } else { (x as u64).saturating_mul(stretch() as u64) }
}
/// and on its way out
pub fn secs_out(x: u64) -> i64 {
    if x == u64::MAX {
        2_000_000_000
    } else if x % stretch() as u64 != 0 {
        -7
    } else {
        (x / stretch() as u64).min(2_000_000_000) as i64
    }
}
/// milliseconds relative to the base time -> chain timestamp
pub fn ts(ms: i64) -> Timestamp {
    Timestamp::from_nanos(((T0_SECS as i128) * 1_000_000_000 + (ms as i128) * (stretch() as i128) * 1_000_000) as u64)
}
/// chain timestamp -> milliseconds relative to the base time
pub fn rel(t: Timestamp) -> i64 {
    let n = t.nanos() as i128 - (T0_SECS as i128) * 1_000_000_000;
    let ms = 1_000_000 * stretch() as i128;
    if n.rem_euclid(ms) != 0 {
        return -7; // not a whole millisecond: never produced by the model
    }
    let v = n / ms;
    v.clamp(-2_000_000_000, 2_000_000_000) as i64
}

impl Chain {
    pub fn new(names: Vec<&'static str>, balances: Vec<(String, Vec<Coin>)>) -> Chain {
        let app = AppBuilder::new_custom()
            .with_storage(SnapStorage::default())
            .with_bank(StrictBank(BankKeeper::new()))
            .with_custom(SgModule)
            .with_wasm(
                WasmKeeper::<StargazeMsgWrapper, Empty>::new().with_address_generator(Names(names)),
            )
            .with_block(block_at(0, 1000))
            .build(|router, _, storage| {
                for (a, c) in &balances {
                    router.bank.0.init_balance(storage, &Addr::unchecked(a), c.clone()).unwrap();
                }
            });
        Chain { app }
    }
    pub fn snap(&self) -> Snap {
        Snap { st: self.app.storage().clone(), block: self.app.block_info() }
    }
    /// nothing stored and no time passed since `s`
    pub fn unchanged(&self, s: &Snap) -> bool {
        let a = self.app.storage();
        (std::sync::Arc::ptr_eq(&a.0, &s.st.0) || a.0 == s.st.0) && self.app.block_info().time == s.block.time
    }
    pub fn restore(&mut self, s: &Snap) {
        *self.app.storage_mut() = s.st.clone();
        self.app.set_block(s.block.clone());
    }
    pub fn now_ms(&self) -> i64 {
        rel(self.app.block_info().time)
    }
    pub fn set_time(&mut self, ms: i64) {
        let h = self.app.block_info().height + 1;
        self.app.set_block(block_at(ms, h));
    }
    /// Runs `f` against the app; a panic of the code under test counts as an aborted (failed,
    /// rolled back) transaction, as a wasm trap does on the chain.
    pub fn tx<F>(&mut self, f: F) -> Outcome
    where
        F: FnOnce(&mut TheApp) -> AnyResult<AppResponse>,
    {
        let snap = self.snap();
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut self.app)));
        match r {
            Ok(Ok(resp)) => Outcome { ok: true, err: String::new(), events: resp.events },
            Ok(Err(e)) => {
                let err = e.root_cause().to_string();
                Outcome { ok: false, err, events: vec![] }
            }
            Err(p) => {
                self.restore(&snap);
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                Outcome { ok: false, err: format!("panic: {}", m), events: vec![] }
            }
        }
    }
    pub fn exec<M: serde::Serialize + Debug>(
        &mut self,
        sender: &str,
        contract: &str,
        msg: &M,
        funds: &[Coin],
    ) -> Outcome {
        let funds = funds.to_vec();
        let (s, c) = (Addr::unchecked(sender), Addr::unchecked(contract));
        self.tx(|app| app.execute_contract(s, c, msg, &funds))
    }
    pub fn query<R: DeserializeOwned>(&self, contract: &str, msg: &impl serde::Serialize) -> Result<R, String> {
        let r = catch_unwind(AssertUnwindSafe(|| {
            self.app.wrap().query_wasm_smart::<R>(contract, msg)
        }));
        match r {
            Ok(Ok(v)) => Ok(v),
            Ok(Err(e)) => Err(e.to_string()),
            Err(_) => Err("panic".into()),
        }
    }
    fn raw_prefix(contract: &str) -> Vec<u8> {
        let mut k = vec![];
        for p in ["wasm".to_string(), format!("contract_data/{}", contract)] {
            k.extend((p.len() as u16).to_be_bytes());
            k.extend(p.as_bytes());
        }
        k
    }
    /// the contract's whole storage
    pub fn raw(&self, contract: &str) -> BTreeMap<Vec<u8>, Vec<u8>> {
        let p = Chain::raw_prefix(contract);
        self.app.storage().0.iter().filter(|(k, _)| k.starts_with(&p)).map(|(k, v)| (k[p.len()..].to_vec(), v.clone())).collect()
    }
    pub fn raw_set(&mut self, contract: &str, key: &[u8], val: &[u8]) {
        let mut k = Chain::raw_prefix(contract);
        k.extend(key);
        self.app.storage_mut().set(&k, val);
    }
    pub fn bal(&self, a: &str, d: &str) -> u128 {
        self.app.wrap().query_balance(a, d).unwrap().amount.u128()
    }
}

/// Attributes of the events `contract` emitted, as [{ty, a:{key:value}}]; types without "wasm-".
pub fn wasm_events(events: &[Event], contract: &str) -> Vec<Value> {
    let mut out = vec![];
    for e in events {
        if !e.ty.starts_with("wasm-") {
            continue;
        }
        if !e.attributes.iter().any(|a| a.key.ends_with("contract_address") && a.value == contract) {
            continue;
        }
        let mut m = serde_json::Map::new();
        for a in &e.attributes {
            if a.key.ends_with("contract_address") {
                continue;
            }
            if m.contains_key(&a.key) {
                m.insert(format!("{}#dup", a.key), json!(a.value));
            } else {
                m.insert(a.key.clone(), json!(a.value));
            }
        }
        out.push(json!({"ty": e.ty.trim_start_matches("wasm-"), "a": m}));
    }
    out
}
#[allow(dead_code)]
pub type NoModule = FailingModule<Empty, Empty, Empty>;
