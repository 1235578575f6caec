//! The V2 marketplace under test: executes abstract operations against the real contract and
//! projects its observable state.
use crate::chain::*;
use crate::mocks::*;
use crate::util::*;
use cosmwasm_std::{Addr, Coin, CosmosMsg, Uint128, WasmMsg};
use cw_multi_test::{ContractWrapper, Executor};
use rand::seq::SliceRandom;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Map, Value};
use sg_index_query::{QueryBound, QueryOptions};
use stargaze_marketplace_v2 as m;
use stargaze_marketplace_v2::msg::{ExecuteMsg, InstantiateMsg, PriceOffset, QueryMsg};
use stargaze_marketplace_v2::orders::{Ask, Bid, CollectionBid, OrderDetails};
use stargaze_marketplace_v2::state::Config;
use std::collections::{BTreeMap, BTreeSet};

pub const USERS: [&str; 4] = ["alice", "bobby", "carol", "david"];
pub const PAYEES: [&str; 5] = ["feemgr", "findx", "findy", "royal", "royax"];
pub const COLLS: [&str; 2] = ["colla", "collb"];
pub const TOKENS: [(&str, &str); 5] = [("colla", "1"), ("colla", "2"), ("colla", "3"), ("collb", "1"), ("collb", "2")];
pub const DENOMS: [&str; 2] = ["ustars", "uatom"];
pub const MAPS: [&str; 10] = ["bal", "own", "apr", "opr", "asks", "bids", "cbids", "cden", "reg", "cinfo"];
const START_BAL: u128 = 100_000_000;

fn accts() -> Vec<&'static str> {
    let mut v = vec!["mkt", "admin"];
    v.extend(USERS);
    v.extend(PAYEES);
    v
}

#[derive(Clone)]
pub struct W2Snap {
    s: Snap,
    ids: BTreeMap<String, (char, String)>,
    seq: usize,
}

pub struct W2 {
    pub c: Chain,
    pub scale: u128,
    /// real id -> (kind, label)
    pub ids: BTreeMap<String, (char, String)>,
    pub seq: usize,
}

/// stands for u64::MAX in settings
pub const BIG: i64 = 2_000_000_000;
fn bps(c: &Value, k: &str) -> u64 {
    let x = n(c, k);
    if x == BIG { u64::MAX } else { x as u64 }
}
fn cfg_msg(c: &Value) -> Config<String> {
    Config {
        fee_manager: s(c, "fm"),
        royalty_registry: s(c, "rr"),
        protocol_fee_bps: bps(c, "pf"),
        max_royalty_fee_bps: bps(c, "mr"),
        maker_reward_bps: bps(c, "mk"),
        taker_reward_bps: bps(c, "tk"),
        default_denom: s(c, "dd"),
    }
}

/// royalty registries a configuration can name
const REGS: [&str; 2] = ["regis", "regib"];

/// stands for the largest amount there is
pub const MAXA: i64 = 2_147_483_647;

impl W2 {
    /// None: the contract refused the configuration
    pub fn new(cfg: &Value, scale: u128) -> Option<W2> {
        let bal = USERS
            .iter()
            .chain(["admin"].iter())
            .map(|u| {
                (u.to_string(), DENOMS.iter().map(|d| Coin { denom: d.to_string(), amount: Uint128::from(START_BAL * scale) }).collect::<Vec<_>>())
            })
            .collect();
        let mut c = Chain::new(vec!["mkt", "colla", "collb", "regis", "regib", "mktwo"], bal);
        let code = c.app.store_code(Box::new(
            ContractWrapper::new_with_empty(m::execute::execute, m::instantiate::instantiate, m::query::query)
                .with_migrate_empty(m::migrate::migrate),
        ));
        let nft = c.app.store_code(Box::new(Nft));
        let reg = c.app.store_code(Box::new(Registry));
        let a = Addr::unchecked("admin");
        c.app
            .instantiate_contract(code, a.clone(), &InstantiateMsg { config: cfg_msg(cfg) }, &[], "m", Some("admin".into()))
            .ok()?;
        for co in COLLS {
            let rr = if co == "colla" { "royal" } else { "" };
            c.app
                .instantiate_contract(nft, a.clone(), &json!({"stt": -1, "rr": rr, "rs": 5_000_000, "ok": true, "ft": false}), &[], co, None)
                .unwrap();
        }
        for _ in REGS {
            c.app.instantiate_contract(reg, a.clone(), &json!({}), &[], "r", None).unwrap();
        }
        for (i, (co, t)) in TOKENS.iter().enumerate() {
            let o = USERS[i % 2];
            c.app.execute_contract(a.clone(), Addr::unchecked(*co), &json!({"mint": {"token_id": t, "owner": o}}), &[]).unwrap();
        }
        Some(W2 { c, scale, ids: BTreeMap::new(), seq: 0 })
    }
    pub fn snap(&self) -> W2Snap {
        W2Snap { s: self.c.snap(), ids: self.ids.clone(), seq: self.seq }
    }
    pub fn restore(&mut self, x: &W2Snap) {
        self.c.restore(&x.s);
        self.ids = x.ids.clone();
        self.seq = x.seq;
    }
    fn amt(&self, a: i64) -> Uint128 {
        if a == MAXA { Uint128::MAX } else if a < 0 { Uint128::zero() } else { Uint128::from(a as u128 * self.scale) }
    }
    fn una(&self, a: u128) -> i64 {
        if a == u128::MAX {
            return MAXA;
        }
        unscale(a, self.scale)
    }
    fn coins(&self, f: &Value) -> Vec<Coin> {
        f.as_array().map_or(vec![], |v| {
            v.iter().map(|x| Coin { denom: s(x, "d"), amount: self.amt(n(x, "a")) }).collect()
        })
    }
    fn details(&self, op: &Value) -> OrderDetails<String> {
        let o = |k: &str| {
            let x = s(op, k);
            if x.is_empty() { None } else { Some(x) }
        };
        OrderDetails { price: Coin { denom: s(op, "d"), amount: self.amt(n(op, "a")) }, recipient: o("rc"), finder: o("fi") }
    }
    /// label -> real id
    pub fn real(&self, label: &str) -> String {
        self.ids
            .iter()
            .find(|(_, (_, l))| l == label)
            .map(|(k, _)| k.clone())
            .unwrap_or_else(|| "00".repeat(32))
    }
    fn q<T: serde::de::DeserializeOwned>(&self, q: &QueryMsg) -> Result<T, String> {
        self.c.query("mkt", q)
    }
    fn learn(&mut self, id: &str, kind: char, label: Option<String>, want: &str) {
        if self.ids.contains_key(id) {
            return;
        }
        let l = match label {
            Some(l) => {
                let mut l = l;
                while self.ids.values().any(|(_, x)| *x == l) {
                    l.push('#');
                }
                l
            }
            None => {
                if !want.is_empty() {
                    // a label given again belongs to the new order; the old one is gone
                    let old = self.ids.iter().find(|(_, (_, x))| x == want).map(|(i, _)| i.clone());
                    if let Some(i) = old {
                        self.seq += 1;
                        let l = format!("{}~{}", want, self.seq);
                        self.ids.get_mut(&i).unwrap().1 = l;
                    }
                    want.to_string()
                } else {
                    self.seq += 1;
                    format!("n{}", self.seq)
                }
            }
        };
        self.ids.insert(id.to_string(), (kind, l));
    }
    /// Finds the ids of all orders reachable through the list queries.
    fn discover(&mut self, want: &str) {
        let opts = |after: Option<String>| {
            Some(QueryOptions { limit: Some(100), descending: None, min: after.map(QueryBound::Exclusive), max: None })
        };
        for co in COLLS {
            for u in accts() {
                for kind in ['a', 'b', 'c'] {
                    let mut after = None;
                    for _ in 0..5 {
                        let (cr, col, o) = (u.to_string(), co.to_string(), opts(after.clone()));
                        let got: Vec<(String, String)> = match kind {
                            'a' => self
                                .q::<Vec<Ask>>(&QueryMsg::AsksByCreatorCollection { creator: cr, collection: col, query_options: o })
                                .unwrap_or_default()
                                .into_iter()
                                .map(|x| (x.id, format!("{}/{}", x.collection, x.token_id)))
                                .collect(),
                            'b' => self
                                .q::<Vec<Bid>>(&QueryMsg::BidsByCreatorCollection { creator: cr, collection: col, query_options: o })
                                .unwrap_or_default()
                                .into_iter()
                                .map(|x| (x.id, String::new()))
                                .collect(),
                            _ => self
                                .q::<Vec<CollectionBid>>(&QueryMsg::CollectionBidsByCreatorCollection { creator: cr, collection: col, query_options: o })
                                .unwrap_or_default()
                                .into_iter()
                                .map(|x| (x.id, String::new()))
                                .collect(),
                        };
                        let full = got.len() >= 100;
                        after = got.last().map(|x| x.0.clone());
                        for (id, l) in got {
                            self.learn(&id, kind, if kind == 'a' { Some(l) } else { None }, want);
                        }
                        if !full {
                            break;
                        }
                    }
                }
            }
            for d in DENOMS {
                let (col, den) = (co.to_string(), d.to_string());
                for x in self
                    .q::<Vec<Ask>>(&QueryMsg::AsksByCollectionDenom { collection: col.clone(), denom: den.clone(), query_options: None })
                    .unwrap_or_default()
                {
                    self.learn(&x.id, 'a', Some(format!("{}/{}", x.collection, x.token_id)), want);
                }
                for x in self
                    .q::<Vec<CollectionBid>>(&QueryMsg::CollectionBidsByPrice { collection: col.clone(), denom: den.clone(), query_options: None })
                    .unwrap_or_default()
                {
                    self.learn(&x.id, 'c', None, want);
                }
                for (tc, t) in TOKENS {
                    if tc == co {
                        for x in self
                            .q::<Vec<Bid>>(&QueryMsg::BidsByTokenPrice { collection: col.clone(), token_id: t.into(), denom: den.clone(), query_options: None })
                            .unwrap_or_default()
                        {
                            self.learn(&x.id, 'b', None, want);
                        }
                    }
                }
            }
        }
    }
    fn det_json(&self, d: &OrderDetails<Addr>) -> (String, i64, String, String) {
        (
            d.price.denom.clone(),
            self.una(d.price.amount.u128()),
            d.recipient.as_ref().map(|a| a.to_string()).unwrap_or_default(),
            d.finder.as_ref().map(|a| a.to_string()).unwrap_or_default(),
        )
    }
    fn ask_json(&self, a: &Ask) -> Value {
        let (d, am, rc, fi) = self.det_json(&a.details);
        json!({"cr": a.creator, "co": a.collection, "tk": a.token_id, "d": d, "a": am, "rc": rc, "fi": fi})
    }
    fn bid_json(&self, a: &Bid) -> Value {
        let (d, am, rc, fi) = self.det_json(&a.details);
        json!({"cr": a.creator, "co": a.collection, "tk": a.token_id, "d": d, "a": am, "rc": rc, "fi": fi})
    }
    fn cbid_json(&self, a: &CollectionBid) -> Value {
        let (d, am, rc, fi) = self.det_json(&a.details);
        json!({"cr": a.creator, "co": a.collection, "tk": "", "d": d, "a": am, "rc": rc, "fi": fi})
    }
    fn cfg_json(c: &Config<Addr>) -> Value {
        let f = |x: u64| x.min(2_000_000_000);
        json!({"fm": c.fee_manager, "rr": c.royalty_registry, "pf": f(c.protocol_fee_bps), "mr": f(c.max_royalty_fee_bps),
            "mk": f(c.maker_reward_bps), "tk": f(c.taker_reward_bps), "dd": c.default_denom})
    }
    pub fn project(&mut self, want: &str) -> Value {
        self.discover(want);
        let mut bal = Map::new();
        for a in accts() {
            let mut m = Map::new();
            for d in DENOMS {
                m.insert(d.into(), json!(self.una(self.c.bal(a, d))));
            }
            bal.insert(a.into(), Value::Object(m));
        }
        let (mut own, mut apr, mut opr, mut cinfo) = (Map::new(), Map::new(), Map::new(), Map::new());
        for co in COLLS {
            let st: Value = self.c.query(co, &json!({"state": {}})).unwrap();
            let mut toks: std::collections::BTreeSet<String> = TOKENS.iter().filter(|x| x.0 == co).map(|x| x.1.to_string()).collect();
            toks.extend(st["own"].as_object().unwrap().keys().cloned());
            for t in toks {
                {
                    let k = format!("{}/{}", co, t);
                    own.insert(k.clone(), st["own"].get(&t).cloned().unwrap_or(json!("")));
                    let ap = st["apr"].get(&t).and_then(|v| v.as_array()).map_or(false, |v| v.iter().any(|x| x[0] == "mkt"));
                    apr.insert(k, json!(ap));
                }
            }
            for u in USERS {
                opr.insert(format!("{}/{}", co, u), json!(st["opr"].get(format!("{}:mkt", u)).is_some()));
            }
            cinfo.insert(co.into(), st["info"].clone());
        }
        let (mut asks, mut bids, mut cbids) = (Map::new(), Map::new(), Map::new());
        for (id, (kind, label)) in self.ids.clone() {
            match kind {
                'a' => {
                    if let Ok(Some(a)) = self.q::<Option<Ask>>(&QueryMsg::Ask(id.clone())) {
                        asks.insert(label, self.ask_json(&a));
                    }
                }
                'b' => {
                    if let Ok(Some(a)) = self.q::<Option<Bid>>(&QueryMsg::Bid(id.clone())) {
                        bids.insert(label, self.bid_json(&a));
                    }
                }
                _ => {
                    if let Ok(Some(a)) = self.q::<Option<CollectionBid>>(&QueryMsg::CollectionBid(id.clone())) {
                        cbids.insert(label, self.cbid_json(&a));
                    }
                }
            }
        }
        let cfg = match self.q::<Config<Addr>>(&QueryMsg::Config {}) {
            Ok(c) => W2::cfg_json(&c),
            Err(e) => json!({"err": e}),
        };
        let mut cden = Map::new();
        for co in COLLS {
            let d = self.q::<Option<String>>(&QueryMsg::CollectionDenom { collection: co.into() }).unwrap_or(Some("?".into()));
            cden.insert(co.into(), json!(d.unwrap_or_default()));
        }
        let mut reg = Map::new();
        for rg in REGS {
            let dump: Value = self.c.query(rg, &json!({"dump": {}})).unwrap();
            for co in COLLS {
                let e = |p: &str| dump.get(format!("{}|{}", co, p)).cloned().unwrap_or(json!({"r": "", "s": 0}));
                let (d, p) = (e(""), e("mkt"));
                reg.insert(format!("{}/{}", rg, co), json!({"dr": d["r"], "ds": d["s"], "pr": p["r"], "ps": p["s"]}));
            }
        }
        let adm = self.c.app.contract_data(&Addr::unchecked("mkt")).unwrap().admin.map(|a| a.to_string()).unwrap_or_default();
        json!({"t": self.c.now_ms(), "adm": adm, "bal": bal, "own": own, "apr": apr, "opr": opr, "asks": asks, "bids": bids,
            "cbids": cbids, "cfg": cfg, "cden": cden, "reg": reg, "cinfo": cinfo})
    }

    /// Executes `op`; returns the outcome and an auxiliary output.
    pub fn run(&mut self, op: &Value) -> (Outcome, Value) {
        let k = s(op, "k");
        let snd = s(op, "s");
        let f = self.coins(&op["f"]);
        let id = || self.real(&s(op, "id"));
        let (co, tk) = (s(op, "co"), s(op, "tk"));
        let msg = match k.as_str() {
            "SetAsk" => Some(ExecuteMsg::SetAsk { collection: co.clone(), token_id: tk.clone(), details: self.details(op) }),
            "SellNft" => Some(ExecuteMsg::SellNft { collection: co.clone(), token_id: tk.clone(), details: self.details(op) }),
            "UpdAsk" => Some(ExecuteMsg::UpdateAsk { id: id(), details: self.details(op) }),
            "RemAsk" => Some(ExecuteMsg::RemoveAsk { id: id() }),
            "AccAsk" => Some(ExecuteMsg::AcceptAsk { id: id(), details: self.details(op) }),
            "SetBid" => Some(ExecuteMsg::SetBid { collection: co.clone(), token_id: tk.clone(), details: self.details(op) }),
            "BuyNft" => Some(ExecuteMsg::BuySpecificNft { collection: co.clone(), token_id: tk.clone(), details: self.details(op) }),
            "UpdBid" => Some(ExecuteMsg::UpdateBid { id: id(), details: self.details(op) }),
            "RemBid" => Some(ExecuteMsg::RemoveBid { id: id() }),
            "AccBid" => Some(ExecuteMsg::AcceptBid { id: id(), details: self.details(op) }),
            "SetCBid" => Some(ExecuteMsg::SetCollectionBid { collection: co.clone(), details: self.details(op) }),
            "BuyColl" => Some(ExecuteMsg::BuyCollectionNft { collection: co.clone(), details: self.details(op) }),
            "UpdCBid" => Some(ExecuteMsg::UpdateCollectionBid { id: id(), details: self.details(op) }),
            "RemCBid" => Some(ExecuteMsg::RemoveCollectionBid { id: id() }),
            "AccCBid" => Some(ExecuteMsg::AcceptCollectionBid { id: id(), token_id: tk.clone(), details: self.details(op) }),
            "UpdConfig" => Some(ExecuteMsg::UpdateConfig { config: cfg_msg(&op["cfg"]) }),
            "UpdDenom" => Some(ExecuteMsg::UpdateCollectionDenom { collection: co.clone(), denom: s(op, "d") }),
            "SetFee" => Some(ExecuteMsg::SetListingFee { fee: Coin { denom: s(op, "d"), amount: self.amt(n(op, "a")) } }),
            "RemFee" => Some(ExecuteMsg::RemoveListingFee { denom: s(op, "d") }),
            _ => None,
        };
        if let Some(msg) = msg {
            return (self.c.exec(&snd, "mkt", &msg, &f), json!({}));
        }
        let ok = Outcome { ok: true, err: String::new(), events: vec![] };
        let o = match k.as_str() {
            "Tick" => {
                let t = self.c.now_ms() + n(op, "dt");
                self.c.set_time(t);
                ok
            }
            "Xfer" => self.c.exec(&snd, &co, &json!({"transfer_nft": {"token_id": tk, "recipient": s(op, "to")}}), &[]),
            "Appr" => self.c.exec(&snd, &co, &json!({"approve": {"token_id": tk, "spender": "mkt", "expires": {"never": {}}}}), &[]),
            "Unap" => self.c.exec(&snd, &co, &json!({"revoke": {"token_id": tk, "spender": "mkt"}}), &[]),
            "ApprAll" => self.c.exec(&snd, &co, &json!({"approve_all": {"operator": "mkt", "expires": {"never": {}}}}), &[]),
            "UnapAll" => self.c.exec(&snd, &co, &json!({"revoke_all": {"operator": "mkt"}}), &[]),
            "Burn" => self.c.exec(&snd, &co, &json!({"burn": {"token_id": tk}}), &[]),
            "Mint" => self.c.exec("admin", &co, &json!({"mint": {"token_id": tk, "owner": s(op, "to")}}), &[]),
            "SetInfo" => self.c.exec("admin", &co, &json!({"set_info": {"info": op["info"]}}), &[]),
            "RegSet" => self.c.exec("admin", op["rg"].as_str().unwrap_or("regis"), &json!({"set": {"co": co, "p": s(op, "p"), "r": s(op, "r"), "s": n(op, "sh")}}), &[]),
            "Migrate" => {
                let a = Addr::unchecked(&snd);
                self.c.tx(|app| app.migrate_contract(a, Addr::unchecked("mkt"), &m::migrate::MigrateMsg {}, 1))
            }
            "SetAdmin" => {
                let (a, to) = (Addr::unchecked(&snd), s(op, "to"));
                let msg = if to.is_empty() {
                    WasmMsg::ClearAdmin { contract_addr: "mkt".into() }
                } else {
                    WasmMsg::UpdateAdmin { contract_addr: "mkt".into(), admin: to }
                };
                self.c.tx(|app| app.execute(a, CosmosMsg::Wasm(msg)))
            }
            "Inst" => {
                let sn = self.c.snap();
                let msg = InstantiateMsg { config: cfg_msg(&op["cfg"]) };
                let mut made = String::new();
                let o = {
                    let made = &mut made;
                    self.c.tx(|app| {
                        let a = app.instantiate_contract(1, Addr::unchecked("admin"), &msg, &[], "x", None)?;
                        *made = a.to_string();
                        Ok(Default::default())
                    })
                };
                let got = if o.ok {
                    match self.c.query::<Config<Addr>>(&made, &QueryMsg::Config {}) {
                        Ok(c) => W2::cfg_json(&c),
                        Err(e) => json!({"err": e}),
                    }
                } else {
                    json!({})
                };
                self.c.restore(&sn);
                return (o, got);
            }
            x => panic!("unknown op {}", x),
        };
        (o, json!({}))
    }
    /// Runs `op` and returns (enriched op, ok, err, events, out, post state).
    pub fn step(&mut self, op: &Value, pre: &Value) -> (Value, bool, String, Value, Value, Value) {
        let before = self.c.snap();
        let (o, out) = self.run(op);
        let want = s(op, "nid");
        let post = if !o.ok && self.c.unchanged(&before) { pre.clone() } else { self.project(&want) };
        let mut op = op.clone();
        let keys = |v: &Value| v.as_object().unwrap().keys().cloned().collect::<BTreeSet<_>>();
        let mut nid = String::new();
        for c in ["bids", "cbids"] {
            for k in keys(&post[c]).difference(&keys(&pre[c])) {
                nid = k.clone();
            }
        }
        let k = s(&op, "k");
        let mut hit = String::new();
        let from: Vec<&str> = match k.as_str() {
            "SetAsk" | "SellNft" | "UpdAsk" => vec!["bids", "cbids"],
            "SetCBid" | "BuyColl" | "UpdCBid" => vec!["asks"],
            _ => vec![],
        };
        for c in from {
            for k in keys(&pre[c]).difference(&keys(&post[c])) {
                hit = k.clone();
            }
        }
        let om = op.as_object_mut().unwrap();
        om.insert("nid".into(), json!(nid));
        om.insert("hit".into(), json!(hit));
        let mut ev = wasm_events(&o.events, "mkt");
        for e in ev.iter_mut() {
            for (k, v) in e["a"].as_object_mut().unwrap().iter_mut() {
                let x = v.as_str().unwrap().to_string();
                if ["id", "ask", "bid", "collection_bid"].contains(&k.as_str()) {
                    let l = self.ids.get(&x).map(|y| y.1.clone()).unwrap_or("new".into());
                    *v = json!(l);
                } else if self.scale > 1 && ["protocol", "maker", "taker", "royalty", "seller", "fee"].contains(&k.as_str()) {
                    *v = json!(x.parse::<u128>().map(|a| self.una(a).to_string()).unwrap_or(x));
                } else if (self.scale > 1 || x.starts_with("34028236692093846346337460743176821145")) && k == "price" {
                    let i = x.find(|c: char| !c.is_ascii_digit()).unwrap_or(x.len());
                    if let Ok(a) = x[..i].parse::<u128>() {
                        *v = json!(format!("{}{}", self.una(a), &x[i..]));
                    }
                }
            }
        }
        (op, o.ok, o.err, json!(ev), out, post)
    }

    // ---------------------------------------------------------------- queries (A09)
    /// Rank of each label by its real id string (the tie order the contract's indexes use).
    pub fn ranks(&self) -> Value {
        let mut m = Map::new();
        for (i, (_, (_, l))) in self.ids.iter().enumerate() {
            m.insert(l.clone(), json!(i));
        }
        Value::Object(m)
    }
    fn lab(&self, id: &str, content: Value, post: &Value) -> Value {
        let l = self.ids.get(id).map(|x| x.1.clone()).unwrap_or("?".into());
        let st = ["asks", "bids", "cbids"].iter().find_map(|c| post[*c].get(&l));
        json!(if st == Some(&content) { l } else { format!("{}!", l) })
    }
    /// q: {q, co, tk, d, cr, ids, lim (-1 default), desc, mk/ma/mi: min kind ("","inc","exc"), amount, id label; xk/xa/xi}
    pub fn query(&self, q: &Value, post: &Value) -> Value {
        let price = |p: &str| -> Option<QueryBound<PriceOffset>> {
            let b = PriceOffset {
                id: { let l = s(q, &format!("{}i", p)); if l.is_empty() { String::new() } else { self.real(&l) } },
                amount: self.amt(n(q, &format!("{}a", p))).u128(),
            };
            match s(q, &format!("{}k", p)).as_str() { "inc" => Some(QueryBound::Inclusive(b)), "exc" => Some(QueryBound::Exclusive(b)), _ => None }
        };
        let idb = |p: &str| -> Option<QueryBound<String>> {
            let b = self.real(&s(q, &format!("{}i", p)));
            match s(q, &format!("{}k", p)).as_str() { "inc" => Some(QueryBound::Inclusive(b)), "exc" => Some(QueryBound::Exclusive(b)), _ => None }
        };
        let lim = if n(q, "lim") < 0 { None } else { Some(n(q, "lim") as u32) };
        let desc = match n(q, "desc") { 0 => Some(false), 1 => Some(true), _ => None };
        let plain = lim.is_none() && desc.is_none() && s(q, "mk").is_empty() && s(q, "xk").is_empty();
        let po = if plain { None } else { Some(QueryOptions { limit: lim, descending: desc, min: price("m"), max: price("x") }) };
        let io = if plain { None } else { Some(QueryOptions { limit: lim, descending: desc, min: idb("m"), max: idb("x") }) };
        let (co, tk, d, cr) = (s(q, "co"), s(q, "tk"), s(q, "d"), s(q, "cr"));
        let ids: Vec<String> = q["ids"].as_array().map_or(vec![], |v| v.iter().map(|x| self.real(x.as_str().unwrap())).collect());
        let fa = |r: Result<Vec<Ask>, String>| match r { Ok(v) => json!(v.iter().map(|a| self.lab(&a.id, self.ask_json(a), post)).collect::<Vec<_>>()), Err(_) => json!(["error"]) };
        let fb = |r: Result<Vec<Bid>, String>| match r { Ok(v) => json!(v.iter().map(|a| self.lab(&a.id, self.bid_json(a), post)).collect::<Vec<_>>()), Err(_) => json!(["error"]) };
        let fc = |r: Result<Vec<CollectionBid>, String>| match r { Ok(v) => json!(v.iter().map(|a| self.lab(&a.id, self.cbid_json(a), post)).collect::<Vec<_>>()), Err(_) => json!(["error"]) };
        match s(q, "q").as_str() {
            "asks" => fa(self.q(&QueryMsg::Asks(ids))),
            "bids" => fb(self.q(&QueryMsg::Bids(ids))),
            "cbids" => fc(self.q(&QueryMsg::CollectionBids(ids))),
            "asksPrice" => fa(self.q(&QueryMsg::AsksByCollectionDenom { collection: co, denom: d, query_options: po })),
            "bidsPrice" => fb(self.q(&QueryMsg::BidsByTokenPrice { collection: co, token_id: tk, denom: d, query_options: po })),
            "cbidsPrice" => fc(self.q(&QueryMsg::CollectionBidsByPrice { collection: co, denom: d, query_options: po })),
            "asksCr" => fa(self.q(&QueryMsg::AsksByCreatorCollection { creator: cr, collection: co, query_options: io })),
            "bidsCr" => fb(self.q(&QueryMsg::BidsByCreatorCollection { creator: cr, collection: co, query_options: io })),
            "cbidsCr" => fc(self.q(&QueryMsg::CollectionBidsByCreatorCollection { creator: cr, collection: co, query_options: io })),
            x => panic!("unknown query {}", x),
        }
    }
    pub fn gen_query(&self, r: &mut ChaCha8Rng, st: &Value) -> Value {
        let comp = ["asks", "bids", "cbids"].choose(r).unwrap();
        let kind = r.gen_range(0..7);
        let labels: Vec<String> = st[*comp].as_object().unwrap().keys().cloned().collect();
        let all: Vec<String> = self.ids.values().map(|x| x.1.clone()).collect();
        let some = |r: &mut ChaCha8Rng| -> String { labels.choose(r).or(all.choose(r)).cloned().unwrap_or("none".into()) };
        let q = match (*comp, kind) { (c, 0) => c.to_string(), (c, 1..=2) => format!("{}Cr", c), (c, _) => format!("{}Price", c) };
        let pick = some(r);
        let o = st[*comp].get(&pick).cloned();
        let (co, tk, d, cr) = match &o {
            Some(o) if r.gen_bool(0.85) => (s(o, "co"), s(o, "tk"), s(o, "d"), s(o, "cr")),
            _ => {
                let (c, t) = TOKENS.choose(r).unwrap();
                (c.to_string(), t.to_string(), DENOMS.choose(r).unwrap().to_string(), USERS.choose(r).unwrap().to_string())
            }
        };
        let mut ids = vec![];
        if kind == 0 {
            for _ in 0..r.gen_range(1..4) {
                let l = if r.gen_bool(0.8) { some(r) } else { all.choose(r).cloned().unwrap_or("none".into()) };
                if !ids.contains(&l) && !l.ends_with('#') { ids.push(l); }
            }
            // sometimes every order of the book at once
            if r.gen_bool(0.3) {
                for l in &labels {
                    if !ids.contains(l) && !l.ends_with('#') { ids.push(l.clone()); }
                }
                ids.shuffle(r);
            }
        }
        let mut b = |_p: &str| -> (String, i64, String) {
            let kk = *["", "", "inc", "exc"].choose(r).unwrap();
            let l = some(r);
            let a = st[*comp].get(&l).map(|o| n(o, "a")).unwrap_or(5);
            let (a, i) = match r.gen_range(0..4) { 0 => (a, String::new()), 1 => ((a + 1).min(MAXA), String::new()), _ => (a, l) };
            if q.ends_with("Cr") && i.is_empty() { return (String::new(), 0, String::new()); }
            (kk.to_string(), a, i)
        };
        let (mk, ma, mi) = b("m");
        let (xk, xa, xi) = b("x");
        let lim = *[-1i64, -1, 0, 1, 2, 3, 100, 500].choose(r).unwrap();
        let desc = *[0i64, 1, 2].choose(r).unwrap();
        json!({"q": q, "co": co, "tk": tk, "d": d, "cr": cr, "ids": ids, "lim": lim, "desc": desc,
            "mk": mk, "ma": ma, "mi": mi, "xk": xk, "xa": xa, "xi": xi})
    }
    /// All records of one list through the exclusive-cursor paging loop; `paged` marks it.
    pub fn page_all(&self, q: &Value, post: &Value, lim: i64) -> Value {
        let mut out: Vec<Value> = vec![];
        let mut q = q.clone();
        let desc = n(&q, "desc") == 1;
        for _ in 0..60 {
            let o = q.as_object_mut().unwrap();
            o.insert("lim".into(), json!(lim));
            let page = self.query(&q, post);
            let page = page.as_array().unwrap().clone();
            if page.is_empty() {
                break;
            }
            let last = page.last().unwrap().as_str().unwrap().trim_end_matches('!').to_string();
            out.extend(page);
            let a = ["asks", "bids", "cbids"].iter().find_map(|c| post[*c].get(&last)).map(|o| n(o, "a")).unwrap_or(0);
            let p = if desc { "x" } else { "m" };
            let o = q.as_object_mut().unwrap();
            o.insert(format!("{}k", p), json!("exc"));
            o.insert(format!("{}a", p), json!(a));
            o.insert(format!("{}i", p), json!(last));
        }
        json!(out)
    }
}
