//! The V1 marketplace under test.
use crate::chain::*;
use crate::mocks::*;
use crate::run::{Done, World};
use crate::util::*;
use crate::v1gen;
use cosmwasm_std::{Addr, Coin, Uint128};
use cw_multi_test::{ContractWrapper, Executor};
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Map, Value};
use sg_marketplace as m;
use std::collections::BTreeSet;

pub const USERS: [&str; 4] = ["alice", "bobby", "carol", "david"];
pub const OPERS: [&str; 2] = ["opera", "operb"];
pub const ACCTS: [&str; 13] =
    ["mkt", "admin", "opera", "operb", "findx", "findy", "royal", "fundr", "burnt", "burnpool", "community", "hooka", "hookb"];
pub const COLLS: [&str; 2] = ["colla", "collb"];
pub const TOKENS: [(&str, &str); 5] = [("colla", "0"), ("colla", "1"), ("colla", "2"), ("collb", "1"), ("collb", "7")];
pub const DENOMS: [&str; 2] = ["ustars", "uatom"];
pub const HOOKS: [&str; 3] = ["hooka", "hookb", "hookc"];
pub const KINDS: [&str; 3] = ["ask", "bid", "sale"];
const START_BAL: u128 = 100_000_000;
const MAX_ASK: u128 = 100_000_000_000_000;
/// at scale 1, amounts from here on stand for the maximum ask price and its neighbours
pub const TOP: i64 = 2_000_000_000;

pub struct V1 {
    pub c: Chain,
    pub scale: u128,
    pub max: i64,
    extra: Vec<String>,
    /// book keys ever mentioned: coll/token, coll/token/user, coll/user
    asks: BTreeSet<String>,
    bids: BTreeSet<String>,
    cbids: BTreeSet<String>,
}

fn ts_json(ms: i64) -> Value {
    json!(ts(ms).nanos().to_string())
}
fn ts_rel(v: &Value) -> i64 {
    rel(cosmwasm_std::Timestamp::from_nanos(v.as_str().and_then(|x| x.parse().ok()).unwrap_or(0)))
}
fn opt(x: String) -> Value {
    if x.is_empty() { Value::Null } else { json!(x) }
}
fn opt_n(x: i64) -> Value {
    if x < 0 { Value::Null } else { json!(bigu(x)) }
}
/// 2e9 stands for the largest u64
fn bigu(x: i64) -> u64 {
    if x == 2_000_000_000 { u64::MAX } else { x as u64 }
}
fn bps_of(d: &Value) -> i64 {
    // Decimal string of percent(bps), that is bps/100
    let x: cosmwasm_std::Decimal = d.as_str().unwrap_or("0").parse().unwrap_or_default();
    let a = x.atomics().u128();
    if a % 10_000_000_000_000_000 != 0 {
        return -7;
    }
    (a / 10_000_000_000_000_000).min(2_000_000_000) as i64
}

impl V1 {
    fn amt(&self, a: i64) -> Uint128 {
        if a < 0 {
            return Uint128::zero();
        }
        if self.scale == 1 && a > TOP {
            return Uint128::from((MAX_ASK as i128 + (a - TOP - 1) as i128) as u128);
        }
        Uint128::from(a as u128 * self.scale)
    }
    fn una(&self, a: u128) -> i64 {
        if self.scale == 1 && a >= MAX_ASK && a < MAX_ASK + 100 {
            return TOP + 1 + (a - MAX_ASK) as i64;
        }
        unscale(a, self.scale)
    }
    fn una_s(&self, v: &Value) -> i64 {
        v.as_str().and_then(|x| x.parse::<u128>().ok()).map_or(-3, |a| self.una(a))
    }
    fn coins(&self, f: &Value) -> Vec<Coin> {
        f.as_array().map_or(vec![], |v| v.iter().map(|x| Coin { denom: s(x, "d"), amount: self.amt(n(x, "a")) }).collect())
    }
    fn inst(&self, p: &Value) -> Value {
        // p: the parameters, ops, sh (sale hook), ht (stale duration as a height)
        let pct = |k: &str| json!(bigu(n(p, k)));
        json!({
            "trading_fee_bps": pct("tf"), "ask_expiry": {"min": secs_in(n(p, "an")), "max": secs_in(n(p, "ax"))},
            "bid_expiry": {"min": secs_in(n(p, "bn")), "max": secs_in(n(p, "bx"))}, "operators": p["ops"], "sale_hook": opt(s(p, "sh")),
            "max_finders_fee_bps": pct("mf"), "min_price": self.amt(n(p, "mn")),
            "stale_bid_duration": if b(p, "ht") { json!({"height": n(p, "sd")}) } else { json!({"time": secs_in(n(p, "sd"))}) },
            "bid_removal_reward_bps": pct("rw"), "listing_fee": self.amt(n(p, "lf")),
        })
    }
    fn params(&self, addr: &str) -> Value {
        let r: Result<Value, String> = self.c.query(addr, &json!({"params": {}}));
        match r {
            Ok(v) => {
                let p = &v["params"];
                let sec = |x: &Value| x.as_u64().map_or(-7, secs_out);
                let mut ops = Map::new();
                for o in p["operators"].as_array().unwrap_or(&vec![]) {
                    let k = o.as_str().unwrap_or("?").to_string();
                    let c = ops.get(&k).and_then(|x| x.as_i64()).unwrap_or(0);
                    ops.insert(k, json!(c + 1));
                }
                json!({"pr": {
                    "tf": bps_of(&p["trading_fee_percent"]), "an": sec(&p["ask_expiry"]["min"]), "ax": sec(&p["ask_expiry"]["max"]),
                    "bn": sec(&p["bid_expiry"]["min"]), "bx": sec(&p["bid_expiry"]["max"]), "mf": bps_of(&p["max_finders_fee_percent"]),
                    "mn": self.una_s(&p["min_price"]), "sd": sec(&p["stale_bid_duration"]["time"]),
                    "rw": bps_of(&p["bid_removal_reward_percent"]), "lf": self.una_s(&p["listing_fee"])}, "ops": ops})
            }
            Err(e) => json!({"pr": {"err": e}, "ops": {}}),
        }
    }
    fn hooks(&self, addr: &str) -> Value {
        let mut m = Map::new();
        for k in KINDS {
            let r: Result<Value, String> = self.c.query(addr, &json!({format!("{}_hooks", k): {}}));
            for h in r.unwrap_or(json!({}))["hooks"].as_array().unwrap_or(&vec![]) {
                let key = format!("{}/{}", k, h.as_str().unwrap_or("?"));
                let c = m.get(&key).and_then(|x| x.as_i64()).unwrap_or(0);
                m.insert(key, json!(c + 1));
            }
        }
        Value::Object(m)
    }
    fn ff(v: &Value) -> i64 {
        v.as_u64().map_or(-1, |x| x.min(2_000_000_000) as i64)
    }
    fn st(v: &Value) -> String {
        v.as_str().unwrap_or("").to_string()
    }
    fn tk(v: &Value) -> String {
        v.as_u64().map_or("?".into(), |x| x.to_string())
    }
    fn ask_json(&self, a: &Value) -> Value {
        json!({"ty": V1::st(&a["sale_type"]), "co": V1::st(&a["collection"]), "tk": V1::tk(&a["token_id"]), "se": V1::st(&a["seller"]),
            "a": self.una_s(&a["price"]), "fr": V1::st(&a["funds_recipient"]), "rf": V1::st(&a["reserve_for"]),
            "ff": V1::ff(&a["finders_fee_bps"]), "ex": ts_rel(&a["expires_at"]), "ac": a["is_active"] == json!(true)})
    }
    fn bid_json(&self, a: &Value) -> Value {
        json!({"co": V1::st(&a["collection"]), "tk": V1::tk(&a["token_id"]), "us": V1::st(&a["bidder"]),
            "a": self.una_s(&a["price"]), "ff": V1::ff(&a["finders_fee_bps"]), "ex": ts_rel(&a["expires_at"])})
    }
    fn cbid_json(&self, a: &Value) -> Value {
        json!({"co": V1::st(&a["collection"]), "us": V1::st(&a["bidder"]),
            "a": self.una_s(&a["price"]), "ff": V1::ff(&a["finders_fee_bps"]), "ex": ts_rel(&a["expires_at"])})
    }
    fn note(&mut self, op: &Value) {
        let (co, tk, us) = (s(op, "co"), s(op, "tk"), s(op, "us"));
        if co.is_empty() || co == "XX" {
            return;
        }
        if !tk.is_empty() {
            self.asks.insert(format!("{}/{}", co, tk));
            for u in [s(op, "s"), us.clone()] {
                if !u.is_empty() && u != "XX" {
                    self.bids.insert(format!("{}/{}/{}", co, tk, u));
                }
            }
        }
        for u in [s(op, "s"), us] {
            if !u.is_empty() && u != "XX" {
                self.cbids.insert(format!("{}/{}", co, u));
            }
        }
    }
    fn msg(&self, op: &Value) -> Option<Value> {
        let (co, us, tk) = (s(op, "co"), s(op, "us"), s(op, "tk").parse::<u32>().unwrap_or(0));
        let ex = ts_json(n(op, "ex"));
        let ff = opt_n(op.get("ff").and_then(|x| x.as_i64()).unwrap_or(-1));
        let fi = opt(s(op, "fi"));
        let price = json!({"denom": s(op, "d"), "amount": self.amt(n(op, "a"))});
        let ty = s(op, "ty");
        Some(match s(op, "k").as_str() {
            "SetAsk" => json!({"set_ask": {"sale_type": ty, "collection": co, "token_id": tk, "price": price,
                "funds_recipient": opt(s(op, "fr")), "reserve_for": opt(s(op, "rf")), "finders_fee_bps": ff, "expires": ex}}),
            "RemAsk" => json!({"remove_ask": {"collection": co, "token_id": tk}}),
            "UpdPrice" => json!({"update_ask_price": {"collection": co, "token_id": tk, "price": price}}),
            "SetBid" => json!({"set_bid": {"collection": co, "token_id": tk, "expires": ex, "sale_type": ty, "finder": fi, "finders_fee_bps": ff}}),
            "BuyNow" => json!({"buy_now": {"collection": co, "token_id": tk, "expires": ex, "finder": fi, "finders_fee_bps": ff}}),
            "BuyFor" => json!({"buy_for": {"collection": co, "token_id": tk, "expires": ex, "finder": fi, "finders_fee_bps": ff, "asset_recipient": s(op, "ar")}}),
            "RemBid" => json!({"remove_bid": {"collection": co, "token_id": tk}}),
            "AccBid" => json!({"accept_bid": {"collection": co, "token_id": tk, "bidder": us, "finder": fi}}),
            "RejBid" => json!({"reject_bid": {"collection": co, "token_id": tk, "bidder": us}}),
            "SetCBid" => json!({"set_collection_bid": {"collection": co, "expires": ex, "finders_fee_bps": ff}}),
            "RemCBid" => json!({"remove_collection_bid": {"collection": co}}),
            "AccCBid" => json!({"accept_collection_bid": {"collection": co, "token_id": tk, "bidder": us, "finder": fi}}),
            "SyncAsk" => json!({"sync_ask": {"collection": co, "token_id": tk}}),
            "StaleAsk" => json!({"remove_stale_ask": {"collection": co, "token_id": tk}}),
            "StaleBid" => json!({"remove_stale_bid": {"collection": co, "token_id": tk, "bidder": us}}),
            "StaleCBid" => json!({"remove_stale_collection_bid": {"collection": co, "bidder": us}}),
            _ => return None,
        })
    }
    fn sudo_msg(&self, op: &Value) -> Option<Value> {
        let h = s(op, "h");
        Some(match s(op, "k").as_str() {
            "UpdParams" => {
                let p = &op["p"];
                let f = |k: &str| p.get(k).and_then(|x| x.as_i64()).map(|x| json!(bigu(x))).unwrap_or(Value::Null);
                let a = |k: &str| p.get(k).and_then(|x| x.as_i64()).map(|x| json!(self.amt(x))).unwrap_or(Value::Null);
                let r = |x: &str, y: &str| if p.get(x).is_some() { json!({"min": secs_in(n(p, x)), "max": secs_in(n(p, y))}) } else { Value::Null };
                json!({"update_params": {"trading_fee_bps": f("tf"), "ask_expiry": r("an", "ax"), "bid_expiry": r("bn", "bx"),
                    "operators": Value::Null, "max_finders_fee_bps": f("mf"), "min_price": a("mn"),
                    "stale_bid_duration": p.get("sd").and_then(|x| x.as_i64()).map(secs_in), "bid_removal_reward_bps": f("rw"), "listing_fee": a("lf")}})
            }
            "AddOp" => json!({"add_operator": {"operator": s(op, "x")}}),
            "RemOp" => json!({"remove_operator": {"operator": s(op, "x")}}),
            "AddHook" => json!({format!("add_{}_hook", h): {"hook": s(op, "x")}}),
            "RemHook" => json!({format!("remove_{}_hook", h): {"hook": s(op, "x")}}),
            _ => return None,
        })
    }
    fn run(&mut self, op: &Value) -> (Outcome, Value) {
        let k = s(op, "k");
        let snd = s(op, "s");
        let (co, tk) = (s(op, "co"), s(op, "tk"));
        if let Some(m) = self.msg(op) {
            let f = self.coins(&op["f"]);
            return (self.c.exec(&snd, "mkt", &m, &f), json!({}));
        }
        if let Some(m) = self.sudo_msg(op) {
            return (self.c.tx(|app| app.wasm_sudo(Addr::unchecked("mkt"), &m)), json!({}));
        }
        let ok = Outcome { ok: true, err: String::new(), events: vec![] };
        let o = match k.as_str() {
            "Tick" => {
                let t = self.c.now_ms() + n(op, "dt");
                self.c.set_time(t);
                ok
            }
            "Xfer" => self.c.exec(&snd, &co, &json!({"transfer_nft": {"token_id": tk, "recipient": s(op, "to")}}), &[]),
            "Appr" => {
                let e = n(op, "ex");
                let ex = if e < 0 { json!({"never": {}}) } else { json!({"at_time": ts_json(e)}) };
                self.c.exec(&snd, &co, &json!({"approve": {"token_id": tk, "spender": "mkt", "expires": ex}}), &[])
            }
            "Unap" => self.c.exec(&snd, &co, &json!({"revoke": {"token_id": tk, "spender": "mkt"}}), &[]),
            "ApprAll" => self.c.exec(&snd, &co, &json!({"approve_all": {"operator": "mkt", "expires": {"never": {}}}}), &[]),
            "UnapAll" => self.c.exec(&snd, &co, &json!({"revoke_all": {"operator": "mkt"}}), &[]),
            "Burn" => self.c.exec(&snd, &co, &json!({"burn": {"token_id": tk}}), &[]),
            "Mint" => self.c.exec("admin", &co, &json!({"mint": {"token_id": tk, "owner": s(op, "to")}}), &[]),
            "SetInfo" => self.c.exec("admin", &co, &json!({"set_info": {"info": op["info"]}}), &[]),
            "HookBad" => self.c.exec("admin", &s(op, "x"), &json!({"set_bad": b(op, "bad")}), &[]),
            "Inst" => {
                let sn = self.c.snap();
                let msg = self.inst(&op["cfg"]);
                let mut made = String::new();
                let o = {
                    let made = &mut made;
                    self.c.tx(|app| {
                        let a = app.instantiate_contract(1, Addr::unchecked("admin"), &msg, &[], "x", None)?;
                        *made = a.to_string();
                        Ok(Default::default())
                    })
                };
                let got = if o.ok {
                    let mut v = self.params(&made);
                    v["hk"] = self.hooks(&made);
                    v
                } else {
                    json!({})
                };
                self.c.restore(&sn);
                return (o, got);
            }
            "Migrate" => {
                // the state as an older (or foreign, or newer) contract left it: only cw2's record differs
                let sn = self.c.snap();
                let cur = self.c.raw("mkt");
                let info: Value = cur.get(b"contract_info".as_slice()).map(|x| serde_json::from_slice(x).unwrap()).unwrap_or(json!({}));
                let v: Vec<u64> = s(&info, "version").split('.').map(|x| x.parse().unwrap_or(0)).collect();
                let v = if v.len() == 3 { v } else { vec![1, 0, 0] };
                let ver = match s(op, "ver").as_str() {
                    "same" => s(&info, "version"),
                    "patch-" => format!("{}.{}.{}", v[0], v[1].max(1) - 1, v[2] + 50),
                    "major-" => format!("{}.{}.{}", v[0].max(1) - 1, v[1] + 90, 0),
                    "pre-" => format!("{}.{}.{}-rc.1", v[0], v[1], v[2]),
                    "patch+" => format!("{}.{}.{}", v[0], v[1], v[2] + 1),
                    "minor+" => format!("{}.{}.0", v[0], v[1] + 10),
                    "major+" => format!("{}.0.0", v[0] + 1),
                    x => x.to_string(),
                };
                let name = if b(op, "other") { s(op, "name") } else { s(&info, "contract") };
                self.c.raw_set("mkt", b"contract_info", &serde_json::to_vec(&json!({"contract": name, "version": ver})).unwrap());
                let before = self.c.raw("mkt");
                let a = Addr::unchecked(&snd);
                let o = self.c.tx(|app| app.migrate_contract(a, Addr::unchecked("mkt"), &json!({}), 1));
                let after = self.c.raw("mkt");
                let rest = |m: &std::collections::BTreeMap<Vec<u8>, Vec<u8>>| {
                    m.iter().filter(|(k, _)| k.as_slice() != b"contract_info").map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>()
                };
                let i2: Value = after.get(b"contract_info".as_slice()).map(|x| serde_json::from_slice(x).unwrap()).unwrap_or(json!({}));
                let out = json!({"kept": rest(&before) == rest(&after),
                    "cur": i2 == info, "same": before == after});
                self.c.restore(&sn);
                return (o, out);
            }
            x => panic!("unknown op {}", x),
        };
        (o, json!({}))
    }
    fn calls(&self) -> Value {
        let mut out = vec![];
        for c in take_calls() {
            let m = &c["msg"];
            let (ty, body) = m.as_object().and_then(|o| o.iter().next()).map(|(k, v)| (k.clone(), v.clone())).unwrap_or_default();
            let o = if ty.starts_with("ask_") {
                self.ask_json(&body["ask"])
            } else if ty.starts_with("bid_") {
                self.bid_json(&body["bid"])
            } else if ty.starts_with("collection_bid_") {
                self.cbid_json(&body["collection_bid"])
            } else {
                json!({"co": V1::st(&body["collection"]), "tk": V1::tk(&body["token_id"]), "a": self.una_s(&body["price"]["amount"]),
                    "d": V1::st(&body["price"]["denom"]), "se": V1::st(&body["seller"]), "by": V1::st(&body["buyer"])})
            };
            out.push(json!({"h": c["h"], "from": c["from"], "ty": ty, "o": o}));
        }
        json!(out)
    }
    fn events(&self, o: &Outcome) -> Value {
        let mut ev = wasm_events(&o.events, "mkt");
        for e in ev.iter_mut() {
            for (k, v) in e["a"].as_object_mut().unwrap().iter_mut() {
                let x = v.as_str().unwrap().to_string();
                if k == "expires" {
                    let nanos: String = x.chars().filter(|c| *c != '.').collect();
                    *v = json!(rel(cosmwasm_std::Timestamp::from_nanos(nanos.parse().unwrap_or(0))).to_string());
                } else if ["price", "bid_price", "amount", "reward", "dist_amount", "burn_amount"].contains(&k.as_str()) {
                    let i = x.find(|c: char| !c.is_ascii_digit()).unwrap_or(x.len());
                    if let Ok(a) = x[..i].parse::<u128>() {
                        *v = json!(format!("{}{}", self.una(a), &x[i..]));
                    }
                }
            }
        }
        json!(ev)
    }
    fn qv(&self, q: Value) -> Result<Value, String> {
        self.c.query("mkt", &q)
    }
}

/// ordering of book keys: collection, token as a number, user
pub fn key_ord(k: &str) -> (String, u64, String) {
    let p: Vec<&str> = k.split('/').collect();
    match p.len() {
        1 => (p[0].into(), 0, String::new()),
        2 => match p[1].parse::<u64>() {
            Ok(t) => (p[0].into(), t, String::new()),
            Err(_) => (p[0].into(), 0, p[1].into()),
        },
        _ => (p[0].into(), p[1].parse().unwrap_or(0), p[2].into()),
    }
}

impl World for V1 {
    fn maps() -> Vec<&'static str> {
        vec!["bal", "own", "apr", "opr", "asks", "bids", "cbids", "ops", "hk", "hbad", "cinfo"]
    }
    fn new(root: &Value) -> Option<V1> {
        set_stretch(root);
        let scale: u128 = s(root, "scale").parse().unwrap_or(1);
        let extra: Vec<String> = (0..n(root, "many")).map(|i| format!("u{:04}", i)).collect();
        let bal = USERS
            .iter()
            .map(|x| x.to_string())
            .chain(extra.iter().cloned())
            .map(|u| (u.clone(), DENOMS.iter().map(|d| Coin { denom: d.to_string(), amount: Uint128::from(if u.starts_with("u0") { START_BAL / 100 } else { START_BAL } * scale) }).collect::<Vec<_>>()))
            .collect();
        let mut c = Chain::new(vec!["mkt", "colla", "collb", "hooka", "hookb", "hookc"], bal);
        let code = c.app.store_code(Box::new(
            ContractWrapper::new(m::execute::execute, m::execute::instantiate, m::query::query)
                .with_sudo(m::sudo::sudo)
                .with_reply(m::execute::reply)
                .with_migrate(m::execute::migrate),
        ));
        let nft = c.app.store_code(Box::new(Nft));
        let hook = c.app.store_code(Box::new(Hook));
        let a = Addr::unchecked("admin");
        let mut w = V1 { c, scale, max: 0, extra, asks: BTreeSet::new(), bids: BTreeSet::new(), cbids: BTreeSet::new() };
        w.max = if scale == 1 { TOP + 1 } else { (MAX_ASK / scale) as i64 };
        let msg = w.inst(&root["cfg"]);
        w.c.app.instantiate_contract(code, a.clone(), &msg, &[], "m", Some("admin".into())).ok()?;
        for co in COLLS {
            let rr = if co == "colla" { "royal" } else { "" };
            w.c.app
                .instantiate_contract(nft, a.clone(), &json!({"stt": -1, "rr": rr, "rs": 5_000_000, "ok": true, "ft": false}), &[], co, None)
                .unwrap();
        }
        for h in HOOKS {
            w.c.app.instantiate_contract(hook, a.clone(), &json!({}), &[], h, None).unwrap();
        }
        for (i, (co, t)) in TOKENS.iter().enumerate() {
            w.c.app
                .execute_contract(a.clone(), Addr::unchecked(*co), &json!({"mint": {"token_id": t, "owner": USERS[i % 2]}}), &[])
                .unwrap();
        }
        for (co, t) in TOKENS {
            for u in USERS {
                w.note(&json!({"co": co, "tk": t, "us": u}));
            }
        }
        Some(w)
    }
    fn chain(&self) -> &Chain {
        &self.c
    }
    fn chain_mut(&mut self) -> &mut Chain {
        &mut self.c
    }
    fn project(&mut self) -> Value {
        let mut bal = Map::new();
        for a in ACCTS.iter().chain(USERS.iter()).map(|x| x.to_string()).chain(self.extra.iter().cloned()) {
            let mut m = Map::new();
            for d in DENOMS {
                m.insert(d.into(), json!(self.una(self.c.bal(&a, d))));
            }
            bal.insert(a, Value::Object(m));
        }
        let (mut own, mut apr, mut opr, mut cinfo) = (Map::new(), Map::new(), Map::new(), Map::new());
        for co in COLLS {
            let st: Value = self.c.query(co, &json!({"state": {}})).unwrap();
            let mut toks: BTreeSet<String> = TOKENS.iter().filter(|x| x.0 == co).map(|x| x.1.to_string()).collect();
            toks.extend(st["own"].as_object().unwrap().keys().cloned());
            for t in toks {
                let k = format!("{}/{}", co, t);
                own.insert(k.clone(), st["own"].get(&t).cloned().unwrap_or(json!("")));
                let e = st["apr"].get(&t).and_then(|v| v.as_array()).and_then(|v| v.iter().find(|x| x[0] == "mkt").map(|x| x[1].clone()));
                apr.insert(k, e.unwrap_or(json!(-2)));
            }
            for u in USERS {
                opr.insert(format!("{}/{}", co, u), json!(st["opr"].get(format!("{}:mkt", u)).is_some()));
            }
            cinfo.insert(co.into(), st["info"].clone());
        }
        let (mut asks, mut bids, mut cbids) = (Map::new(), Map::new(), Map::new());
        for k in &self.asks {
            let p: Vec<&str> = k.split('/').collect();
            let t: u32 = p[1].parse().unwrap_or(0);
            if let Ok(v) = self.qv(json!({"ask": {"collection": p[0], "token_id": t}})) {
                if !v["ask"].is_null() {
                    asks.insert(k.clone(), self.ask_json(&v["ask"]));
                }
            }
        }
        for k in &self.bids {
            let p: Vec<&str> = k.split('/').collect();
            let t: u32 = p[1].parse().unwrap_or(0);
            if let Ok(v) = self.qv(json!({"bid": {"collection": p[0], "token_id": t, "bidder": p[2]}})) {
                if !v["bid"].is_null() {
                    bids.insert(k.clone(), self.bid_json(&v["bid"]));
                }
            }
        }
        for k in &self.cbids {
            let p: Vec<&str> = k.split('/').collect();
            if let Ok(v) = self.qv(json!({"collection_bid": {"collection": p[0], "bidder": p[1]}})) {
                if !v["bid"].is_null() {
                    cbids.insert(k.clone(), self.cbid_json(&v["bid"]));
                }
            }
        }
        let p = self.params("mkt");
        let mut hbad = Map::new();
        for h in HOOKS {
            let v: Value = self.c.query(h, &json!({})).unwrap();
            if v["bad"] == json!(true) {
                hbad.insert(h.into(), json!(1));
            }
        }
        json!({"t": self.c.now_ms(), "max": self.max, "bal": bal, "own": own, "apr": apr, "opr": opr, "asks": asks, "bids": bids,
            "cbids": cbids, "pr": p["pr"], "ops": p["ops"], "hk": self.hooks("mkt"), "hbad": hbad, "cinfo": cinfo})
    }
    fn exec(&mut self, op: &Value, _pre: &Value) -> Done {
        self.note(op);
        take_calls();
        let (o, mut out) = self.run(op);
        out["hooks"] = self.calls();
        Done { op: op.clone(), ok: o.ok, err: o.err.clone(), ev: self.events(&o), out }
    }
    fn gen_root(r: &mut ChaCha8Rng, prop: &str, scaled: bool) -> Value {
        v1gen::root(r, prop, scaled)
    }
    fn prologue(r: &mut ChaCha8Rng, root: &Value, prop: &str) -> Vec<Value> {
        v1gen::prologue(r, root, prop)
    }
    fn gen_op(r: &mut ChaCha8Rng, st: &Value, root: &Value, prop: &str) -> Value {
        v1gen::op(r, st, root, prop)
    }
    fn probes(r: &mut ChaCha8Rng, st: &Value, root: &Value, prop: &str) -> Vec<Value> {
        v1gen::probes(r, st, root, prop)
    }
    fn gen_queries(&self, r: &mut ChaCha8Rng, st: &Value, prop: &str) -> Vec<Value> {
        v1gen::queries(r, st, prop)
    }
    fn ranks(&self) -> Value {
        json!({})
    }
    fn crowd(r: &mut ChaCha8Rng, prop: &str, k: usize) -> Option<(Value, Vec<Value>)> {
        Some(v1gen::crowd(r, prop, k))
    }
    fn big(r: &mut ChaCha8Rng, k: usize) -> Option<(Value, Vec<Value>, Vec<Value>)> {
        Some(v1gen::big(r, k))
    }
    /// q: {q, co, tk, us, inact: -1/0/1, lim, cur: 0/1, ca, ct, cu, cc, page: 0/1}; the result gets
    /// the keys found (marked when their content differs from the stored order), and q gets rk / ck,
    /// the positions of all keys and of the cursor in key order.
    fn query(&self, q: &mut Value, st: &Value) -> Value {
        let kind = s(q, "q");
        let book = v1gen::book(&kind);
        let mut ks: Vec<String> = if book.is_empty() { COLLS.iter().map(|x| x.to_string()).collect() } else { st[book].as_object().unwrap().keys().cloned().collect() };
        let cur_key = |q: &Value| -> String {
            match book {
                "" => s(q, "cc"),
                "asks" => format!("{}/{}", s(q, "cc"), s(q, "ct")),
                "bids" => format!("{}/{}/{}", s(q, "cc"), s(q, "ct"), s(q, "cu")),
                _ => format!("{}/{}", s(q, "cc"), s(q, "cu")),
            }
        };
        let ck = if n(q, "cur") == 1 { cur_key(q) } else { String::new() };
        if !ck.is_empty() && !ks.contains(&ck) {
            ks.push(ck.clone());
        }
        ks.sort_by_key(|k| key_ord(k));
        let rk: Map<String, Value> = ks.iter().enumerate().map(|(i, k)| (k.clone(), json!(i))).collect();
        q["ck"] = if ck.is_empty() { json!(-1) } else { rk[&ck].clone() };
        q["rk"] = Value::Object(rk);
        q["ts"] = json!(stretch());
        if n(q, "page") == 1 {
            // walk through all pages, the last item being the next cursor
            let lim = n(q, "lim");
            let mut all: Vec<Value> = vec![];
            let mut p = q.clone();
            p["cur"] = json!(0);
            for _ in 0..300 {
                let r = self.one(&p, st);
                let r = r.as_array().unwrap().clone();
                if r.is_empty() {
                    break;
                }
                let last = r.last().unwrap().as_str().unwrap().trim_end_matches('!').to_string();
                all.extend(r);
                let (c, t, u) = v1gen::split(&last);
                p["cur"] = json!(1);
                p["cc"] = json!(c);
                p["ct"] = json!(t);
                p["cu"] = json!(u);
                if !book.is_empty() {
                    p["ca"] = json!(st[book].get(&last).map_or(0, |o| n(o, "a")));
                }
            }
            q["cur"] = json!(0);
            q["ck"] = json!(-1);
            q["lim"] = json!(-2);
            q["step"] = json!(lim);
            return json!(all);
        }
        self.one(q, st)
    }
}

impl V1 {
    fn one(&self, q: &Value, st: &Value) -> Value {
        let (co, us) = (s(q, "co"), s(q, "us"));
        let tk: u32 = s(q, "tk").parse().unwrap_or(0);
        let lim = if n(q, "lim") < 0 { Value::Null } else { json!(n(q, "lim")) };
        let inact = match n(q, "inact") { 0 => json!(false), 1 => json!(true), _ => Value::Null };
        let cur = n(q, "cur") == 1;
        let (cc, cu) = (s(q, "cc"), s(q, "cu"));
        let ct: u32 = s(q, "ct").parse().unwrap_or(0);
        let ca = self.amt(n(q, "ca"));
        let c = |v: Value| if cur { v } else { Value::Null };
        let coff = json!({"collection": cc, "token_id": ct});
        let msg = match s(q, "q").as_str() {
            "colls" => json!({"collections": {"start_after": c(json!(cc)), "limit": lim}}),
            "asks" => json!({"asks": {"collection": co, "include_inactive": inact, "start_after": c(json!(ct)), "limit": lim}}),
            "asksR" => json!({"reverse_asks": {"collection": co, "include_inactive": inact, "start_before": c(json!(ct)), "limit": lim}}),
            "asksP" => json!({"asks_sorted_by_price": {"collection": co, "include_inactive": inact, "start_after": c(json!({"price": ca, "token_id": ct})), "limit": lim}}),
            "asksPR" => json!({"reverse_asks_sorted_by_price": {"collection": co, "include_inactive": inact, "start_before": c(json!({"price": ca, "token_id": ct})), "limit": lim}}),
            "askCount" => json!({"ask_count": {"collection": co}}),
            "asksS" => json!({"asks_by_seller": {"seller": us, "include_inactive": inact, "start_after": c(coff), "limit": lim}}),
            "bidsB" => json!({"bids_by_bidder": {"bidder": us, "start_after": c(coff), "limit": lim}}),
            "bidsBE" => json!({"bids_by_bidder_sorted_by_expiration": {"bidder": us, "start_after": c(coff), "limit": lim}}),
            "bids" => json!({"bids": {"collection": co, "token_id": tk, "start_after": c(json!(cu)), "limit": lim}}),
            "bidsP" => json!({"bids_sorted_by_price": {"collection": co, "start_after": c(json!({"price": ca, "token_id": ct, "bidder": cu})), "limit": lim}}),
            "bidsPR" => json!({"reverse_bids_sorted_by_price": {"collection": co, "start_before": c(json!({"price": ca, "token_id": ct, "bidder": cu})), "limit": lim}}),
            "cbidsB" => json!({"collection_bids_by_bidder": {"bidder": us, "start_after": c(coff), "limit": lim}}),
            "cbidsBE" => json!({"collection_bids_by_bidder_sorted_by_expiration": {"bidder": us, "start_after": c(json!({"price": ca, "collection": cc, "bidder": cu})), "limit": lim}}),
            "cbidsP" => json!({"collection_bids_sorted_by_price": {"collection": co, "start_after": c(json!({"price": ca, "collection": cc, "bidder": cu})), "limit": lim}}),
            "cbidsPR" => json!({"reverse_collection_bids_sorted_by_price": {"collection": co, "start_before": c(json!({"price": ca, "collection": cc, "bidder": cu})), "limit": lim}}),
            x => panic!("unknown query {}", x),
        };
        let Ok(v) = self.qv(msg) else { return json!(["error"]) };
        let kind = s(q, "q");
        if kind == "askCount" {
            return json!([v["count"].as_u64().unwrap_or(99999).to_string()]);
        }
        if kind == "colls" {
            return json!(v["collections"].as_array().unwrap_or(&vec![json!("error")]));
        }
        let book = v1gen::book(&kind);
        let list = v[if book == "asks" { "asks" } else { "bids" }].as_array().cloned().unwrap_or(vec![]);
        json!(list
            .iter()
            .map(|x| {
                let (k, o) = match book {
                    "asks" => {
                        let o = self.ask_json(x);
                        (format!("{}/{}", s(&o, "co"), s(&o, "tk")), o)
                    }
                    "bids" => {
                        let o = self.bid_json(x);
                        (format!("{}/{}/{}", s(&o, "co"), s(&o, "tk"), s(&o, "us")), o)
                    }
                    _ => {
                        let o = self.cbid_json(x);
                        (format!("{}/{}", s(&o, "co"), s(&o, "us")), o)
                    }
                };
                if st[book].get(&k) == Some(&o) { k } else { format!("{}!", k) }
            })
            .collect::<Vec<_>>())
    }
}
