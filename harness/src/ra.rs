//! The reserve auction under test, with two real fair-burn contracts (50% and 100% burned).
use crate::chain::*;
use crate::mocks::*;
use crate::ragen;
use crate::run::{Done, World};
use crate::util::*;
use cosmwasm_std::{Addr, Coin, Decimal, Uint128};
use cw_multi_test::{ContractWrapper, Executor};
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Map, Value};
use std::collections::BTreeSet;
use stargaze_reserve_auction as m;

pub const USERS: [&str; 4] = ["alice", "bobby", "carol", "david"];
pub const ACCTS: [&str; 10] = ["auct", "admin", "faira", "fairb", "royal", "fundr", "burnt", "burnpool", "community", "findx"];
pub const COLLS: [&str; 2] = ["colla", "collb"];
pub const TOKENS: [(&str, &str); 6] = [("colla", "0"), ("colla", "1"), ("colla", "10"), ("colla", "2"), ("collb", "1"), ("collb", "7")];
pub const DENOMS: [&str; 2] = ["ustars", "uatom"];
const START_BAL: u128 = 100_000_000;

pub struct RA {
    pub c: Chain,
    pub scale: u128,
    extra: Vec<String>,
    /// auction keys ever mentioned: coll/token
    keys: BTreeSet<String>,
}

fn opt(x: String) -> Value {
    if x.is_empty() { Value::Null } else { json!(x) }
}
/// 2e9 stands for the largest u64
fn bigu(x: i64) -> u64 {
    if x == 2_000_000_000 { u64::MAX } else { x as u64 }
}
fn smallu(v: &Value) -> i64 {
    v.as_u64().map_or(-7, |x| x.min(2_000_000_000) as i64)
}
fn secs(v: &Value) -> i64 {
    v.as_u64().map_or(-7, secs_out)
}
fn ts_rel(v: &Value) -> i64 {
    match v.as_str().and_then(|x| x.parse::<u64>().ok()) {
        Some(x) => rel(cosmwasm_std::Timestamp::from_nanos(x)),
        None => -1,
    }
}
/// Decimal -> units of 10^-8
fn pct(v: &str) -> i64 {
    match v.parse::<Decimal>() {
        Ok(d) => unscale(d.atomics().u128(), 10_000_000_000),
        Err(_) => -3,
    }
}
fn sec_rel(v: &Value) -> i64 {
    match v.as_u64() {
        None | Some(0) => -1,
        Some(x) => {
            let v = x as i128 - T0_SECS as i128;
            if v % stretch() as i128 != 0 { -7 } else { (v / stretch() as i128).clamp(-2_000_000_000, 2_000_000_000) as i64 }
        }
    }
}
fn st(v: &Value) -> String {
    v.as_str().unwrap_or("").to_string()
}

/// stands for the largest amount there is
pub const MAXA: i64 = 2_000_000_000;

impl RA {
    fn amt(&self, a: i64) -> Uint128 {
        if a == MAXA {
            return Uint128::MAX;
        }
        Uint128::from(a.max(0) as u128 * self.scale)
    }
    fn una(&self, a: u128) -> i64 {
        if a == u128::MAX {
            return MAXA;
        }
        unscale(a, self.scale)
    }
    fn una_s(&self, v: &Value) -> i64 {
        v.as_str().and_then(|x| x.parse::<u128>().ok()).map_or(-3, |a| self.una(a))
    }
    fn coin(&self, d: &str, a: i64) -> Value {
        json!({"denom": d, "amount": self.amt(a)})
    }
    fn coins(&self, f: &Value) -> Vec<Coin> {
        f.as_array().map_or(vec![], |v| v.iter().map(|x| Coin { denom: s(x, "d"), amount: self.amt(n(x, "a")) }).collect())
    }
    fn mins(&self, m: &Value) -> Value {
        json!(m.as_array().unwrap().iter().map(|x| self.coin(&s(x, "d"), n(x, "a"))).collect::<Vec<_>>())
    }
    fn inst(&self, p: &Value) -> Value {
        let u = |k: &str| json!(if k == "lim" { bigu(n(p, k)) } else { secs_in(n(p, k)) });
        json!({
            "fair_burn": s(p, "fb"), "trading_fee_percent": share(n(p, "tf")).to_string(), "min_bid_increment_percent": share(n(p, "mi")).to_string(),
            "min_duration": u("mn"), "max_duration": u("mx"), "extend_duration": u("ex"), "create_auction_fee": self.coin(&s(p, "fd"), n(p, "fa")),
            "max_auctions_to_settle_per_block": u("lim"), "halt_duration_threshold": u("th"), "halt_buffer_duration": u("bu"),
            "halt_postpone_duration": u("po"), "min_reserve_prices": self.mins(&p["m"]),
        })
    }
    /// parameters, minimum reserves and halt manager of an instance
    fn gov(&self, addr: &str) -> Value {
        let c: Value = self.c.query(addr, &json!({"config": {}})).unwrap_or(json!({}));
        let h: Value = self.c.query(addr, &json!({"halt_manager": {}})).unwrap_or(json!({}));
        let mut mrp = Map::new();
        let mut cur = Value::Null;
        loop {
            let r: Vec<Value> = self
                .c
                .query(addr, &json!({"min_reserve_prices": {"query_options": {"limit": 100, "start_after": cur}}}))
                .unwrap_or_default();
            let l = r.len();
            for x in r {
                cur = json!({"denom": x["denom"]});
                mrp.insert(st(&x["denom"]), json!(self.una_s(&x["amount"])));
            }
            if l < 100 || mrp.len() > 1000 {
                break;
            }
        }
        let win: Vec<Value> = h["halt_windows"]
            .as_array()
            .unwrap_or(&vec![])
            .iter()
            .map(|w| json!({"s": sec_rel(&w["start_time"]), "e": sec_rel(&w["end_time"])}))
            .collect();
        let fee = &c["create_auction_fee"];
        json!({"pr": {"fb": st(&c["fair_burn"]), "tf": pct(&st(&c["trading_fee_percent"])), "mi": pct(&st(&c["min_bid_increment_percent"])),
            "mn": secs(&c["min_duration"]), "mx": secs(&c["max_duration"]), "ex": secs(&c["extend_duration"]),
            "fd": st(&fee["denom"]), "fa": self.una_s(&fee["amount"]), "lim": smallu(&c["max_auctions_to_settle_per_block"]),
            "th": secs(&c["halt_duration_threshold"]), "bu": secs(&c["halt_buffer_duration"]), "po": secs(&c["halt_postpone_duration"])},
            "mrp": mrp, "hm": {"prev": sec_rel(&h["prev_block_time"]), "win": win}})
    }
    fn auc_json(&self, a: &Value) -> Value {
        let hb = &a["high_bid"];
        let d = st(&a["reserve_price"]["denom"]);
        let ha = if hb.is_null() {
            0
        } else if st(&hb["coin"]["denom"]) != d {
            -4
        } else {
            self.una_s(&hb["coin"]["amount"])
        };
        json!({"co": st(&a["collection"]), "tk": st(&a["token_id"]), "se": st(&a["seller"]), "d": d, "r": self.una_s(&a["reserve_price"]["amount"]),
            "du": secs(&a["duration"]), "en": ts_rel(&a["end_time"]), "fr": st(&a["seller_funds_recipient"]), "hb": st(&hb["bidder"]), "ha": ha,
            "fb": ts_rel(&a["first_bid_time"])})
    }
    fn msg(&self, op: &Value) -> Option<Value> {
        let (co, tk) = (s(op, "co"), s(op, "tk"));
        let res = self.coin(&s(op, "d"), n(op, "a"));
        Some(match s(op, "k").as_str() {
            "Create" => json!({"create_auction": {"collection": co, "token_id": tk, "reserve_price": res, "duration": secs_in(n(op, "du")),
                "seller_funds_recipient": opt(s(op, "fr"))}}),
            "UpdRes" => json!({"update_reserve_price": {"collection": co, "token_id": tk, "reserve_price": res}}),
            "Cancel" => json!({"cancel_auction": {"collection": co, "token_id": tk}}),
            "Bid" => json!({"place_bid": {"collection": co, "token_id": tk}}),
            "Settle" => json!({"settle_auction": {"collection": co, "token_id": tk}}),
            _ => return None,
        })
    }
    fn sudo_msg(&self, op: &Value) -> Option<Value> {
        Some(match s(op, "k").as_str() {
            "Begin" => json!({"begin_block": {}}),
            "End" => json!({"end_block": {}}),
            "UpdParams" => {
                let p = &op["p"];
                let u = |k: &str| p.get(k).and_then(|x| x.as_i64()).map(|x| json!(if k == "lim" { bigu(x) } else { secs_in(x) })).unwrap_or(Value::Null);
                let d = |k: &str| p.get(k).and_then(|x| x.as_i64()).map(|x| json!(share(x).to_string())).unwrap_or(Value::Null);
                let fee = if p.get("fd").is_some() { self.coin(&s(p, "fd"), n(p, "fa")) } else { Value::Null };
                json!({"update_params": {"fair_burn": opt(s(p, "fb")), "trading_fee_percent": d("tf"), "min_bid_increment_percent": d("mi"),
                    "min_duration": u("mn"), "extend_duration": u("ex"), "create_auction_fee": fee, "max_auctions_to_settle_per_block": u("lim"),
                    "halt_duration_threshold": u("th"), "halt_buffer_duration": u("bu"), "halt_postpone_duration": u("po")}})
            }
            "SetMin" => json!({"set_min_reserve_prices": {"min_reserve_prices": self.mins(&op["m"])}}),
            "UnsetMin" => json!({"unset_min_reserve_prices": {"denoms": op["ds"]}}),
            _ => return None,
        })
    }
    fn run(&mut self, op: &Value) -> (Outcome, Value) {
        let k = s(op, "k");
        let snd = s(op, "s");
        let (co, tk) = (s(op, "co"), s(op, "tk"));
        if let Some(m) = self.msg(op) {
            let f = self.coins(&op["f"]);
            return (self.c.exec(&snd, "auct", &m, &f), json!({}));
        }
        if let Some(m) = self.sudo_msg(op) {
            return (self.c.tx(|app| app.wasm_sudo(Addr::unchecked("auct"), &m)), json!({}));
        }
        let ok = Outcome { ok: true, err: String::new(), events: vec![] };
        let o = match k.as_str() {
            "Tick" => {
                let t = self.c.now_ms() + n(op, "dt");
                self.c.set_time(t);
                ok
            }
            "Xfer" => self.c.exec(&snd, &co, &json!({"transfer_nft": {"token_id": tk, "recipient": s(op, "to")}}), &[]),
            "Appr" => {
                let e = n(op, "ex");
                let ex = if e < 0 { json!({"never": {}}) } else { json!({"at_time": ts(e).nanos().to_string()}) };
                self.c.exec(&snd, &co, &json!({"approve": {"token_id": tk, "spender": "auct", "expires": ex}}), &[])
            }
            "Unap" => self.c.exec(&snd, &co, &json!({"revoke": {"token_id": tk, "spender": "auct"}}), &[]),
            "ApprAll" => self.c.exec(&snd, &co, &json!({"approve_all": {"operator": "auct", "expires": {"never": {}}}}), &[]),
            "UnapAll" => self.c.exec(&snd, &co, &json!({"revoke_all": {"operator": "auct"}}), &[]),
            "Burn" => self.c.exec(&snd, &co, &json!({"burn": {"token_id": tk}}), &[]),
            "Mint" => self.c.exec("admin", &co, &json!({"mint": {"token_id": tk, "owner": s(op, "to")}}), &[]),
            "SetInfo" => self.c.exec("admin", &co, &json!({"set_info": {"info": op["info"]}}), &[]),
            "Inst" => {
                let sn = self.c.snap();
                let msg = self.inst(&op["cfg"]);
                let mut made = String::new();
                let o = {
                    let made = &mut made;
                    self.c.tx(|app| {
                        let a = app.instantiate_contract(1, Addr::unchecked("admin"), &msg, &[], "x", None)?;
                        *made = a.to_string();
                        Ok(Default::default())
                    })
                };
                let got = if o.ok { self.gov(&made) } else { json!({}) };
                self.c.restore(&sn);
                return (o, got);
            }
            "Migrate" => {
                // the state as another version of the contract left it: only cw2's record differs
                let sn = self.c.snap();
                let cur = self.c.raw("auct");
                let info: Value = cur.get(b"contract_info".as_slice()).map(|x| serde_json::from_slice(x).unwrap()).unwrap_or(json!({}));
                let name = if b(op, "other") { s(op, "name") } else { s(&info, "contract") };
                let ver = if s(op, "ver") == "same" { s(&info, "version") } else { s(op, "ver") };
                self.c.raw_set("auct", b"contract_info", &serde_json::to_vec(&json!({"contract": name, "version": ver})).unwrap());
                let before = self.c.raw("auct");
                let a = Addr::unchecked(&snd);
                let o = self.c.tx(|app| app.migrate_contract(a, Addr::unchecked("auct"), &json!({}), 1));
                let after = self.c.raw("auct");
                let rest = |m: &std::collections::BTreeMap<Vec<u8>, Vec<u8>>| {
                    m.iter().filter(|(k, _)| k.as_slice() != b"contract_info").map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>()
                };
                let i2: Value = after.get(b"contract_info".as_slice()).map(|x| serde_json::from_slice(x).unwrap()).unwrap_or(json!({}));
                let out = json!({"kept": rest(&before) == rest(&after), "cur": i2 == info});
                self.c.restore(&sn);
                return (o, out);
            }
            x => panic!("unknown op {}", x),
        };
        (o, json!({}))
    }
    fn events(&self, o: &Outcome) -> Value {
        let mut ev = wasm_events(&o.events, "auct");
        for e in ev.iter_mut() {
            for (k, v) in e["a"].as_object_mut().unwrap().iter_mut() {
                let x = v.as_str().unwrap().to_string();
                if k == "auction_end_time" {
                    let nanos: String = x.chars().filter(|c| *c != '.').collect();
                    *v = json!(rel(cosmwasm_std::Timestamp::from_nanos(nanos.parse().unwrap_or(0))).to_string());
                } else if ["reserve_price", "bid_amount", "previous_bid_amount", "create_auction_fee", "amount"].contains(&k.as_str()) {
                    let i = x.find(|c: char| !c.is_ascii_digit()).unwrap_or(x.len());
                    if let Ok(a) = x[..i].parse::<u128>() {
                        *v = json!(format!("{}{}", self.una(a), &x[i..]));
                    }
                } else if k.ends_with("_percent") {
                    *v = json!(pct(&x).to_string());
                } else if ["min_duration", "extend_duration", "halt_duration_threshold", "halt_buffer_duration", "halt_postpone_duration"].contains(&k.as_str()) {
                    if let Ok(a) = x.parse::<u64>() {
                        *v = json!(secs_out(a).to_string());
                    }
                } else if k == "max_auctions_to_settle_per_block" {
                    if let Ok(a) = x.parse::<u64>() {
                        *v = json!(a.min(2_000_000_000).to_string());
                    }
                }
            }
        }
        json!(ev)
    }
    fn one(&self, q: &Value, stt: &Value) -> Value {
        let lim = if n(q, "lim") < 0 { Value::Null } else { json!(n(q, "lim")) };
        let desc = if b(q, "desc") { json!(true) } else if b(q, "dnull") { Value::Null } else { json!(false) };
        let cur = n(q, "cur") == 1;
        let after = if !cur {
            Value::Null
        } else if s(q, "q") == "mrp" {
            json!({"denom": s(q, "cc")})
        } else {
            json!({"collection": s(q, "cc"), "token_id": s(q, "ct")})
        };
        let qo = if b(q, "noopt") && !cur && lim.is_null() && !b(q, "desc") {
            Value::Null
        } else {
            json!({"descending": desc, "limit": lim, "start_after": after})
        };
        let msg = match s(q, "q").as_str() {
            "mrp" => json!({"min_reserve_prices": {"query_options": qo}}),
            "seller" => json!({"auctions_by_seller": {"seller": s(q, "us"), "query_options": qo}}),
            "end" => json!({"auctions_by_end_time": {"end_time": (T0_SECS as i64 + n(q, "et") * stretch()) as u64, "query_options": qo}}),
            x => panic!("unknown query {}", x),
        };
        let v: Vec<Value> = match self.c.query("auct", &msg) {
            Ok(v) => v,
            Err(_) => return json!(["error"]),
        };
        json!(v
            .iter()
            .map(|x| {
                if s(q, "q") == "mrp" {
                    let (k, a) = (st(&x["denom"]), self.una_s(&x["amount"]));
                    return if stt["mrp"].get(&k) == Some(&json!(a)) { k } else { format!("{}!", k) };
                }
                let o = self.auc_json(x);
                let k = format!("{}/{}", s(&o, "co"), s(&o, "tk"));
                if stt["auc"].get(&k) == Some(&o) { k } else { format!("{}!", k) }
            })
            .collect::<Vec<_>>())
    }
}

/// where time is stretched, it passes in whole seconds
fn whole(root: &Value, mut op: Value) -> Value {
    if n(root, "tscale") > 1 && s(&op, "k") == "Tick" {
        op["dt"] = json!((n(&op, "dt") + 999) / 1000 * 1000);
    }
    op
}

impl World for RA {
    fn maps() -> Vec<&'static str> {
        vec!["bal", "own", "apr", "opr", "auc", "mrp", "cinfo"]
    }
    fn new(root: &Value) -> Option<RA> {
        set_stretch(root);
        let scale: u128 = s(root, "scale").parse().unwrap_or(1);
        let extra: Vec<String> = (0..n(root, "many")).map(|i| format!("u{:04}", i)).collect();
        let bal = USERS
            .iter()
            .map(|x| x.to_string())
            .chain(extra.iter().cloned())
            .map(|u| {
                let a = if u.starts_with("u0") { START_BAL / 100 } else { START_BAL } * scale;
                (u.clone(), DENOMS.iter().map(|d| Coin { denom: d.to_string(), amount: Uint128::from(a) }).collect::<Vec<_>>())
            })
            .collect();
        let mut c = Chain::new(vec!["auct", "faira", "fairb", "colla", "collb"], bal);
        let code = c.app.store_code(Box::new(
            ContractWrapper::new(m::execute::execute, m::instantiate::instantiate, m::query::query)
                .with_sudo(m::sudo::sudo)
                .with_migrate(m::migrate::migrate),
        ));
        let fb = c.app.store_code(Box::new(ContractWrapper::new(
            stargaze_fair_burn::contract::execute,
            stargaze_fair_burn::contract::instantiate,
            stargaze_fair_burn::contract::query,
        )));
        let nft = c.app.store_code(Box::new(Nft));
        let a = Addr::unchecked("admin");
        let mut w = RA { c, scale, extra, keys: TOKENS.iter().map(|(c, t)| format!("{}/{}", c, t)).collect() };
        let msg = w.inst(&root["cfg"]);
        w.c.app.instantiate_contract(code, a.clone(), &msg, &[], "m", Some("admin".into())).ok()?;
        for bps in [5000u64, 10000] {
            w.c.app.instantiate_contract(fb, a.clone(), &json!({"fee_bps": bps}), &[], "fb", None).unwrap();
        }
        for co in COLLS {
            let rr = if co == "colla" { "royal" } else { "" };
            w.c.app
                .instantiate_contract(nft, a.clone(), &json!({"stt": -1, "rr": rr, "rs": 5_000_000, "ok": true, "ft": false}), &[], co, None)
                .unwrap();
        }
        for (i, (co, t)) in TOKENS.iter().enumerate() {
            w.c.app
                .execute_contract(a.clone(), Addr::unchecked(*co), &json!({"mint": {"token_id": t, "owner": USERS[i % 2]}}), &[])
                .unwrap();
        }
        Some(w)
    }
    fn chain(&self) -> &Chain {
        &self.c
    }
    fn chain_mut(&mut self) -> &mut Chain {
        &mut self.c
    }
    fn project(&mut self) -> Value {
        let mut bal = Map::new();
        for a in ACCTS.iter().chain(USERS.iter()).map(|x| x.to_string()).chain(self.extra.iter().cloned()) {
            let mut m = Map::new();
            for d in DENOMS {
                m.insert(d.into(), json!(self.una(self.c.bal(&a, d))));
            }
            bal.insert(a, Value::Object(m));
        }
        let (mut own, mut apr, mut opr, mut cinfo) = (Map::new(), Map::new(), Map::new(), Map::new());
        for co in COLLS {
            let st: Value = self.c.query(co, &json!({"state": {}})).unwrap();
            let mut toks: BTreeSet<String> = TOKENS.iter().filter(|x| x.0 == co).map(|x| x.1.to_string()).collect();
            toks.extend(st["own"].as_object().unwrap().keys().cloned());
            for t in toks {
                let k = format!("{}/{}", co, t);
                own.insert(k.clone(), st["own"].get(&t).cloned().unwrap_or(json!("")));
                let e = st["apr"].get(&t).and_then(|v| v.as_array()).and_then(|v| v.iter().find(|x| x[0] == "auct").map(|x| x[1].clone()));
                apr.insert(k, e.unwrap_or(json!(-2)));
            }
            for u in USERS {
                opr.insert(format!("{}/{}", co, u), json!(st["opr"].get(format!("{}:auct", u)).is_some()));
            }
            cinfo.insert(co.into(), st["info"].clone());
        }
        let mut auc = Map::new();
        for k in &self.keys {
            let (co, tk) = k.split_once('/').unwrap();
            let v: Result<Value, String> = self.c.query("auct", &json!({"auction": {"collection": co, "token_id": tk}}));
            if let Ok(v) = v {
                if !v.is_null() {
                    auc.insert(k.clone(), self.auc_json(&v));
                }
            }
        }
        let g = self.gov("auct");
        json!({"t": self.c.now_ms(), "bal": bal, "own": own, "apr": apr, "opr": opr, "auc": auc, "pr": g["pr"], "mrp": g["mrp"], "hm": g["hm"], "cinfo": cinfo})
    }
    fn exec(&mut self, op: &Value, _pre: &Value) -> Done {
        let (co, tk) = (s(op, "co"), s(op, "tk"));
        if COLLS.contains(&co.as_str()) && !tk.is_empty() {
            self.keys.insert(format!("{}/{}", co, tk));
        }
        let (o, out) = self.run(op);
        Done { op: op.clone(), ok: o.ok, err: o.err.clone(), ev: self.events(&o), out }
    }
    fn gen_root(r: &mut ChaCha8Rng, prop: &str, scaled: bool) -> Value {
        ragen::root(r, prop, scaled)
    }
    fn prologue(r: &mut ChaCha8Rng, root: &Value, prop: &str) -> Vec<Value> {
        ragen::prologue(r, root, prop)
    }
    fn gen_op(r: &mut ChaCha8Rng, st: &Value, root: &Value, prop: &str) -> Value {
        whole(root, ragen::op(r, st, root, prop))
    }
    fn probes(r: &mut ChaCha8Rng, st: &Value, root: &Value, prop: &str) -> Vec<Value> {
        ragen::probes(r, st, root, prop)
    }
    fn gen_queries(&self, r: &mut ChaCha8Rng, st: &Value, prop: &str) -> Vec<Value> {
        ragen::queries(r, st, prop)
    }
    fn ranks(&self) -> Value {
        json!({})
    }
    fn crowd(r: &mut ChaCha8Rng, prop: &str, k: usize) -> Option<(Value, Vec<Value>)> {
        let (root, ops) = ragen::crowd(r, prop, k);
        let ops = ops.into_iter().map(|o| whole(&root, o)).collect();
        Some((root, ops))
    }
    fn big(r: &mut ChaCha8Rng, k: usize) -> Option<(Value, Vec<Value>, Vec<Value>)> {
        Some(ragen::big(r, k))
    }
    /// q: {q, us, et, lim, desc, cur, cc, ct, page}; gets rk / ck, the positions of all keys and of
    /// the cursor in key order.
    fn query(&self, q: &mut Value, st: &Value) -> Value {
        let kind = s(q, "q");
        let mrp = kind == "mrp";
        let mut ks: Vec<String> = st[if mrp { "mrp" } else { "auc" }].as_object().unwrap().keys().cloned().collect();
        let ck = if n(q, "cur") == 0 { String::new() } else if mrp { s(q, "cc") } else { format!("{}/{}", s(q, "cc"), s(q, "ct")) };
        if !ck.is_empty() && !ks.contains(&ck) {
            ks.push(ck.clone());
        }
        ks.sort();
        let rk: Map<String, Value> = ks.iter().enumerate().map(|(i, k)| (k.clone(), json!(i))).collect();
        q["ck"] = if ck.is_empty() { json!(-1) } else { rk[&ck].clone() };
        q["rk"] = Value::Object(rk);
        if n(q, "page") == 1 {
            let mut all: Vec<Value> = vec![];
            let mut p = q.clone();
            for _ in 0..300 {
                let r = self.one(&p, st);
                let r = r.as_array().unwrap().clone();
                if r.is_empty() {
                    break;
                }
                let last = r.last().unwrap().as_str().unwrap().trim_end_matches('!').to_string();
                all.extend(r);
                p["cur"] = json!(1);
                if mrp {
                    p["cc"] = json!(last);
                } else {
                    let (c, t) = last.split_once('/').unwrap_or((&last, ""));
                    p["cc"] = json!(c);
                    p["ct"] = json!(t);
                    if kind == "end" {
                        // the next page continues at the last item's end time
                        p["et"] = json!(st["auc"].get(&last).map_or(0, |a| n(a, "en").div_euclid(1000)));
                    }
                }
            }
            q["step"] = q["lim"].clone();
            q["lim"] = json!(-2);
            return json!(all);
        }
        self.one(q, st)
    }
}
