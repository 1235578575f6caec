//! The shared library under test, behind a small contract ("desk") that turns each operation into
//! one library call and executes the response it gets on the test chain.
use crate::chain::*;
use crate::mocks::*;
use crate::run::{Done, World};
use crate::util::*;
use cosmwasm_schema::cw_serde;
use cosmwasm_std::{Addr, Coin, DepsMut, Empty, Env, Event, MessageInfo, Response, StdError, StdResult, Uint128};
use cw_multi_test::{ContractWrapper, Executor};
use rand::seq::SliceRandom;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Map, Value};
use sg_marketplace_common as l;
use std::cell::RefCell;
use std::collections::BTreeSet;

pub const USERS: [&str; 4] = ["alice", "bobby", "carol", "david"];
pub const ACCTS: [&str; 5] = ["desk", "regis", "royal", "fundr", "findx"];
pub const COLLS: [&str; 2] = ["colla", "collb"];
pub const TOKENS: [(&str, &str); 4] = [("colla", "0"), ("colla", "1"), ("collb", "1"), ("collb", "7")];
pub const DENOMS: [&str; 3] = ["ustars", "uatom", "uosmo"];
const START_BAL: u128 = 100_000_000;

thread_local! {
    static OUT: RefCell<Value> = const { RefCell::new(Value::Null) };
}
#[cw_serde]
pub struct Msg {
    j: String,
}
fn note(v: Value) {
    OUT.with(|o| *o.borrow_mut() = v);
}
fn big(v: &Value) -> Uint128 {
    Uint128::from(v.as_str().and_then(|x| x.parse::<u128>().ok()).unwrap_or(0))
}
fn bail<T>(e: impl std::fmt::Display) -> StdResult<T> {
    Err(StdError::generic_err(e.to_string()))
}
/// the desk; amounts arrive as decimal strings
fn desk(deps: DepsMut, env: Env, info: MessageInfo, msg: Msg) -> StdResult<Response> {
    let op: Value = serde_json::from_str(&msg.j).unwrap();
    let co = Addr::unchecked(s(&op, "co"));
    let to = Addr::unchecked(s(&op, "to"));
    // what the response carried before the library call must survive it
    let res = Response::new().add_event(Event::new("keep").add_attribute("x", "y"));
    let coin = |v: &Value| Coin { denom: s(v, "d"), amount: big(&v["a"]) };
    let q = deps.querier;
    match s(&op, "k").as_str() {
        "Sell" => {
            let mut p = l::sale::NftSaleProcessor::new(coin(&op), to);
            for f in op["fees"].as_array().unwrap() {
                p.add_fee(s(f, "l"), share(n(f, "n")), Addr::unchecked(s(f, "to")));
            }
            if let Err(e) = p.build_payments() {
                note(json!({"lib": "err"}));
                return bail(e);
            }
            let pay = |p: &l::sale::Payment| json!({"l": p.label, "to": p.recipient, "d": p.funds.denom, "a": p.funds.amount});
            let find: Map<String, Value> = op["fees"]
                .as_array()
                .unwrap()
                .iter()
                .map(|f| s(f, "l"))
                .chain(["seller".to_string(), "nobody".to_string()])
                .map(|x| (x.clone(), p.find_payment(x).map_or(json!({"l": "", "to": "", "d": "", "a": "0"}), pay)))
                .collect();
            note(json!({"lib": "ok", "pays": p.payments.iter().map(pay).collect::<Vec<_>>(), "find": find}));
            Ok(p.payout(res))
        }
        "Send" => {
            let cs: Vec<Coin> = op["cs"].as_array().unwrap().iter().map(coin).collect();
            let one = cs.len() == 1 && b(&op, "one");
            let r = if b(&op, "chk") {
                if one { l::coin::checked_transfer_coin(cs[0].clone(), &to, res) } else { l::coin::checked_transfer_coins(cs, &to, res) }
            } else if one {
                Ok(l::coin::transfer_coin(cs[0].clone(), &to, res))
            } else {
                Ok(l::coin::transfer_coins(cs, &to, res))
            };
            note(json!({"lib": if r.is_ok() { "ok" } else { "err" }}));
            r.or_else(bail)
        }
        "Give" => {
            let tk = s(&op, "tk");
            let r = l::nft::only_owner(&q, &info, &co, &tk);
            note(json!({"lib": if r.is_ok() { "ok" } else { "err" }}));
            r.or_else(bail)?;
            Ok(l::nft::transfer_nft(&co, &tk, &to, res))
        }
        "Gate" => {
            let r = l::nft::only_tradable(&q, &env.block, &co);
            note(json!({"lib": if r.is_ok() { "ok" } else { "err" }}));
            r.or_else(bail)?;
            Ok(res)
        }
        "Roy" => {
            let p = Addr::unchecked(s(&op, "p"));
            let p = if s(&op, "p").is_empty() { None } else { Some(&p) };
            let rg = Addr::unchecked("regis");
            let e = l::royalties::fetch_royalty_entry(&q, &rg, &co, p)?;
            let show = |e: &Option<_>| {
                // RoyaltyEntry is a private type: read it through its JSON form
                let v = serde_json::to_value(e).unwrap();
                json!({"r": s(&v, "recipient"), "s": v.get("share").map_or(0, |x| pct(x.as_str().unwrap()))})
            };
            let first = show(&e);
            let (e, res) = l::royalties::fetch_or_set_royalties(deps.as_ref(), &rg, &co, p, res)?;
            note(json!({"lib": "ok", "found": first, "used": show(&e)}));
            Ok(res)
        }
        "Addrs" => {
            let v: Vec<String> = op["v"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            let a = if s(&op, "a").is_empty() { None } else { Some(Addr::unchecked(s(&op, "a"))) };
            let r = l::address::map_validate(deps.api, &v);
            note(json!({"lib": if r.is_ok() { "ok" } else { "err" }}));
            let r = r?;
            note(json!({"lib": "ok", "v": r, "or": l::address::address_or(a.as_ref(), &to)}));
            Ok(res)
        }
        x => bail(format!("unknown {}", x)),
    }
}
fn pct(v: &str) -> i64 {
    match v.parse::<cosmwasm_std::Decimal>() {
        Ok(d) => unscale(d.atomics().u128(), 10_000_000_000),
        Err(_) => -3,
    }
}
fn desk_init(_: DepsMut, _: Env, _: MessageInfo, _: Empty) -> StdResult<Response> {
    Ok(Response::new())
}
fn desk_query(_: cosmwasm_std::Deps, _: Env, _: Empty) -> StdResult<cosmwasm_std::Binary> {
    bail("no queries")
}

pub struct Co {
    pub c: Chain,
    pub scale: u128,
}
impl Co {
    fn amt(&self, a: i64) -> u128 {
        a.max(0) as u128 * self.scale
    }
    fn una(&self, a: u128) -> i64 {
        unscale(a, self.scale)
    }
    fn una_s(&self, v: &Value) -> i64 {
        v.as_str().and_then(|x| x.parse::<u128>().ok()).map_or(-3, |a| self.una(a))
    }
    fn coins(&self, f: &Value) -> Vec<Coin> {
        f.as_array().map_or(vec![], |v| v.iter().map(|x| Coin { denom: s(x, "d"), amount: self.amt(n(x, "a")).into() }).collect())
    }
}

impl World for Co {
    fn maps() -> Vec<&'static str> {
        vec!["bal", "own", "opr", "cinfo", "reg"]
    }
    fn new(root: &Value) -> Option<Co> {
        let scale: u128 = s(root, "scale").parse().unwrap_or(1);
        let bal = USERS
            .iter()
            .map(|u| (u.to_string(), DENOMS.iter().map(|d| Coin { denom: d.to_string(), amount: (START_BAL * scale).into() }).collect::<Vec<_>>()))
            .collect();
        let mut c = Chain::new(vec!["desk", "regis", "colla", "collb"], bal);
        let d = c.app.store_code(Box::new(ContractWrapper::new_with_empty(desk, desk_init, desk_query)));
        let reg = c.app.store_code(Box::new(Registry));
        let nft = c.app.store_code(Box::new(Nft));
        let a = Addr::unchecked("admin");
        c.app.instantiate_contract(d, a.clone(), &json!({}), &[], "d", None).unwrap();
        c.app.instantiate_contract(reg, a.clone(), &json!({}), &[], "r", None).unwrap();
        for co in COLLS {
            let rr = if co == "colla" { "royal" } else { "" };
            c.app.instantiate_contract(nft, a.clone(), &json!({"stt": -1, "rr": rr, "rs": 5_000_000, "ok": true, "ft": false}), &[], co, None).unwrap();
        }
        for (i, (co, t)) in TOKENS.iter().enumerate() {
            c.app.execute_contract(a.clone(), Addr::unchecked(*co), &json!({"mint": {"token_id": t, "owner": USERS[i % 2]}}), &[]).unwrap();
        }
        Some(Co { c, scale })
    }
    fn chain(&self) -> &Chain {
        &self.c
    }
    fn chain_mut(&mut self) -> &mut Chain {
        &mut self.c
    }
    fn project(&mut self) -> Value {
        let mut bal = Map::new();
        for a in ACCTS.iter().chain(USERS.iter()) {
            let m: Map<String, Value> = DENOMS.iter().map(|d| (d.to_string(), json!(self.una(self.c.bal(a, d))))).collect();
            bal.insert(a.to_string(), Value::Object(m));
        }
        let (mut own, mut opr, mut cinfo, mut reg) = (Map::new(), Map::new(), Map::new(), Map::new());
        let dump: Value = self.c.query("regis", &json!({"dump": {}})).unwrap();
        for co in COLLS {
            let st: Value = self.c.query(co, &json!({"state": {}})).unwrap();
            let toks: BTreeSet<String> = TOKENS.iter().filter(|x| x.0 == co).map(|x| x.1.to_string()).collect();
            for t in toks {
                own.insert(format!("{}/{}", co, t), st["own"].get(&t).cloned().unwrap_or(json!("")));
            }
            for u in USERS {
                opr.insert(format!("{}/{}", co, u), json!(st["opr"].get(format!("{}:desk", u)).is_some()));
            }
            cinfo.insert(co.into(), st["info"].clone());
            let e = |p: &str| dump.get(format!("{}|{}", co, p)).cloned().unwrap_or(json!({"r": "", "s": 0}));
            let (d, p, o) = (e(""), e("findx"), e("fundr"));
            reg.insert(co.into(), json!({"dr": d["r"], "ds": d["s"], "pr": p["r"], "ps": p["s"], "or": o["r"], "os": o["s"]}));
        }
        json!({"t": self.c.now_ms(), "bal": bal, "own": own, "opr": opr, "cinfo": cinfo, "reg": reg})
    }
    fn exec(&mut self, op: &Value, _pre: &Value) -> Done {
        note(json!({}));
        let (k, snd, co, tk) = (s(op, "k"), s(op, "s"), s(op, "co"), s(op, "tk"));
        let ok = Outcome { ok: true, err: String::new(), events: vec![] };
        let o = match k.as_str() {
            "Tick" => {
                let t = self.c.now_ms() + n(op, "dt");
                self.c.set_time(t);
                ok
            }
            "ApprAll" => self.c.exec(&snd, &co, &json!({"approve_all": {"operator": "desk", "expires": {"never": {}}}}), &[]),
            "UnapAll" => self.c.exec(&snd, &co, &json!({"revoke_all": {"operator": "desk"}}), &[]),
            "Burn" => self.c.exec(&snd, &co, &json!({"burn": {"token_id": tk}}), &[]),
            "Mint" => self.c.exec("admin", &co, &json!({"mint": {"token_id": tk, "owner": s(op, "to")}}), &[]),
            "SetInfo" => self.c.exec("admin", &co, &json!({"set_info": {"info": op["info"]}}), &[]),
            "SetReg" => self.c.exec("admin", "regis", &json!({"set": {"co": co, "p": s(op, "p"), "r": s(op, "r"), "s": n(op, "n")}}), &[]),
            _ => {
                // amounts in real units for the desk
                let mut m = op.clone();
                if op.get("a").map_or(false, |a| a.is_i64()) {
                    m["a"] = json!(self.amt(n(op, "a")).to_string());
                }
                if let Some(v) = m.get_mut("cs").and_then(|v| v.as_array_mut()) {
                    for x in v.iter_mut() {
                        x["a"] = json!(self.amt(n(x, "a")).to_string());
                    }
                }
                let f = self.coins(&op["f"]);
                self.c.exec(&snd, "desk", &json!({"j": m.to_string()}), &f)
            }
        };
        let mut out = OUT.with(|x| x.borrow().clone());
        for p in out.get_mut("pays").and_then(|v| v.as_array_mut()).into_iter().flatten() {
            p["a"] = json!(self.una_s(&p["a"]));
        }
        for (_, p) in out.get_mut("find").and_then(|v| v.as_object_mut()).into_iter().flatten() {
            p["a"] = json!(self.una_s(&p["a"]));
        }
        // the coins the desk sent, in order
        let at = |e: &Event, k: &str| e.attributes.iter().find(|a| a.key == k).map_or(String::new(), |a| a.value.clone());
        let sent: Vec<Value> = o
            .events
            .iter()
            .filter(|e| e.ty == "transfer" && at(e, "sender") == "desk")
            .map(|e| {
                let f: Vec<Value> = at(e, "amount")
                    .split(',')
                    .map(|x| {
                        let i = x.find(|c: char| !c.is_ascii_digit()).unwrap_or(x.len());
                        json!({"d": &x[i..], "a": self.una(x[..i].parse::<u128>().unwrap_or(0))})
                    })
                    .collect();
                json!({"to": at(e, "recipient"), "f": f})
            })
            .collect();
        let keep = o.events.iter().any(|e| e.ty == "wasm-keep");
        if out.get("lib").is_some() {
            out["sent"] = json!(sent);
            out["keep"] = json!(keep);
        }
        Done { op: op.clone(), ok: o.ok, err: o.err.clone(), ev: json!([]), out }
    }
    fn gen_root(r: &mut ChaCha8Rng, _prop: &str, scaled: bool) -> Value {
        json!({"cfg": {}, "unit": if scaled { 10_000 } else { 1 },
            "scale": if !scaled { "1" } else if r.gen_bool(0.5) { "1000000000000000" } else { "100000" }})
    }
    fn prologue(r: &mut ChaCha8Rng, _root: &Value, _prop: &str) -> Vec<Value> {
        let mut v = vec![];
        for u in USERS {
            for co in COLLS {
                if r.gen_bool(0.8) {
                    v.push(json!({"k": "ApprAll", "s": u, "co": co}));
                }
            }
        }
        v
    }
    fn gen_op(r: &mut ChaCha8Rng, st: &Value, root: &Value, prop: &str) -> Value {
        gen(r, st, root, prop)
    }
    fn probes(r: &mut ChaCha8Rng, st: &Value, root: &Value, prop: &str) -> Vec<Value> {
        (0..2).map(|_| gen(r, st, root, prop)).collect()
    }
    fn gen_queries(&self, _: &mut ChaCha8Rng, _: &Value, _: &str) -> Vec<Value> {
        vec![]
    }
    fn query(&self, _: &mut Value, _: &Value) -> Value {
        json!([])
    }
    fn ranks(&self) -> Value {
        json!({})
    }
}

fn gen(r: &mut ChaCha8Rng, st: &Value, root: &Value, prop: &str) -> Value {
    let u = n(root, "unit").max(1);
    let w: &[(&str, u32)] = if prop == "D01" {
        &[("Sell", 50), ("Send", 30), ("Give", 4), ("Gate", 2), ("Roy", 2), ("Addrs", 2), ("Tick", 3), ("SetInfo", 2), ("SetReg", 2)]
    } else {
        &[("Sell", 4), ("Send", 4), ("Give", 20), ("Gate", 16), ("Roy", 22), ("Addrs", 14), ("Tick", 12), ("SetInfo", 14), ("SetReg", 10), ("ApprAll", 3), ("UnapAll", 1), ("Burn", 1), ("Mint", 3)]
    };
    let k = w.choose_weighted(r, |x| x.1).unwrap().0;
    let who = USERS.choose(r).unwrap().to_string();
    let (co, tk) = *TOKENS.choose(r).unwrap();
    let own = s(&st["own"], &format!("{}/{}", co, tk));
    let holder = if own.is_empty() || r.gen_bool(0.3) { who.clone() } else { own };
    let all = ["alice", "bobby", "carol", "david", "royal", "fundr", "findx", "desk"];
    let rc = all.choose(r).unwrap().to_string();
    let amount = |r: &mut ChaCha8Rng| u * match r.gen_range(0..6) { 0 => 1, 1 => 2, 2 => r.gen_range(1..12), 3 => 100, 4 => r.gen_range(1..1500), _ => if u == 1 { r.gen_range(1..1_000_000) } else { r.gen_range(1..90) } };
    let q = |x: i64| if u > 1 { (x + 19_999) / 20_000 * 20_000 } else { x };
    match k {
        "Sell" => {
            let a = amount(r);
            let d = DENOMS.choose(r).unwrap();
            let nf = r.gen_range(0..5);
            let fees: Vec<Value> = (0..nf)
                .map(|_| {
                    let sh = q(pkr(r, &[0, 1, 2_000_000, 5_000_000, 33_333_333, 50_000_000, 99_999_999, 100_000_000, 100_000_001, 12_345_678, 10_000_000, 10_000_000], 60_000_000));
                    let sh = if r.gen_bool(0.5) { sh.min(q(10_000_000)) } else { sh };
                    json!({"l": (["maker", "taker", "royalty", "protocol", "seller", "x"].choose(r).unwrap()), "to": all.choose(r).unwrap(), "n": sh})
                })
                .collect();
            json!({"k": k, "s": who, "f": [{"d": d, "a": a}], "d": d, "a": a, "to": rc, "fees": fees})
        }
        "Send" => {
            let nd = r.gen_range(1..4);
            let mut ds = DENOMS.to_vec();
            ds.shuffle(r);
            ds.truncate(nd);
            ds.sort();
            let f: Vec<Value> = ds.iter().map(|d| json!({"d": d, "a": amount(r)})).collect();
            let mut cs = f.clone();
            if r.gen_bool(0.3) {
                let i = r.gen_range(0..cs.len());
                cs[i]["a"] = json!(0);
            }
            if r.gen_bool(0.1) {
                cs.truncate(1);
            }
            if r.gen_bool(0.05) {
                cs.clear();
            }
            json!({"k": k, "s": who, "f": f, "cs": cs, "to": rc, "chk": r.gen_bool(0.7), "one": r.gen_bool(0.7)})
        }
        "Give" => json!({"k": k, "s": if r.gen_bool(0.05) { "desk".into() } else { holder }, "f": [], "co": co, "tk": tk, "to": if r.gen_bool(0.7) { who } else { rc }}),
        "Gate" => json!({"k": k, "s": who, "f": [], "co": co}),
        "Roy" => json!({"k": k, "s": who, "f": [], "co": co, "p": (["", "findx", "fundr", "carol"].choose(r).unwrap())}),
        "Addrs" => {
            let nv = r.gen_range(0..6);
            let v: Vec<&str> = (0..nv).map(|_| if r.gen_bool(0.06) { "XX" } else { *all.choose(r).unwrap() }).collect();
            json!({"k": k, "s": who, "f": [], "v": v, "a": if r.gen_bool(0.5) { "" } else { *all.choose(r).unwrap() }, "to": rc})
        }
        "Tick" => json!({"k": k, "s": "", "dt": ([1, 1, 500, 1000, 60_000].choose(r).unwrap())}),
        "SetInfo" => {
            let t = n(st, "t");
            let stt = *[-1, t, t + 1, t - 1, t + 1000, 0, t + 500].choose(r).unwrap();
            json!({"k": k, "s": "admin", "co": co, "info": {"ok": r.gen_bool(0.85), "stt": stt, "rr": (["", "royal", "fundr", "alice", "XX"].choose(r).unwrap()),
                "rs": pkr(r, &[0, 5_000_000, 1, 100_000_000, 10_000_000], 100_000_000), "ft": r.gen_bool(0.1)}})
        }
        "SetReg" => json!({"k": k, "s": "admin", "co": co, "p": (["", "", "findx", "fundr"].choose(r).unwrap()), "r": (["", "", "royal", "david"].choose(r).unwrap()),
            "n": pkr(r, &[0, 5_000_000, 7_777_777, 100_000_000], 100_000_000)}),
        "ApprAll" | "UnapAll" => json!({"k": k, "s": who, "co": co}),
        "Burn" => json!({"k": k, "s": holder, "co": co, "tk": tk}),
        _ => json!({"k": "Mint", "s": "admin", "co": co, "tk": tk, "to": who}),
    }
}
