//! Contracts of the environment: NFT collections, the royalty registry, and hook receivers.
use crate::chain::{rel, ts};
use anyhow::{anyhow, bail, Result as AnyResult};
use cosmwasm_std::{
    to_json_binary, Addr, Binary, Decimal, Deps, DepsMut, Empty, Env, MessageInfo, Order, Reply,
    Response, Storage, Uint128,
};
use cw_multi_test::Contract;
use serde_json::{json, Value};
use sg_std::StargazeMsgWrapper;
use stargaze_royalty_registry::{
    msg::{ExecuteMsg as RegExecute, QueryMsg as RegQuery, RoyaltyPaymentResponse},
    state::{RoyaltyDefault, RoyaltyEntry, RoyaltyProtocol},
};

type R = AnyResult<Response<StargazeMsgWrapper>>;
fn bin(v: &Value) -> AnyResult<Binary> {
    Ok(Binary(serde_json::to_vec(v)?))
}
fn get(s: &dyn Storage, k: &str) -> Option<Value> {
    s.get(k.as_bytes()).map(|b| serde_json::from_slice(&b).unwrap())
}
fn put(s: &mut dyn Storage, k: &str, v: &Value) {
    s.set(k.as_bytes(), &serde_json::to_vec(v).unwrap())
}
fn str_of<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}

/// share in units of 1e-8 -> Decimal
pub fn share(n: i64) -> Decimal {
    Decimal::from_atomics(Uint128::from(n as u128), 8).unwrap()
}

/// A cw721 collection with sg721's CollectionInfo. `info`: {stt: ms or -1, rr: recipient or "",
/// rs: share 1e-8, ok: bool (CollectionInfo supported), ft: bool (transfers fail)}.
pub struct Nft;
impl Nft {
    fn info(s: &dyn Storage) -> Value {
        get(s, "info").unwrap()
    }
    fn owner(s: &dyn Storage, id: &str) -> Option<String> {
        get(s, &format!("own:{}", id)).map(|v| v.as_str().unwrap().to_string())
    }
    fn aprs(s: &dyn Storage, id: &str) -> Vec<(String, i64)> {
        match get(s, &format!("apr:{}", id)) {
            Some(v) => serde_json::from_value(v).unwrap(),
            None => vec![],
        }
    }
    fn live(e: i64, env: &Env) -> bool {
        e < 0 || ts(e) > env.block.time
    }
    fn opr(s: &dyn Storage, owner: &str, op: &str, env: &Env) -> bool {
        match get(s, &format!("opr:{}:{}", owner, op)) {
            Some(v) => Nft::live(v.as_i64().unwrap(), env),
            None => false,
        }
    }
    fn can_send(s: &dyn Storage, id: &str, who: &str, env: &Env) -> bool {
        match Nft::owner(s, id) {
            None => false,
            Some(o) => {
                o == who
                    || Nft::aprs(s, id).iter().any(|(sp, e)| sp == who && Nft::live(*e, env))
                    || Nft::opr(s, &o, who, env)
            }
        }
    }
}
fn exp_ms(v: &Value) -> i64 {
    // cw721 Expiration json -> ms (or -1 for never); only at_time is used
    match v.get("at_time") {
        Some(t) => rel(cosmwasm_std::Timestamp::from_nanos(t.as_str().unwrap().parse().unwrap())),
        None => -1,
    }
}
fn exp_json(e: i64) -> Value {
    if e < 0 {
        json!({"never": {}})
    } else {
        json!({"at_time": ts(e).nanos().to_string()})
    }
}
impl Contract<StargazeMsgWrapper, Empty> for Nft {
    fn instantiate(&self, deps: DepsMut<Empty>, _: Env, _: MessageInfo, msg: Vec<u8>) -> R {
        put(deps.storage, "info", &serde_json::from_slice(&msg)?);
        Ok(Response::new())
    }
    fn execute(&self, deps: DepsMut<Empty>, env: Env, info: MessageInfo, msg: Vec<u8>) -> R {
        let m: Value = serde_json::from_slice(&msg)?;
        let (k, a) = m.as_object().and_then(|o| o.iter().next()).ok_or_else(|| anyhow!("bad msg"))?;
        let me = info.sender.as_str();
        let id = str_of(a, "token_id");
        let s = deps.storage;
        match k.as_str() {
            "transfer_nft" => {
                if Nft::info(s)["ft"] == json!(true) {
                    bail!("transfers disabled");
                }
                if !Nft::can_send(s, id, me, &env) {
                    bail!("nft: unauthorized transfer of {} by {}", id, me);
                }
                let to = deps.api.addr_validate(str_of(a, "recipient"))?;
                put(s, &format!("own:{}", id), &json!(to));
                s.remove(format!("apr:{}", id).as_bytes());
            }
            "approve" | "revoke" => {
                let o = Nft::owner(s, id).ok_or_else(|| anyhow!("no token"))?;
                if o != me && !Nft::opr(s, &o, me, &env) {
                    bail!("nft: unauthorized");
                }
                let sp = str_of(a, "spender");
                let mut v = Nft::aprs(s, id);
                v.retain(|(x, _)| x != sp);
                if k == "approve" {
                    v.push((sp.to_string(), exp_ms(&a["expires"])));
                }
                put(s, &format!("apr:{}", id), &json!(v));
            }
            "approve_all" => put(s, &format!("opr:{}:{}", me, str_of(a, "operator")), &json!(exp_ms(&a["expires"]))),
            "revoke_all" => s.remove(format!("opr:{}:{}", me, str_of(a, "operator")).as_bytes()),
            "mint" => {
                if Nft::owner(s, id).is_some() {
                    bail!("exists");
                }
                put(s, &format!("own:{}", id), &json!(str_of(a, "owner")));
            }
            "burn" => {
                if !Nft::can_send(s, id, me, &env) {
                    bail!("nft: unauthorized burn");
                }
                s.remove(format!("own:{}", id).as_bytes());
                s.remove(format!("apr:{}", id).as_bytes());
            }
            "set_info" => put(s, "info", &a["info"]),
            _ => bail!("nft: unknown message {}", k),
        }
        Ok(Response::new())
    }
    fn query(&self, deps: Deps<Empty>, env: Env, msg: Vec<u8>) -> AnyResult<Binary> {
        let m: Value = serde_json::from_slice(&msg)?;
        let (k, a) = m.as_object().and_then(|o| o.iter().next()).ok_or_else(|| anyhow!("bad query"))?;
        let id = str_of(a, "token_id");
        let s = deps.storage;
        let inc = a["include_expired"] == json!(true);
        match k.as_str() {
            "owner_of" => {
                let o = Nft::owner(s, id).ok_or_else(|| anyhow!("token not found"))?;
                let ap: Vec<Value> = Nft::aprs(s, id)
                    .iter()
                    .filter(|(_, e)| inc || Nft::live(*e, &env))
                    .map(|(sp, e)| json!({"spender": sp, "expires": exp_json(*e)}))
                    .collect();
                bin(&json!({"owner": o, "approvals": ap}))
            }
            "approval" => {
                let o = Nft::owner(s, id).ok_or_else(|| anyhow!("token not found"))?;
                let sp = str_of(a, "spender");
                if o == sp {
                    return bin(&json!({"approval": {"spender": sp, "expires": {"never": {}}}}));
                }
                for (x, e) in Nft::aprs(s, id) {
                    if x == sp && (inc || Nft::live(e, &env)) {
                        return bin(&json!({"approval": {"spender": sp, "expires": exp_json(e)}}));
                    }
                }
                bail!("Approval not found for: {}", sp)
            }
            "all_operators" | "approvals" => bail!("unsupported"),
            "operator" => {
                let (o, p) = (str_of(a, "owner"), str_of(a, "operator"));
                if Nft::opr(s, o, p, &env) {
                    return bin(&json!({"approval": {"spender": p, "expires": {"never": {}}}}));
                }
                bail!("no operator")
            }
            "collection_info" => {
                let i = Nft::info(s);
                if i["ok"] != json!(true) {
                    bail!("collection info not supported");
                }
                let stt = i["stt"].as_i64().unwrap();
                let rr = str_of(&i, "rr");
                let roy = if rr.is_empty() {
                    Value::Null
                } else {
                    json!({"payment_address": rr, "share": share(i["rs"].as_i64().unwrap()).to_string()})
                };
                bin(&json!({
                    "creator": "royal", "description": "d", "image": "ipfs://i",
                    "external_link": null, "explicit_content": null,
                    "start_trading_time": if stt < 0 { Value::Null } else { json!(ts(stt).nanos().to_string()) },
                    "royalty_info": roy,
                }))
            }
            "state" => {
                let mut own = serde_json::Map::new();
                let mut apr = serde_json::Map::new();
                let mut opr = serde_json::Map::new();
                for (kk, v) in s.range(None, None, Order::Ascending) {
                    let kk = String::from_utf8(kk).unwrap();
                    let v: Value = serde_json::from_slice(&v).unwrap();
                    if let Some(x) = kk.strip_prefix("own:") {
                        own.insert(x.into(), v);
                    } else if let Some(x) = kk.strip_prefix("apr:") {
                        apr.insert(x.into(), v);
                    } else if let Some(x) = kk.strip_prefix("opr:") {
                        opr.insert(x.into(), v);
                    }
                }
                bin(&json!({"own": own, "apr": apr, "opr": opr, "info": Nft::info(s)}))
            }
            _ => bail!("nft: unknown query {}", k),
        }
    }
    fn sudo(&self, _: DepsMut<Empty>, _: Env, _: Vec<u8>) -> R {
        bail!("no sudo")
    }
    fn reply(&self, _: DepsMut<Empty>, _: Env, _: Reply) -> R {
        bail!("no reply")
    }
    fn migrate(&self, _: DepsMut<Empty>, _: Env, _: Vec<u8>) -> R {
        bail!("no migrate")
    }
}

/// The royalty registry's query interface and InitializeCollectionRoyalty (which, as the real
/// one, copies the collection's royalty info into the default entry and refuses when an entry
/// exists or the collection has none), plus a harness-only `set`.
pub struct Registry;
fn entry(v: &Value) -> RoyaltyEntry {
    RoyaltyEntry { recipient: Addr::unchecked(str_of(v, "r")), share: share(v["s"].as_i64().unwrap()), updated: None }
}
impl Contract<StargazeMsgWrapper, Empty> for Registry {
    fn instantiate(&self, _: DepsMut<Empty>, _: Env, _: MessageInfo, _: Vec<u8>) -> R {
        Ok(Response::new())
    }
    fn execute(&self, deps: DepsMut<Empty>, _env: Env, _info: MessageInfo, msg: Vec<u8>) -> R {
        let v: Value = serde_json::from_slice(&msg)?;
        if let Some(a) = v.get("set") {
            // {co, p: protocol or "", r, s}
            let k = format!("{}|{}", str_of(a, "co"), str_of(a, "p"));
            if str_of(a, "r").is_empty() {
                deps.storage.remove(k.as_bytes());
            } else {
                put(deps.storage, &k, &json!({"r": a["r"], "s": a["s"]}));
            }
            return Ok(Response::new());
        }
        match serde_json::from_value::<RegExecute>(v)? {
            RegExecute::InitializeCollectionRoyalty { collection } => {
                let k = format!("{}|", collection);
                if get(deps.storage, &k).is_some() {
                    bail!("registry: entry already exists");
                }
                let ci: Value = deps.querier.query_wasm_smart(&collection, &json!({"collection_info": {}}))?;
                if ci["royalty_info"].is_null() {
                    bail!("registry: no royalty info");
                }
                let sh: Decimal = str_of(&ci["royalty_info"], "share").parse()?;
                if sh > Decimal::one() {
                    bail!("registry: share must be at most 1");
                }
                let n = (sh.atomics() / Uint128::from(10_000_000_000u128)).u128() as i64;
                put(deps.storage, &k, &json!({"r": ci["royalty_info"]["payment_address"], "s": n}));
                Ok(Response::new())
            }
            _ => bail!("registry: unsupported"),
        }
    }
    fn query(&self, deps: Deps<Empty>, _env: Env, msg: Vec<u8>) -> AnyResult<Binary> {
        let v: Value = serde_json::from_slice(&msg)?;
        if v.get("dump").is_some() {
            let mut m = serde_json::Map::new();
            for (k, v) in deps.storage.range(None, None, Order::Ascending) {
                m.insert(String::from_utf8(k).unwrap(), serde_json::from_slice(&v).unwrap());
            }
            return bin(&Value::Object(m));
        }
        match serde_json::from_value::<RegQuery>(v)? {
            RegQuery::RoyaltyPayment { collection, protocol } => {
                let d = get(deps.storage, &format!("{}|", collection));
                let p = protocol.as_ref().and_then(|p| get(deps.storage, &format!("{}|{}", collection, p)));
                Ok(to_json_binary(&RoyaltyPaymentResponse {
                    royalty_default: d.map(|e| RoyaltyDefault {
                        collection: Addr::unchecked(&collection),
                        royalty_entry: entry(&e),
                    }),
                    royalty_protocol: p.map(|e| RoyaltyProtocol {
                        collection: Addr::unchecked(&collection),
                        protocol: Addr::unchecked(protocol.unwrap()),
                        royalty_entry: entry(&e),
                    }),
                })?)
            }
            _ => bail!("registry: unsupported query"),
        }
    }
    fn sudo(&self, _: DepsMut<Empty>, _: Env, _: Vec<u8>) -> R {
        bail!("no sudo")
    }
    fn reply(&self, _: DepsMut<Empty>, _: Env, _: Reply) -> R {
        bail!("no reply")
    }
    fn migrate(&self, _: DepsMut<Empty>, _: Env, _: Vec<u8>) -> R {
        bail!("no migrate")
    }
}

thread_local! {
    /// every call a hook received, also the failing ones
    pub static CALLS: std::cell::RefCell<Vec<Value>> = const { std::cell::RefCell::new(vec![]) };
}
pub fn take_calls() -> Vec<Value> {
    CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}

/// A hook receiver: remembers every message it gets; fails while `bad` is set.
pub struct Hook;
impl Contract<StargazeMsgWrapper, Empty> for Hook {
    fn instantiate(&self, deps: DepsMut<Empty>, _: Env, _: MessageInfo, _: Vec<u8>) -> R {
        put(deps.storage, "bad", &json!(false));
        Ok(Response::new())
    }
    fn execute(&self, deps: DepsMut<Empty>, env: Env, info: MessageInfo, msg: Vec<u8>) -> R {
        let v: Value = serde_json::from_slice(&msg)?;
        if let Some(b) = v.get("set_bad") {
            put(deps.storage, "bad", b);
            return Ok(Response::new());
        }
        CALLS.with(|c| c.borrow_mut().push(json!({"h": env.contract.address, "from": info.sender, "msg": v})));
        if get(deps.storage, "bad") == Some(json!(true)) {
            bail!("hook fails");
        }
        // a write of its own, rolled back only if the whole transaction is
        let n = get(deps.storage, "n").and_then(|x| x.as_i64()).unwrap_or(0);
        put(deps.storage, "n", &json!(n + 1));
        Ok(Response::new())
    }
    fn query(&self, deps: Deps<Empty>, _env: Env, _msg: Vec<u8>) -> AnyResult<Binary> {
        bin(&json!({"bad": get(deps.storage, "bad").unwrap(), "n": get(deps.storage, "n").unwrap_or(json!(0))}))
    }
    fn sudo(&self, _: DepsMut<Empty>, _: Env, _: Vec<u8>) -> R {
        bail!("no sudo")
    }
    fn reply(&self, _: DepsMut<Empty>, _: Env, _: Reply) -> R {
        bail!("no reply")
    }
    fn migrate(&self, _: DepsMut<Empty>, _: Env, _: Vec<u8>) -> R {
        bail!("no migrate")
    }
}
