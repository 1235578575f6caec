//! Operation generators for the V2 marketplace: state-aware random.
use crate::util::*;
use crate::v2::*;
use rand::seq::SliceRandom;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Value};

pub struct Prof {
    pub w: Vec<(&'static str, u32)>,
    /// probability of a deliberately wrong sender / price / payment
    pub wrong: f64,
    pub odd: bool,
    /// prices are multiples of this (scaled runs need exact shares)
    pub unit: i64,
}

pub fn profile(p: &str) -> Prof {
    let mut w: Vec<(&'static str, u32)> = vec![
        ("SetAsk", 14), ("SellNft", 4), ("UpdAsk", 6), ("RemAsk", 3), ("AccAsk", 5),
        ("SetBid", 12), ("BuyNft", 4), ("UpdBid", 6), ("RemBid", 3), ("AccBid", 5),
        ("SetCBid", 10), ("BuyColl", 4), ("UpdCBid", 6), ("RemCBid", 3), ("AccCBid", 5),
        ("UpdConfig", 2), ("UpdDenom", 1), ("SetFee", 1), ("RemFee", 1),
        ("Xfer", 2), ("Appr", 2), ("Unap", 1), ("ApprAll", 2), ("UnapAll", 1), ("Burn", 0),
        ("SetInfo", 2), ("RegSet", 2), ("Tick", 2), ("Inst", 1), ("Migrate", 1), ("SetAdmin", 0),
    ];
    let mut wrong = 0.06;
    let mut up = |ks: &[&str], f: u32| for x in w.iter_mut() { if ks.contains(&x.0) { x.1 = x.1 * f + 1 } };
    match p {
        "A01" => up(&["UpdBid", "UpdCBid", "RemBid", "RemCBid", "AccAsk"], 2),
        "A02" => up(&["RemAsk", "Xfer", "Burn", "AccAsk", "AccBid", "AccCBid"], 2),
        "A03" => { up(&["UpdConfig", "RegSet", "SetInfo", "AccAsk", "AccBid", "AccCBid"], 3); wrong = 0.03 }
        "A04" => { up(&["UpdAsk", "UpdBid", "UpdCBid"], 2); wrong = 0.02 }
        "A05" => { up(&["SellNft", "BuyNft", "BuyColl", "AccAsk", "AccBid", "AccCBid"], 3); wrong = 0.12 }
        "A06" => { up(&["UpdConfig", "UpdDenom", "SetFee", "RemFee", "SetAdmin", "Xfer"], 3); wrong = 0.3 }
        "A07" => { up(&["UpdDenom", "SetFee", "RemFee", "SetInfo", "Tick", "UpdConfig"], 3); wrong = 0.2 }
        "A08" => { up(&["UpdConfig", "UpdDenom", "SetFee", "RemFee", "Inst", "Migrate", "SetAdmin"], 6); wrong = 0.15 }
        "A09" => { up(&["SetBid", "SetCBid", "SetAsk"], 2); wrong = 0.02 }
        "A10" => up(&["UpdBid", "UpdCBid", "RemAsk", "RemBid", "RemCBid", "UpdDenom", "UpdConfig"], 3),
        "A11" => { up(&["UpdAsk", "UpdBid", "UpdCBid"], 2); wrong = 0.02 }
        _ => {}
    }
    Prof { w, wrong, odd: true, unit: 1 }
}

pub fn gen_cfg(r: &mut ChaCha8Rng, unit: i64, bad: bool) -> Value {
    let hundred = unit > 1;
    let q = |x: i64| if hundred { x / 100 * 100 } else { x };
    let mut pf = q(pkr(r, &[0, 1, 100, 200, 250, 333, 1000, 2500], 2500));
    let mr = q(pkr(r, &[0, 100, 500, 500, 1000, 2000, 10000], 10000));
    let mut mk = q(pkr(r, &[0, 1, 500, 1000, 4000, 3333], 9000));
    let mut tk = q(pkr(r, &[0, 1, 500, 1000, 2500, 6665], 9000));
    if !bad && mk + tk >= 10000 { mk = 4000; tk = 1000; }
    // the parties may coincide
    let mut fm = if r.gen_bool(0.7) { "feemgr" } else { *["alice", "bobby", "carol", "findx", "royal"].choose(r).unwrap() }.to_string();
    let mut rr = match r.gen_range(0..100) { 0..=79 => "regis", 80..=97 => "regib", _ => "carol" };
    if bad {
        match r.gen_range(0..11) {
            10 => rr = "XX",
            0 => pf = 10000,
            7 => { mk = BIG; tk = 1 }
            8 => { mk = 1; tk = BIG }
            1 => pf = 10001,
            2 => pf = if hundred { 9900 } else { 9999 },
            3 => { mk = 5000; tk = 5000 }
            4 => { mk = 5000; tk = if hundred { 4900 } else { 4999 } }
            5 => { mk = 10000; tk = 0 }
            6 => { mk = 0; tk = 12345 }
            _ => fm = "XX".into(),
        }
    }
    json!({"fm": fm, "rr": rr, "pf": pf, "mr": mr, "mk": mk, "tk": tk,
        "dd": if r.gen_bool(0.85) { "ustars" } else { "uatom" }})
}

pub struct G<'a> {
    pub st: &'a Value,
    pub fees: &'a Value,
    pub p: &'a Prof,
}

impl<'a> G<'a> {
    fn denom(&self, co: &str) -> String {
        let d = s(&self.st["cden"], co);
        if d.is_empty() { s(&self.st["cfg"], "dd") } else { d }
    }
    fn keys(&self, c: &str) -> Vec<String> {
        self.st[c].as_object().unwrap().keys().cloned().collect()
    }
    fn price(&self, r: &mut ChaCha8Rng, co: &str, tk: &str) -> i64 {
        let u = self.p.unit;
        let mut near = vec![];
        for c in ["asks", "bids", "cbids"] {
            for (_, o) in self.st[c].as_object().unwrap() {
                if s(o, "co") == co && (tk.is_empty() || c == "cbids" || s(o, "tk") == tk) {
                    near.push(n(o, "a"));
                }
            }
        }
        if !near.is_empty() && r.gen_bool(0.55) {
            let x = *near.choose(r).unwrap();
            return (x + u * r.gen_range(-1..2)).max(if self.p.unit > 1 { u } else { 0 });
        }
        if u > 1 {
            return u * r.gen_range(1..60);
        }
        match r.gen_range(0..10) {
            0 => r.gen_range(1..4),
            1..=3 => *[7, 10, 99, 100, 101, 150].choose(r).unwrap(),
            4..=6 => r.gen_range(90..110),
            7 => r.gen_range(1..2000),
            8 => *[10_000, 123_457, 999_999, 1_000_000].choose(r).unwrap(),
            _ => r.gen_range(100..100_000),
        }
    }
    fn who(&self, r: &mut ChaCha8Rng) -> String {
        USERS.choose(r).unwrap().to_string()
    }
    /// someone who is not entitled: often a party to the order
    fn other(&self, r: &mut ChaCha8Rng, o: &Value) -> String {
        let mut c: Vec<String> = ["cr", "rc", "fi", "rc"].iter().map(|k| s(o, k)).collect();
        c.push(s(&self.st["own"], &format!("{}/{}", s(o, "co"), s(o, "tk"))));
        if let Some(a) = self.st["asks"].get(format!("{}/{}", s(o, "co"), s(o, "tk"))) {
            c.extend(["cr", "rc", "rc", "fi"].iter().map(|k| s(a, k)));
        }
        c.extend(USERS.iter().map(|x| x.to_string()));
        c.extend(["admin".into(), "feemgr".into(), s(self.st, "adm")]);
        c.retain(|x| !x.is_empty() && x != "mkt" && x != "XX");
        c.choose(r).unwrap().clone()
    }
    fn admin(&self, r: &mut ChaCha8Rng) -> String {
        let a = s(self.st, "adm");
        if a.is_empty() || r.gen_bool(self.p.wrong) { ["admin", "admin", "feemgr", "regis", "carol", "alice", "bobby"].choose(r).unwrap().to_string() } else { a }
    }
    fn rcfi(&self, r: &mut ChaCha8Rng) -> (String, String) {
        let mut pick = |p: f64| -> String {
            if r.gen_bool(p) {
                if r.gen_bool(0.03) { return "XX".into(); }
                ["findx", "findy", "findx", "findy", "alice", "bobby", "carol", "royax"].choose(r).unwrap().to_string()
            } else {
                String::new()
            }
        };
        (pick(0.2), pick(0.45))
    }
    fn funds(&self, r: &mut ChaCha8Rng, d: &str, a: i64) -> Value {
        let u = self.p.unit;
        let coin = |d: &str, a: i64| json!({"d": d, "a": a});
        let other = if d == "ustars" { "uatom" } else { "ustars" };
        let exact = |a: i64| if a > 0 { json!([coin(d, a)]) } else { json!([]) };
        if !r.gen_bool((self.p.wrong * 2.0 + 0.12).min(0.5)) {
            return exact(a);
        }
        match r.gen_range(0..7) {
            0 => exact(a + u),
            1 => exact(a - u),
            2 => exact(a + u * 77),
            3 => if a > 0 { json!([coin(d, a), coin(other, 5 * u)]) } else { json!([coin(other, 5 * u)]) },
            4 => json!([]),
            5 => json!([coin(other, a.max(1))]),
            _ => json!([coin(other, 3 * u), coin(d, (a + u).max(1))]),
        }
    }
    pub fn op(&self, r: &mut ChaCha8Rng) -> Value {
        let tot: u32 = self.p.w.iter().map(|x| x.1).sum();
        for _ in 0..50 {
            let mut x = r.gen_range(0..tot);
            let mut k = "";
            for (kk, w) in &self.p.w {
                if x < *w { k = kk; break; }
                x -= w;
            }
            if let Some(mut o) = self.make(r, k) {
                extreme(r, &mut o);
                return o;
            }
        }
        json!({"k": "Tick", "dt": 5000})
    }
    fn make(&self, r: &mut ChaCha8Rng, k: &str) -> Option<Value> {
        let st = self.st;
        let wrong = |r: &mut ChaCha8Rng| r.gen_bool(self.p.wrong);
        let (mut co, mut tk) = { let (c, t) = TOKENS.choose(r).unwrap(); (c.to_string(), t.to_string()) };
        let (rc, fi) = self.rcfi(r);
        let key = |co: &str, tk: &str| format!("{}/{}", co, tk);
        let fixd = |r: &mut ChaCha8Rng, d: String| if wrong(r) { ["ustars", "uatom", "ujunk"].choose(r).unwrap().to_string() } else { d };
        Some(match k {
            "SetAsk" | "SellNft" => {
                let owner = s(&st["own"], &key(&co, &tk));
                if owner.is_empty() && !r.gen_bool(0.05) { return None; }
                if owner == "mkt" && !r.gen_bool(0.08) { return None; }
                let snd = if wrong(r) || owner == "mkt" || owner.is_empty() { self.who(r) } else { owner };
                if !USERS.contains(&snd.as_str()) { return None; }
                let d = fixd(r, self.denom(&co));
                let a = self.price(r, &co, &tk);
                let fd = if r.gen_bool(0.8) { "ustars" } else { "uatom" };
                let fee = self.fees.get(fd).and_then(|x| x.as_i64());
                let f = match fee { Some(a) => self.funds(r, fd, a), None => if r.gen_bool(0.3) { json!([{"d": fd, "a": self.p.unit}]) } else { return None } };
                json!({"k": k, "s": snd, "f": f, "co": co, "tk": tk, "d": d, "a": a, "rc": rc, "fi": fi})
            }
            "UpdAsk" | "RemAsk" | "AccAsk" => {
                let ks = self.keys("asks");
                let id = if r.gen_bool(0.03) { "none".to_string() } else { ks.choose(r)?.clone() };
                let o = &st["asks"][&id];
                let (cr, oc, ot, d0, a0) = (s(o, "cr"), s(o, "co"), s(o, "tk"), s(o, "d"), n(o, "a"));
                if k == "AccAsk" {
                    let snd = self.who(r);
                    let a = match r.gen_range(0..6) { 0 => a0 + self.p.unit, 1 => (a0 - self.p.unit).max(0), 2 => a0 * 2, _ => a0 };
                    let d = fixd(r, d0.clone());
                    let f = self.funds(r, &d0, a0);
                    return Some(json!({"k": k, "s": snd, "f": f, "id": id, "d": d, "a": a, "rc": rc, "fi": fi}));
                }
                let snd = if wrong(r) || cr.is_empty() { self.other(r, o) } else { cr };
                let f = if wrong(r) { stray(r, self.p.unit) } else { json!([]) };
                if k == "RemAsk" { return Some(json!({"k": k, "s": snd, "f": f, "id": id})); }
                let d = fixd(r, self.denom(&oc));
                let a = self.price(r, &oc, &ot);
                json!({"k": k, "s": snd, "f": f, "id": id, "d": d, "a": a, "rc": rc, "fi": fi})
            }
            "SetBid" | "BuyNft" => {
                if k == "BuyNft" {
                    if let (Some(id), true) = (self.keys("asks").choose(r), r.gen_bool(0.9)) {
                        co = s(&st["asks"][id], "co");
                        tk = s(&st["asks"][id], "tk");
                    } else if !r.gen_bool(0.2) { return None; }
                }
                let d = fixd(r, self.denom(&co));
                let a = self.price(r, &co, &tk);
                let mut pay = a;
                if let Some(o) = st["asks"].get(key(&co, &tk)) {
                    if n(o, "a") <= a && r.gen_bool(0.6) { pay = n(o, "a"); }
                }
                let f = self.funds(r, &d, pay);
                json!({"k": k, "s": self.who(r), "f": f, "co": co, "tk": tk, "d": d, "a": a, "rc": rc, "fi": fi})
            }
            "SetCBid" | "BuyColl" => {
                if k == "BuyColl" && self.keys("asks").is_empty() && !r.gen_bool(0.1) { return None; }
                let d = fixd(r, self.denom(&co));
                let a = self.price(r, &co, "");
                let f = self.funds(r, &d, a);
                json!({"k": k, "s": self.who(r), "f": f, "co": co, "d": d, "a": a, "rc": rc, "fi": fi})
            }
            "UpdBid" | "RemBid" | "UpdCBid" | "RemCBid" => {
                let c = if k.ends_with("CBid") { "cbids" } else { "bids" };
                let ks = self.keys(c);
                let id = if r.gen_bool(0.03) { "none".to_string() } else { ks.choose(r)?.clone() };
                let o = &st[c][&id];
                let (cr, oc, ot, d0, a0) = (s(o, "cr"), s(o, "co"), s(o, "tk"), s(o, "d"), n(o, "a"));
                let snd = if wrong(r) || cr.is_empty() { self.other(r, o) } else { cr };
                if k.starts_with("Rem") {
                    let f = if wrong(r) { stray(r, self.p.unit) } else { json!([]) };
                    return Some(json!({"k": k, "s": snd, "f": f, "id": id}));
                }
                let d = fixd(r, self.denom(&oc));
                let a = self.price(r, &oc, &ot);
                let need = if d == d0 { (a - a0).max(0) } else { a };
                let f = self.funds(r, &d, need);
                json!({"k": k, "s": snd, "f": f, "id": id, "d": d, "a": a, "rc": rc, "fi": fi})
            }
            "AccBid" | "AccCBid" => {
                let c = if k == "AccCBid" { "cbids" } else { "bids" };
                let ks = self.keys(c);
                let id = if r.gen_bool(0.03) { "none".to_string() } else { ks.choose(r)?.clone() };
                let o = &st[c][&id];
                let (oc, mut ot, d0, a0) = (s(o, "co"), s(o, "tk"), s(o, "d"), n(o, "a"));
                if ot.is_empty() {
                    let mine: Vec<&(&str, &str)> = TOKENS.iter().filter(|x| x.0 == oc).collect();
                    ot = mine.choose(r).map(|x| x.1.to_string()).unwrap_or("1".into());
                }
                let kk = key(&oc, &ot);
                let owner = s(&st["own"], &kk);
                let right = if let Some(a) = st["asks"].get(&kk) { s(a, "cr") } else { owner.clone() };
                let snd = if wrong(r) || !USERS.contains(&right.as_str()) {
                    let mut o2 = o.clone();
                    if o2.is_object() { o2["tk"] = json!(ot); }
                    self.other(r, &o2)
                } else { right };
                let a = match r.gen_range(0..6) { 0 => a0 + self.p.unit, 1 => (a0 - self.p.unit).max(0), 2 => 0, _ => a0 };
                let d = fixd(r, d0);
                let f = if wrong(r) { stray(r, self.p.unit) } else { json!([]) };
                json!({"k": k, "s": snd, "f": f, "id": id, "tk": ot, "d": d, "a": a, "rc": rc, "fi": fi})
            }
            "UpdConfig" => {
                let snd = self.admin(r);
                let bad = r.gen_bool(0.15 + self.p.wrong);
                let f = if r.gen_bool(0.04) { stray(r, self.p.unit) } else { json!([]) };
                json!({"k": k, "s": snd, "f": f, "cfg": gen_cfg(r, self.p.unit, bad)})
            }
            "Inst" => { let bad = r.gen_bool(0.6); json!({"k": k, "s": "admin", "f": [], "cfg": gen_cfg(r, self.p.unit, bad)}) }
            "UpdDenom" | "SetFee" | "RemFee" => {
                let snd = self.admin(r);
                let f = if r.gen_bool(0.04) { stray(r, self.p.unit) } else { json!([]) };
                let d = DENOMS.choose(r).unwrap();
                let a = self.p.unit * *[0i64, 1, 5, 10].choose(r).unwrap();
                json!({"k": k, "s": snd, "f": f, "co": co, "d": d, "a": a})
            }
            "Xfer" | "Burn" => {
                let owner = s(&st["own"], &key(&co, &tk));
                if !USERS.contains(&owner.as_str()) { return None; }
                let to = if r.gen_bool(0.03) { "mkt".to_string() } else { self.who(r) };
                json!({"k": k, "s": owner, "co": co, "tk": tk, "to": to})
            }
            "Appr" | "Unap" => {
                let owner = s(&st["own"], &key(&co, &tk));
                if !USERS.contains(&owner.as_str()) { return None; }
                json!({"k": k, "s": owner, "co": co, "tk": tk})
            }
            "ApprAll" | "UnapAll" => json!({"k": k, "s": self.who(r), "co": co}),
            "SetInfo" => {
                let t = n(st, "t");
                let stt = *[-1, -1, -1, t - 1000, t, t + 1, t + 10_000].choose(r).unwrap();
                let rs = if self.p.unit > 1 { 1_000_000 * r.gen_range(0..12) } else { pkr(r, &[0, 1, 5_000_000, 3_333_333, 12_345_678, 50_000_000, 100_000_000], 100_000_000) };
                let rr = if r.gen_bool(0.5) { "" } else { *["royal", "royax", "alice", "bobby", "findx", "XX"].choose(r).unwrap() };
                let rr = if rr == "XX" && r.gen_bool(0.8) { "royal" } else { rr };
                let stt = if stt < -1 { -1 } else { stt };
                json!({"k": k, "s": "admin", "co": co, "info": {"stt": stt, "rr": rr, "rs": rs, "ok": r.gen_bool(0.9), "ft": r.gen_bool(0.04)}})
            }
            "RegSet" => {
                let sh = if self.p.unit > 1 { 1_000_000 * r.gen_range(0..12) } else { pkr(r, &[0, 1, 5_000_000, 3_333_333, 12_345_678, 50_000_000, 100_000_000], 100_000_000) };
                let p = if r.gen_bool(0.4) { "mkt" } else { "" };
                let rr = if r.gen_bool(0.35) { "" } else { *["royal", "royax", "royal", "royax", "alice", "bobby", "carol", "findx"].choose(r).unwrap() };
                json!({"k": k, "s": "admin", "rg": if r.gen_bool(0.7) { s(&st["cfg"], "rr").replace("carol", "regis") } else { "regib".into() }, "co": co, "p": p, "r": rr, "sh": sh})
            }
            "Tick" => json!({"k": k, "s": "", "dt": *[1, 1000, 5000, 9999, 10_000].choose(r).unwrap()}),
            "Migrate" => json!({"k": k, "s": self.admin(r)}),
            "SetAdmin" => {
                let snd = self.admin(r);
                let to = if r.gen_bool(0.25) { String::new() } else { ["admin", "admin", "carol"].choose(r).unwrap().to_string() };
                json!({"k": k, "s": snd, "to": to})
            }
            _ => return None,
        })
    }
}

/// operations a property speaks about, in the present state
pub fn probes(r: &mut ChaCha8Rng, st: &Value, fees: &Value, p: &Prof, prop: &str) -> Vec<Value> {
    let q = Prof { w: vec![], wrong: 0.0, odd: p.odd, unit: p.unit };
    let g = G { st, fees, p: &q };
    let mut v = vec![];
    let all = |c: &str| st[c].as_object().unwrap().iter().map(|(k, o)| (k.clone(), o.clone())).collect::<Vec<_>>();
    let u = p.unit;
    match prop {
        "A03" | "A05" | "A11" | "A02" => {
            for k in ["AccAsk", "AccBid", "AccCBid", "BuyNft", "BuyColl", "SellNft"] {
                v.extend(g.make(r, k));
            }
        }
        "A01" | "A04" => {
            // just below, at and above the prices on the books
            for (_, o) in all("asks") {
                let (co, tk, d, a) = (s(&o, "co"), s(&o, "tk"), s(&o, "d"), n(&o, "a"));
                let x = a + u * r.gen_range(-1..2);
                if a > 90_000_000 || x <= 0 { continue; }
                let (rc, fi) = g.rcfi(r);
                v.push(json!({"k": if r.gen_bool(0.5) { "BuyColl" } else { "SetCBid" }, "s": g.who(r), "f": [{"d": d, "a": a}], "co": co, "d": d, "a": MAXA, "rc": fi, "fi": rc}));
                v.push(json!({"k": "SetBid", "s": g.who(r), "f": [{"d": d, "a": x}], "co": co, "tk": tk, "d": d, "a": x, "rc": rc, "fi": fi}));
                v.push(json!({"k": "SetCBid", "s": g.who(r), "f": [{"d": d, "a": x}], "co": co, "d": d, "a": x, "rc": fi, "fi": rc}));
            }
            for c in ["bids", "cbids"] {
                for (_, o) in all(c) {
                    let co = s(&o, "co");
                    let tk = if c == "bids" { s(&o, "tk") } else { TOKENS.iter().filter(|t| t.0 == co).collect::<Vec<_>>().choose(r).unwrap().1.to_string() };
                    let own = s(&st["own"], &format!("{}/{}", co, tk));
                    let a = (n(&o, "a") + u * r.gen_range(-1..2)).max(u);
                    let (rc, fi) = g.rcfi(r);
                    if let Some(k) = st["asks"].get(format!("{}/{}", co, tk)) {
                        v.push(json!({"k": "UpdAsk", "s": s(k, "cr"), "f": [], "id": format!("{}/{}", co, tk), "d": s(&o, "d"), "a": a, "rc": rc, "fi": fi}));
                    } else if USERS.contains(&own.as_str()) {
                        if let Some(f) = fees.get("ustars").and_then(|x| x.as_i64()) {
                            let f = if f > 0 { json!([{"d": "ustars", "a": f}]) } else { json!([]) };
                            v.push(json!({"k": "SetAsk", "s": own, "f": f, "co": co, "tk": tk, "d": s(&o, "d"), "a": a, "rc": rc, "fi": fi}));
                        }
                    }
                }
            }
        }
        "A06" => {
            let e = json!([]);
            for (c, rem, upd, acc) in [("asks", "RemAsk", "UpdAsk", ""), ("bids", "RemBid", "UpdBid", "AccBid"), ("cbids", "RemCBid", "UpdCBid", "AccCBid")] {
                for (id, o) in all(c) {
                    let mut o = o;
                    if c == "cbids" {
                        let t: Vec<_> = TOKENS.iter().filter(|t| t.0 == s(&o, "co")).collect();
                        o["tk"] = json!(t.choose(r).unwrap().1);
                    }
                    let (d, a) = (s(&o, "d"), n(&o, "a"));
                    v.push(json!({"k": rem, "s": g.other(r, &o), "f": e, "id": id}));
                    v.push(json!({"k": upd, "s": g.other(r, &o), "f": e, "id": id, "d": d, "a": a, "rc": "", "fi": ""}));
                    if !acc.is_empty() {
                        for _ in 0..2 {
                            v.push(json!({"k": acc, "s": g.other(r, &o), "f": e, "id": id, "tk": s(&o, "tk"), "d": d, "a": (a - u).max(0), "rc": "", "fi": ""}));
                        }
                    }
                }
            }
            for k in ["UpdConfig", "UpdDenom", "SetFee", "RemFee"] {
                let w = Prof { w: vec![], wrong: 0.7, odd: p.odd, unit: p.unit };
                v.extend(G { st, fees, p: &w }.make(r, k));
            }
        }
        "A08" => {
            for k in ["UpdConfig", "UpdDenom", "SetFee", "RemFee", "Inst"] {
                v.extend(g.make(r, k));
            }
        }
        _ => {}
    }
    v.retain(|o| o["f"].as_array().map_or(true, |f| f.iter().all(|c| n(c, "a") > 0)));
    v.shuffle(r);
    v.iter_mut().for_each(|o| extreme(r, o));
    v.truncate(if prop == "A06" { 6 } else { 4 });
    if prop == "A01" {
        // coins attached where none are taken
        let ks = ["UpdAsk", "RemAsk", "RemBid", "RemCBid", "AccBid", "AccCBid", "UpdConfig", "UpdDenom", "SetFee", "RemFee"];
        for k in ks.choose_multiple(r, 3) {
            if let Some(mut o) = g.make(r, k) {
                o["f"] = stray(r, u);
                v.push(o);
            }
        }
    }
    v
}

/// now and then the largest price there is, and never an amount outside what TLC can hold
pub fn extreme(r: &mut ChaCha8Rng, o: &mut Value) {
    let p = match s(o, "k").as_str() {
        "SetAsk" | "UpdAsk" => 0.01,
        "BuyColl" | "SetCBid" | "UpdCBid" | "BuyNft" | "SetBid" | "UpdBid" | "AccAsk" => 0.03,
        "AccBid" | "AccCBid" | "SellNft" => 0.01,
        _ => 0.0,
    };
    if o.get("a").is_some() && (n(o, "a") > 2_000_000_000 || p > 0.0 && r.gen_bool(p)) {
        o["a"] = json!(MAXA);
    }
    if let Some(f) = o.get_mut("f").and_then(|f| f.as_array_mut()) {
        for c in f.iter_mut() {
            if n(c, "a") > 1_500_000_000 {
                c["a"] = json!(1_500_000_000);
            }
        }
    }
}
