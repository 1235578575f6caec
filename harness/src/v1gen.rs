//! Operation, probe and query generators for the V1 marketplace.
use crate::util::*;
use crate::v1::*;
use rand::seq::SliceRandom;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Value};

type Rn = ChaCha8Rng;
fn pk(r: &mut Rn, v: &[i64]) -> i64 {
    *v.choose(r).unwrap()
}
fn unit(root: &Value) -> i64 {
    n(root, "unit").max(1)
}

fn weights(p: &str) -> (Vec<(&'static str, u32)>, f64) {
    let mut w: Vec<(&'static str, u32)> = vec![
        ("SetAsk", 18), ("RemAsk", 2), ("UpdPrice", 4), ("SetBid", 14), ("BuyNow", 4), ("BuyFor", 3), ("RemBid", 3),
        ("AccBid", 5), ("RejBid", 3), ("SetCBid", 8), ("RemCBid", 2), ("AccCBid", 4),
        ("SyncAsk", 4), ("StaleAsk", 2), ("StaleBid", 3), ("StaleCBid", 2),
        ("UpdParams", 3), ("AddOp", 1), ("RemOp", 1), ("AddHook", 2), ("RemHook", 1), ("Inst", 1), ("Migrate", 1),
        ("Tick", 8), ("Xfer", 3), ("Appr", 8), ("Unap", 2), ("ApprAll", 1), ("UnapAll", 1), ("Burn", 0), ("SetInfo", 2), ("HookBad", 1),
    ];
    let mut wrong = 0.08;
    let mut up = |ks: &[&str], f: u32| for x in w.iter_mut() { if ks.contains(&x.0) { x.1 = x.1 * f + 1 } };
    match p {
        "B01" => up(&["RemBid", "RejBid", "StaleBid", "StaleCBid", "SetCBid", "AccBid"], 2),
        "B02" => { up(&["BuyNow", "BuyFor", "AccBid", "AccCBid", "SetInfo", "UpdParams"], 3); wrong = 0.04 }
        "B03" => { up(&["BuyNow", "BuyFor", "SetBid", "Xfer", "Tick", "SyncAsk"], 2); wrong = 0.15 }
        "B04" => { up(&["SetBid", "SetCBid", "RemBid", "RejBid", "UpdParams"], 2); wrong = 0.2 }
        "B05" => { up(&["AccBid", "AccCBid", "SetInfo", "Tick"], 3); wrong = 0.15 }
        "B06" => { up(&["StaleBid", "StaleCBid", "Tick", "UpdParams", "AddOp", "RemOp"], 3) }
        "B07" => { up(&["UpdPrice", "RemAsk", "UpdParams", "SetInfo"], 3); wrong = 0.25 }
        "B08" => { up(&["SyncAsk", "StaleAsk", "Xfer", "Unap", "Burn", "AddOp", "RemOp"], 3) }
        "B09" => { up(&["AddHook", "RemHook", "HookBad"], 5); up(&["BuyNow", "AccBid", "AccCBid"], 2) }
        "B10" => { up(&["SetBid", "SetCBid", "SetAsk", "Appr"], 2); wrong = 0.02 }
        "B11" => { up(&["UpdParams", "AddOp", "RemOp", "AddHook", "RemHook", "Inst", "Migrate"], 6); wrong = 0.15 }
        _ => {}
    }
    (w, wrong)
}

pub fn cfg(r: &mut Rn, u: i64, bad: bool) -> Value {
    let q = |x: i64| if u > 1 { x / 2 * 2 } else { x };
    let hi = if u > 1 { 1000 } else { 2000 };
    let an = pkr(r, &[0, 1, 60, 300], 400);
    let bn = pkr(r, &[0, 1, 60, 300], 400);
    let mut c = json!({
        "tf": q(pkr(r, &[0, 1, 100, 200, 200, 250, 333, 5000, 10000], 10000)), "an": an, "ax": an + pk(r, &[0, 1, 700, hi, 20000]),
        "bn": bn, "bx": bn + pk(r, &[1, 700, hi, 20000]), "mf": q(pkr(r, &[0, 100, 500, 1000, 5000, 10000], 10000)),
        "mn": u * pk(r, &[0, 1, 2, 5, 10]), "sd": pkr(r, &[0, 1, 100, 1000, 30000], 5000),
        "rw": q(pkr(r, &[0, 1, 100, 500, 3333, 10000], 10000)), "lf": u * pk(r, &[0, 2, 4, 10, 0]),
        "ops": ["opera"], "sh": "", "ht": false,
    });
    if u == 1 && r.gen_bool(0.4) {
        c["lf"] = json!(pk(r, &[1, 3, 5, 101]));
    }
    if r.gen_bool(0.3) {
        c["ops"] = if r.gen_bool(0.5) { json!(["operb", "opera", "operb"]) } else { json!(["opera", "carol", "alice"]) };
    }
    if r.gen_bool(0.3) {
        c["sh"] = json!(HOOKS.choose(r).unwrap());
    }
    if bad {
        match r.gen_range(0..12) {
            0 => c["tf"] = json!(pk(r, &[10001, 20000, 2_000_000_000])),
            1 => c["mf"] = json!(pk(r, &[10001, 12345])),
            2 => c["rw"] = json!(pk(r, &[10001, 65535])),
            3 => c["an"] = json!(n(&c, "ax") + 1),
            4 => c["bn"] = json!(n(&c, "bx") + 1),
            5 => c["ht"] = json!(true),
            6 => c["ops"] = json!(["opera", "XX"]),
            7 => c["sh"] = json!("XX"),
            8 => { c["tf"] = json!(10000); c["mf"] = json!(10000); c["rw"] = json!(10000) }
            9 => { c["an"] = c["ax"].clone(); c["bn"] = c["bx"].clone() }
            10 => c["ops"] = json!([]),
            _ => {}
        }
    }
    c
}

pub fn root(r: &mut Rn, prop: &str, scaled: bool) -> Value {
    let u = if scaled { 10_000 } else { 1 };
    let mut c = cfg(r, u, false);
    if ["B02", "B03", "B05", "B10", "B12"].contains(&prop) && r.gen_bool(0.7) {
        // sales need fees that fit
        c["tf"] = json!(pk(r, &[0, 100, 200, 250, 332]));
        c["mf"] = json!(pk(r, &[500, 1000, 3000]));
        if r.gen_bool(0.15) {
            // sales whose fees just fit, or just do not
            c["tf"] = json!(pk(r, &[2500, 4000, 5000]));
            c["mf"] = json!(pk(r, &[4000, 5000, 7000]));
        }
    }
    if prop != "B07" && n(&c, "an") == n(&c, "ax") {
        c["ax"] = json!(n(&c, "an") + 2000);
    }
    json!({"cfg": c, "scale": if scaled { *["100000000", "100000", "100000000", "10000000000000000"].choose(r).unwrap() } else { "1" }, "unit": u, "tscale": stretch_of(r, scaled)})
}

pub fn prologue(r: &mut Rn, _root: &Value, prop: &str) -> Vec<Value> {
    let mut v = vec![];
    for (i, (co, t)) in TOKENS.iter().enumerate() {
        if r.gen_bool(0.8) {
            v.push(json!({"k": "Appr", "s": USERS[i % 2], "co": co, "tk": t, "ex": -1}));
        }
    }
    let p = if prop == "B09" { 1.0 } else { 0.35 };
    for h in KINDS {
        if r.gen_bool(p) {
            for x in HOOKS {
                if r.gen_bool(0.6) {
                    v.push(json!({"k": "AddHook", "h": h, "x": x}));
                }
            }
        }
    }
    if prop == "B09" || r.gen_bool(0.2) {
        v.push(json!({"k": "HookBad", "x": HOOKS.choose(r).unwrap(), "bad": true}));
    }
    v
}

struct G<'a> {
    st: &'a Value,
    u: i64,
    wrong: f64,
}
impl<'a> G<'a> {
    fn now(&self) -> i64 {
        n(self.st, "t")
    }
    fn p(&self, k: &str) -> i64 {
        n(&self.st["pr"], k)
    }
    fn who(&self, r: &mut Rn) -> String {
        USERS.choose(r).unwrap().to_string()
    }
    fn w(&self, r: &mut Rn) -> bool {
        r.gen_bool(self.wrong)
    }
    /// an operator, often the bidder if that is one
    fn oper_for(&self, r: &mut Rn, us: &str) -> String {
        if !self.st["ops"][us].is_null() && r.gen_bool(0.4) { us.into() } else { self.oper(r) }
    }
    fn oper(&self, r: &mut Rn) -> String {
        let ks: Vec<String> = self.st["ops"].as_object().unwrap().keys().cloned().collect();
        if self.w(r) {
            ["alice", "opera", "operb", "admin", "bobby"].choose(r).unwrap().to_string()
        } else {
            ks.choose(r).cloned().unwrap_or("operb".into())
        }
    }
    fn price(&self, r: &mut Rn, co: &str, tk: &str) -> i64 {
        let u = self.u;
        let mut near = vec![];
        for c in ["asks", "bids", "cbids"] {
            for (_, o) in self.st[c].as_object().unwrap() {
                if s(o, "co") == co && (c == "cbids" || s(o, "tk") == tk) {
                    near.push(n(o, "a"));
                }
            }
        }
        near.push(self.p("mn"));
        if r.gen_bool(0.5) {
            let x = *near.choose(r).unwrap();
            if x < 2_000_000_000 - u {
                return (x + u * r.gen_range(-1..2)).max(0);
            }
        }
        if u > 1 {
            return u * r.gen_range(1..70);
        }
        match r.gen_range(0..10) {
            0 => r.gen_range(1..12),
            1..=3 => *[10, 13, 99, 100, 101, 150, 1].choose(r).unwrap(),
            4..=6 => r.gen_range(90..110),
            7 => r.gen_range(1..2000),
            8 => *[10_000, 123_457, 999_999, 1_000_000, 33_333].choose(r).unwrap(),
            _ => r.gen_range(100..100_000),
        }
    }
    fn ask_price(&self, r: &mut Rn, co: &str, tk: &str) -> i64 {
        if r.gen_bool(0.06 + self.wrong / 3.0) {
            let m = n(self.st, "max");
            if m >= self.u {
                return m + self.u * r.gen_range(-1..2);
            }
        }
        self.price(r, co, tk)
    }
    fn expiry(&self, r: &mut Rn, lo: i64, hi: i64) -> i64 {
        let (a, b) = (self.now() + lo * 1000, self.now() + hi * 1000);
        if r.gen_bool(0.12 + self.wrong) {
            return *[a, a + 1, b, b + 1, a - 1, b - 1].choose(r).unwrap();
        }
        if b <= a + 1 {
            return a + 1;
        }
        if r.gen_bool(0.35) {
            // whole seconds, so that several orders may expire together
            let (x, y) = ((a + 1000) / 1000, b / 1000);
            if y > x {
                return r.gen_range(x..y + 1) * 1000;
            }
        }
        r.gen_range(a + 1..b + 1)
    }
    fn ff(&self, r: &mut Rn) -> i64 {
        let m = self.p("mf");
        let mut c = vec![-1, -1, 0, m, m];
        if m > 200 {
            c.extend([200, 100]);
        }
        if self.u == 1 && m > 333 {
            c.push(333);
        }
        if self.w(r) {
            c = vec![m + 1, m + 2, 10000, 10001, 2_000_000_000];
        }
        let mut x = pk(r, &c);
        if m > 1 && r.gen_bool(0.15) { x = r.gen_range(1..m.min(10000)); }
        if self.u > 1 && x > 0 && x % 2 == 1 { x + 1 } else { x }
    }
    fn fi(&self, r: &mut Rn) -> String {
        if r.gen_bool(0.5) {
            return String::new();
        }
        if r.gen_bool(0.02) {
            return "XX".into();
        }
        ["findx", "findy", "findx", "alice", "bobby", "carol"].choose(r).unwrap().to_string()
    }
    fn pay(&self, r: &mut Rn, a: i64) -> Value {
        let u = self.u;
        if a > 100_000_000 {
            return json!([{"d": "ustars", "a": u}]);
        }
        let e = |a: i64| if a > 0 { json!([{"d": "ustars", "a": a}]) } else { json!([]) };
        if !self.w(r) {
            return e(a);
        }
        match r.gen_range(0..6) {
            0 => e(a + u),
            1 => e(a - u),
            2 => json!([]),
            3 => json!([{"d": "uatom", "a": a.max(u)}]),
            4 => json!([{"d": "ustars", "a": a.max(u)}, {"d": "uatom", "a": u}]),
            _ => e(a * 2 + u),
        }
    }
    fn none(&self, r: &mut Rn) -> Value {
        if r.gen_bool(self.wrong / 2.0) { stray(r, self.u) } else { json!([]) }
    }
    fn pick(&self, r: &mut Rn, c: &str) -> Option<(String, Value)> {
        let v: Vec<_> = self.st[c].as_object().unwrap().iter().collect();
        v.choose(r).map(|(k, v)| (k.to_string(), (*v).clone()))
    }
    fn own(&self, co: &str, tk: &str) -> String {
        s(&self.st["own"], &format!("{}/{}", co, tk))
    }
    fn owner_or(&self, r: &mut Rn, co: &str, tk: &str) -> String {
        let o = self.own(co, tk);
        if o.is_empty() || o == "mkt" || !USERS.contains(&o.as_str()) || self.w(r) { self.who(r) } else { o }
    }
    /// someone who is not entitled: often a party to the order
    fn other(&self, r: &mut Rn, o: &Value) -> String {
        let mut c: Vec<String> = ["se", "fr", "rf", "us", "fi"].iter().map(|k| s(o, k)).collect();
        let key = format!("{}/{}", s(o, "co"), s(o, "tk"));
        c.push(s(&self.st["own"], &key));
        if let Some(a) = self.st["asks"].get(&key) {
            c.extend(["se", "fr", "rf"].iter().map(|k| s(a, k)));
        }
        c.extend(self.st["ops"].as_object().unwrap().keys().cloned());
        c.extend(USERS.iter().map(|x| x.to_string()));
        c.push("admin".into());
        c.retain(|x| !x.is_empty() && x != "mkt" && x != "XX");
        c.choose(r).unwrap().clone()
    }
    fn params(&self, r: &mut Rn) -> Value {
        let bad = r.gen_bool(0.12 + self.wrong);
        let c = cfg(r, self.u, bad);
        let mut p = json!({});
        let all = r.gen_bool(0.1);
        for k in ["tf", "mf", "mn", "sd", "rw", "lf"] {
            if all || r.gen_bool(0.25) || (bad && n(&c, k) > 10000 && k != "sd" && k != "mn" && k != "lf") {
                p[k] = c[k].clone();
            }
        }
        for (x, y) in [("an", "ax"), ("bn", "bx")] {
            if all || r.gen_bool(0.25) || (bad && n(&c, x) > n(&c, y)) {
                p[x] = c[x].clone();
                p[y] = c[y].clone();
            }
        }
        p
    }
    fn make(&self, r: &mut Rn, k: &str) -> Option<Value> {
        let st = self.st;
        let (co, tk) = {
            let (c, t) = TOKENS.choose(r).unwrap();
            (c.to_string(), t.to_string())
        };
        let ty = if r.gen_bool(0.65) { "fixed_price" } else { "auction" };
        Some(match k {
            "SetAsk" => {
                let snd = self.owner_or(r, &co, &tk);
                if n(&st["apr"], &format!("{}/{}", co, tk)) == -2 && r.gen_bool(0.75) {
                    return self.make(r, "Appr");
                }
                let a = self.ask_price(r, &co, &tk);
                let d = if self.w(r) && r.gen_bool(0.4) { "uatom" } else { "ustars" };
                let mut rf = String::new();
                if (ty == "fixed_price" && r.gen_bool(0.2)) || self.w(r) {
                    rf = if self.w(r) { snd.clone() } else { self.who(r) };
                    if rf == snd && !self.w(r) { rf = String::new(); }
                }
                let fr = if r.gen_bool(0.25) { ["fundr", "bobby", "fundr", "findx"].choose(r).unwrap().to_string() } else { String::new() };
                json!({"k": k, "s": snd, "f": self.pay(r, self.p("lf")), "co": co, "tk": tk, "ty": ty, "d": d, "a": a, "fr": fr, "rf": rf,
                    "ff": self.ff(r), "ex": self.expiry(r, self.p("an"), self.p("ax"))})
            }
            "UpdPrice" | "RemAsk" => {
                let (_, o) = self.pick(r, "asks")?;
                let (co, tk) = (s(&o, "co"), s(&o, "tk"));
                let snd = if r.gen_bool(0.15) { s(&o, "se") } else if self.w(r) { self.other(r, &o) } else { self.owner_or(r, &co, &tk) };
                let f = self.none(r);
                if k == "RemAsk" {
                    return Some(json!({"k": k, "s": snd, "f": f, "co": co, "tk": tk}));
                }
                let d = if self.w(r) && r.gen_bool(0.4) { "uatom" } else { "ustars" };
                json!({"k": k, "s": snd, "f": f, "co": co, "tk": tk, "d": d, "a": self.ask_price(r, &co, &tk)})
            }
            "SetBid" | "BuyNow" | "BuyFor" => {
                let (mut co, mut tk) = (co, tk);
                let mut a = self.price(r, &co, &tk).max(if self.w(r) { 0 } else { self.u });
                if r.gen_bool(0.6) {
                    if let Some((_, o)) = self.pick(r, "asks") {
                        co = s(&o, "co");
                        tk = s(&o, "tk");
                        if n(&o, "a") < 90_000_000 {
                            a = n(&o, "a") + self.u * pk(r, &[0, 0, 0, 0, 0, 1, -1, -1, 3]);
                        }
                    }
                }
                if r.gen_bool(0.03) { tk = "9".into(); }
                let ask = &st["asks"][format!("{}/{}", co, tk)];
                let rf = s(ask, "rf");
                let snd = if !rf.is_empty() && r.gen_bool(0.6) { rf } else { self.who(r) };
                let mut fi = self.fi(r);
                if fi == snd && !self.w(r) { fi = "findx".into(); }
                let mut o = json!({"k": k, "s": snd, "f": self.pay(r, a), "co": co, "tk": tk, "fi": fi,
                    "ff": self.ff(r), "ex": self.expiry(r, self.p("bn"), self.p("bx"))});
                if k == "SetBid" { o["ty"] = json!(ty); }
                if k == "BuyFor" { o["ar"] = json!(if r.gen_bool(0.05) { "XX".into() } else { self.who(r) }); }
                o
            }
            "SetCBid" => {
                let a = self.price(r, &co, &tk).max(if self.w(r) { 0 } else { self.u });
                json!({"k": k, "s": self.who(r), "f": self.pay(r, a), "co": co, "ff": self.ff(r), "ex": self.expiry(r, self.p("bn"), self.p("bx"))})
            }
            "RemBid" | "AccBid" | "RejBid" | "StaleBid" => {
                let (_, o) = self.pick(r, "bids")?;
                let (co, tk, us) = (s(&o, "co"), s(&o, "tk"), s(&o, "us"));
                let f = self.none(r);
                match k {
                    "RemBid" => json!({"k": k, "s": if self.w(r) { self.other(r, &o) } else { us }, "f": f, "co": co, "tk": tk}),
                    "StaleBid" => json!({"k": k, "s": self.oper_for(r, &us), "f": f, "co": co, "tk": tk, "us": us}),
                    _ => {
                        let us = if r.gen_bool(0.03) { self.who(r) } else { us };
                        let snd = if self.w(r) { self.other(r, &o) } else { self.owner_or(r, &co, &tk) };
                        let mut x = json!({"k": k, "s": snd, "f": f, "co": co, "tk": tk, "us": us});
                        if k == "AccBid" { x["fi"] = json!(if r.gen_bool(0.12) { s(&x, "s") } else { self.fi(r) }); }
                        x
                    }
                }
            }
            "RemCBid" | "AccCBid" | "StaleCBid" => {
                let (_, o) = self.pick(r, "cbids")?;
                let (co, us) = (s(&o, "co"), s(&o, "us"));
                let f = self.none(r);
                match k {
                    "RemCBid" => json!({"k": k, "s": if self.w(r) { self.who(r) } else { us }, "f": f, "co": co}),
                    "StaleCBid" => json!({"k": k, "s": self.oper_for(r, &us), "f": f, "co": co, "us": us}),
                    _ => {
                        let t: Vec<_> = TOKENS.iter().filter(|x| x.0 == co).collect();
                        let tk = t.choose(r).unwrap().1;
                        let snd = self.owner_or(r, &co, tk);
                        let fi = if r.gen_bool(0.12) { snd.clone() } else { self.fi(r) };
                        json!({"k": k, "s": snd, "f": f, "co": co, "tk": tk, "us": us, "fi": fi})
                    }
                }
            }
            "SyncAsk" | "StaleAsk" => {
                let (_, o) = self.pick(r, "asks")?;
                json!({"k": k, "s": self.oper(r), "f": self.none(r), "co": s(&o, "co"), "tk": s(&o, "tk")})
            }
            "UpdParams" => json!({"k": k, "s": "gov", "p": self.params(r)}),
            "AddOp" | "RemOp" => {
                let x = if r.gen_bool(0.05) { "XX" } else { ["opera", "operb", "operb", "carol", "alice", "bobby"].choose(r).unwrap() };
                if k == "RemOp" && r.gen_bool(0.4) { return None; }
                json!({"k": k, "s": "gov", "x": x})
            }
            "AddHook" | "RemHook" => {
                let x = if r.gen_bool(0.05) { "XX" } else { ["hooka", "hookb", "hookc", "hooka", "hookb", "hookc", "nohook", "nohookb", "nohookc"].choose(r).unwrap() };
                json!({"k": k, "s": "gov", "h": KINDS.choose(r).unwrap(), "x": x})
            }
            "Inst" => {
                let bad = r.gen_bool(0.6);
                json!({"k": k, "s": "gov", "cfg": cfg(r, self.u, bad)})
            }
            "Migrate" => {
                let other = r.gen_bool(0.25);
                let ver = ["same", "patch-", "major-", "pre-", "patch+", "minor+", "major+", "junk", "1.4"].choose(r).unwrap();
                let name = ["crates.io:sg-marketplace-v2", "other", "sg-marketplace", ""].choose(r).unwrap();
                json!({"k": k, "s": if r.gen_bool(0.9) { "admin" } else { "alice" }, "ver": ver, "other": other, "name": name})
            }
            "Tick" => {
                let now = self.now();
                if now > 800_000_000 { return None; }
                let mut c = vec![];
                for b in ["asks", "bids", "cbids"] {
                    for (_, o) in st[b].as_object().unwrap() {
                        c.push(n(o, "ex"));
                        if b != "asks" { c.push(n(o, "ex") + self.p("sd") * 1000); }
                    }
                }
                for (_, e) in st["apr"].as_object().unwrap() { c.push(e.as_i64().unwrap()); }
                for (_, i) in st["cinfo"].as_object().unwrap() { c.push(n(i, "stt")); }
                let c: Vec<i64> = c.into_iter().map(|x| x + r.gen_range(-1..2)).filter(|x| *x > now).collect();
                let dt = if !c.is_empty() && r.gen_bool(0.6) {
                    // mostly the nearest boundaries
                    let mut c = c;
                    c.sort();
                    c[r.gen_range(0..c.len().min(4))] - now
                } else { pk(r, &[1, 999, 1000, 1001, 5000, 60_000, 700_000]) };
                json!({"k": k, "s": "", "dt": dt})
            }
            "Xfer" => {
                let (mut co, mut tk) = (co, tk);
                if r.gen_bool(0.5) {
                    if let Some((_, a)) = self.pick(r, "asks") {
                        co = s(&a, "co");
                        tk = s(&a, "tk");
                    }
                }
                let o = self.own(&co, &tk);
                if !USERS.contains(&o.as_str()) { return None; }
                let to = if r.gen_bool(0.05) { "mkt".into() } else { self.who(r) };
                json!({"k": k, "s": o, "co": co, "tk": tk, "to": to})
            }
            "Appr" | "Unap" => {
                let (mut co, mut tk) = (co, tk);
                // the new owner of a listed token
                if let (Some(a), true) = (st["asks"].as_object().unwrap().values().find(|a| self.own(&s(a, "co"), &s(a, "tk")) != s(a, "se")), r.gen_bool(0.4)) {
                    co = s(a, "co");
                    tk = s(a, "tk");
                }
                let o = self.own(&co, &tk);
                if !USERS.contains(&o.as_str()) { return None; }
                let mut x = json!({"k": k, "s": o, "co": co, "tk": tk});
                if k == "Appr" { x["ex"] = json!(if r.gen_bool(0.8) { -1 } else { self.now() + pk(r, &[1, 1000, 60_000, 400_000]) }); }
                x
            }
            "ApprAll" | "UnapAll" => {
                let mut w = self.who(r);
                if let (Some(a), true) = (st["asks"].as_object().unwrap().values().find(|a| self.own(&s(a, "co"), &s(a, "tk")) != s(a, "se")), k == "ApprAll" && r.gen_bool(0.5)) {
                    let o = self.own(&s(a, "co"), &s(a, "tk"));
                    if USERS.contains(&o.as_str()) { w = o; }
                }
                json!({"k": k, "s": w, "co": co})
            }
            "Burn" => {
                let o = self.own(&co, &tk);
                if !USERS.contains(&o.as_str()) || r.gen_bool(0.7) { return None; }
                json!({"k": k, "s": o, "co": co, "tk": tk})
            }
            "SetInfo" => {
                let q = |x: i64| if self.u > 1 { x / 10_000 * 10_000 } else { x };
                let rr = ["royal", "royal", "royal", "carol", "alice", "bobby", "findx", "fundr", ""].choose(r).unwrap();
                let rs = q(pkr(r, &[0, 1, 1_000_000, 5_000_000, 3_333_333, 12_345_678, 50_000_000, 98_000_000, 100_000_000], 100_000_000));
                let stt = if r.gen_bool(0.7) { -1 } else { (self.now() + pk(r, &[-1000, 0, 1, 5000, 60_000])).max(0) };
                json!({"k": k, "s": "admin", "co": co, "info": {"ok": r.gen_bool(0.93), "stt": stt, "rr": rr, "rs": rs, "ft": r.gen_bool(0.08)}})
            }
            "HookBad" => json!({"k": k, "s": "admin", "x": HOOKS.choose(r).unwrap(), "bad": r.gen_bool(0.5)}),
            _ => return None,
        })
    }
}

pub fn op(r: &mut Rn, st: &Value, root: &Value, prop: &str) -> Value {
    let (w, wrong) = weights(prop);
    let g = G { st, u: unit(root), wrong };
    let tot: u32 = w.iter().map(|x| x.1).sum();
    for _ in 0..60 {
        let mut x = r.gen_range(0..tot);
        for (k, wt) in &w {
            if x < *wt {
                if let Some(o) = g.make(r, k) {
                    return o;
                }
                break;
            }
            x -= wt;
        }
    }
    json!({"k": "Tick", "s": "", "dt": 5000})
}

/// the operations a property says must (or must not) be possible in the present state
pub fn probes(r: &mut Rn, st: &Value, root: &Value, prop: &str) -> Vec<Value> {
    let u = unit(root);
    let g = G { st, u, wrong: 0.0 };
    let mut v = vec![];
    let objs = |c: &str| st[c].as_object().unwrap().values().cloned().collect::<Vec<_>>();
    let op0 = st["ops"].as_object().unwrap().keys().next().cloned();
    let e = json!([]);
    let owner = |o: &Value| {
        let x = g.own(&s(o, "co"), &s(o, "tk"));
        if USERS.contains(&x.as_str()) { Some(x) } else { None }
    };
    match prop {
        "B01" | "B04" => {
            for o in objs("bids") {
                v.push(json!({"k": "RemBid", "s": s(&o, "us"), "f": e, "co": s(&o, "co"), "tk": s(&o, "tk")}));
                v.push(json!({"k": "RejBid", "s": g.other(r, &o), "f": e, "co": s(&o, "co"), "tk": s(&o, "tk"), "us": s(&o, "us")}));
                if let Some(x) = owner(&o) {
                    v.push(json!({"k": "RejBid", "s": x, "f": e, "co": s(&o, "co"), "tk": s(&o, "tk"), "us": s(&o, "us")}));
                }
                // replacing it
                v.push(json!({"k": "SetBid", "s": s(&o, "us"), "f": [{"d": "ustars", "a": (n(&o, "a") - u).max(n(&st["pr"], "mn")).max(u)}], "co": s(&o, "co"), "tk": s(&o, "tk"),
                    "fi": "", "ff": -1, "ex": g.expiry(r, g.p("bn"), g.p("bx")), "ty": "auction"}));
            }
            for o in objs("cbids") {
                v.push(json!({"k": "RemCBid", "s": s(&o, "us"), "f": e, "co": s(&o, "co")}));
                v.push(json!({"k": "SetCBid", "s": s(&o, "us"), "f": [{"d": "ustars", "a": n(&o, "a") + u}], "co": s(&o, "co"), "ff": -1, "ex": g.expiry(r, g.p("bn"), g.p("bx"))}));
            }
        }
        "B02" | "B03" | "B09" | "B12" => {
            for o in objs("asks") {
                let a = n(&o, "a");
                if a > 90_000_000 { continue; }
                let base = json!({"f": [{"d": "ustars", "a": a}], "co": s(&o, "co"), "tk": s(&o, "tk"), "fi": match r.gen_range(0..10) { 0..=3 => "findx".into(), 4 => s(&o, "se"), 5 => s(&o, "fr"), _ => String::new() },
                    "ff": g.ff(r), "ex": g.expiry(r, g.p("bn"), g.p("bx"))});
                let who = if s(&o, "rf").is_empty() { g.who(r) } else { s(&o, "rf") };
                for (k, w) in [("SetBid", g.who(r)), ("BuyNow", who.clone()), ("BuyFor", who)] {
                    let mut x = base.clone();
                    x["k"] = json!(k);
                    x["s"] = json!(w);
                    if k == "SetBid" { x["ty"] = json!("fixed_price"); }
                    if k == "BuyFor" { x["ar"] = json!(g.who(r)); }
                    v.push(x);
                }
            }
            if prop != "B03" {
                for o in objs("bids") {
                    if let Some(x) = owner(&o) {
                        v.push(json!({"k": "AccBid", "s": x, "f": e, "co": s(&o, "co"), "tk": s(&o, "tk"), "us": s(&o, "us"), "fi": match r.gen_range(0..10) { 0..=4 => "findy", 5 | 6 => x.as_str(), _ => "" }}));
                    }
                }
            }
            if prop == "B12" {
                for c in ["bids", "cbids"] {
                    for o in objs(c) {
                        let us = s(&o, "us");
                        let k = if c == "bids" { "StaleBid" } else { "StaleCBid" };
                        v.push(json!({"k": k, "s": g.oper_for(r, &us), "f": e, "co": s(&o, "co"), "tk": s(&o, "tk"), "us": us}));
                    }
                }
            }
        }
        "B05" => {
            for o in objs("bids") {
                for x in [owner(&o), Some(g.other(r, &o))].into_iter().flatten() {
                    v.push(json!({"k": "AccBid", "s": x, "f": e, "co": s(&o, "co"), "tk": s(&o, "tk"), "us": s(&o, "us"), "fi": g.fi(r)}));
                }
            }
            for o in objs("cbids") {
                for (c, t) in TOKENS {
                    if c == s(&o, "co") {
                        let x = g.owner_or(r, c, t);
                        v.push(json!({"k": "AccCBid", "s": x, "f": e, "co": c, "tk": t, "us": s(&o, "us"), "fi": g.fi(r)}));
                    }
                }
            }
        }
        "B06" => {
            for c in ["bids", "cbids"] {
                for o in objs(c) {
                    let k = if c == "bids" { "StaleBid" } else { "StaleCBid" };
                    v.push(json!({"k": k, "s": g.other(r, &o), "f": e, "co": s(&o, "co"), "tk": s(&o, "tk"), "us": s(&o, "us")}));
                    if !st["ops"][&s(&o, "us")].is_null() {
                        v.push(json!({"k": k, "s": s(&o, "us"), "f": e, "co": s(&o, "co"), "tk": s(&o, "tk"), "us": s(&o, "us")}));
                    }
                }
            }
            for who in [op0.clone().unwrap_or("opera".into()), ["operb", "alice", "bobby"].choose(r).unwrap().to_string()] {
                for o in objs("bids") {
                    v.push(json!({"k": "StaleBid", "s": who, "f": e, "co": s(&o, "co"), "tk": s(&o, "tk"), "us": s(&o, "us")}));
                }
                for o in objs("cbids") {
                    v.push(json!({"k": "StaleCBid", "s": who, "f": e, "co": s(&o, "co"), "us": s(&o, "us")}));
                }
            }
        }
        "B07" => {
            for o in objs("asks") {
                let x = g.other(r, &o);
                for w in [owner(&o), Some(s(&o, "se")), Some(x)].into_iter().flatten() {
                    v.push(json!({"k": "UpdPrice", "s": w, "f": e, "co": s(&o, "co"), "tk": s(&o, "tk"), "d": "ustars", "a": *[n(&st["pr"], "mn"), n(&st["pr"], "mn") - u, n(st, "max"), n(st, "max") + u, n(&o, "a") + u].choose(r).unwrap()}));
                    v.push(json!({"k": "RemAsk", "s": w, "f": e, "co": s(&o, "co"), "tk": s(&o, "tk")}));
                }
            }
        }
        "B08" => {
            for o in objs("asks") {
                for who in [op0.clone().unwrap_or("opera".into()), ["operb", "alice", "bobby", "admin"].choose(r).unwrap().to_string()] {
                    for k in ["SyncAsk", "StaleAsk"] {
                        v.push(json!({"k": k, "s": who, "f": e, "co": s(&o, "co"), "tk": s(&o, "tk")}));
                    }
                }
            }
        }
        "B11" => {
            for k in ["UpdParams", "Inst", "Migrate", "AddHook", "RemHook", "AddOp"] {
                let g = G { st, u, wrong: 0.2 };
                v.extend(g.make(r, k));
            }
        }
        _ => {}
    }
    v.retain(|o| o["f"].as_array().map_or(true, |f| f.iter().all(|c| n(c, "a") > 0)));
    v.shuffle(r);
    v.truncate(5);
    if prop == "B01" {
        // coins attached where none are taken
        let ks = ["RemAsk", "UpdPrice", "SyncAsk", "StaleAsk", "RemBid", "RejBid", "AccBid", "RemCBid", "AccCBid", "StaleBid", "StaleCBid"];
        for k in ks.choose_multiple(r, 3) {
            if let Some(mut o) = g.make(r, k) {
                o["f"] = stray(r, u);
                v.push(o);
            }
        }
    }
    v
}

/// which book a query lists ("" = collections)
pub fn book(q: &str) -> &'static str {
    if q == "colls" { "" } else if q.starts_with("ask") { "asks" } else if q.starts_with("bid") { "bids" } else { "cbids" }
}
pub fn split(k: &str) -> (String, String, String) {
    let p: Vec<&str> = k.split('/').collect();
    match p.len() {
        1 => (p[0].into(), "0".into(), String::new()),
        2 => if p[1].parse::<u64>().is_ok() { (p[0].into(), p[1].into(), String::new()) } else { (p[0].into(), "0".into(), p[1].into()) },
        _ => (p[0].into(), p[1].into(), p[2].into()),
    }
}

const QS: [&str; 16] = ["colls", "asks", "asksR", "asksP", "asksPR", "askCount", "asksS", "bidsB", "bidsBE", "bids", "bidsP", "bidsPR",
    "cbidsB", "cbidsBE", "cbidsP", "cbidsPR"];

pub fn query(r: &mut Rn, st: &Value, kind: &str) -> Value {
    let b = book(kind);
    let keys: Vec<String> = if b.is_empty() { vec!["colla".into(), "collb".into()] } else { st[b].as_object().unwrap().keys().cloned().collect() };
    let pick = keys.choose(r).cloned().unwrap_or("colla/0/alice".into());
    let (co, tk, mut us) = split(&pick);
    if b == "asks" {
        us = s(&st["asks"][&pick], "se");
    }
    if us.is_empty() {
        us = "alice".into();
    }
    let mut cur = if r.gen_bool(0.5) { 1 } else { 0 };
    // a cursor: an existing key of the same list, or an arbitrary one
    let (mut cc, mut ct, mut cu) = split(keys.choose(r).unwrap_or(&"colla/0/alice".to_string()));
    if cu.is_empty() {
        cu = "bobby".into();
    }
    if r.gen_bool(0.25) && !kind.ends_with("BE") {
        ct = ["0", "1", "2", "3", "7", "4294967295"].choose(r).unwrap().to_string();
        cu = ["alice", "bobby", "carol", "david", "aaaaa", "zzzzz"].choose(r).unwrap().to_string();
    }
    if kind == "colls" {
        cc = ["colla", "collb", "colaa", "collz"].choose(r).unwrap().to_string();
    }
    let mut ca = 0;
    if ["asksP", "asksPR", "bidsP", "bidsPR", "cbidsP", "cbidsPR"].contains(&kind) {
        cc = co.clone();
        let k = keys.choose(r).cloned().unwrap_or_default();
        ca = n(&st[b][&k], "a");
        if r.gen_bool(0.5) && !k.is_empty() {
            let (_, t, u) = split(&k);
            ct = t;
            if !u.is_empty() { cu = u; }
        }
        if ca > 1_900_000_000 { cur = 0; }
        ca = ca.max(0);
    }
    match kind {
        "asks" | "asksR" => cc = co.clone(),
        "asksS" => {}
        "bids" => { cc = co.clone(); ct = tk.clone() }
        "bidsB" | "cbidsB" => cu = us.clone(),
        "bidsBE" | "cbidsBE" => {
            cu = us.clone();
            // the cursor must be a bid of the same bidder
            let mine: Vec<&String> = keys.iter().filter(|k| split(k).2 == us).collect();
            match mine.choose(r) { Some(k) => { let (a, t, _) = split(k); cc = a; ct = t } None => cur = 0 }
        }
        _ => {}
    }
    if kind == "askCount" { cur = 0; }
    let page = if kind != "askCount" && r.gen_bool(0.25) { 1 } else { 0 };
    let lim = if page == 1 { r.gen_range(1..4) } else { pk(r, &[-1, -1, 0, 1, 2, 3, 100, 500]) };
    json!({"q": kind, "co": co, "tk": tk, "us": us, "inact": pk(r, &[-1, 0, 1, 1]), "lim": lim, "cur": if page == 1 { 0 } else { cur }, "ca": ca, "ct": ct, "cu": cu, "cc": cc, "page": page})
}
pub fn queries(r: &mut Rn, st: &Value, prop: &str) -> Vec<Value> {
    let k = if prop == "B10" { 6 } else if r.gen_bool(0.1) { 1 } else { 0 };
    (0..k).map(|_| { let q = QS.choose(r).unwrap(); query(r, st, q) }).collect()
}

/// a book with more entries than the largest page
pub fn big(r: &mut Rn, k: usize) -> (Value, Vec<Value>, Vec<Value>) {
    let root = json!({"cfg": {"tf": 200, "an": 0, "ax": 20000, "bn": 0, "bx": 20000, "mf": 1000, "mn": 1, "sd": 100, "rw": 100, "lf": 0,
        "ops": ["opera"], "sh": "", "ht": false}, "scale": "1", "unit": 1, "many": k});
    let mut ops = vec![];
    for i in 0..k {
        let tk = (10 + (i * 37) % (2 * k + 1)).to_string();
        let a = 1 + (i as i64 * 13) % 7 + if i % 3 == 0 { 300 } else { 0 };
        let ex = 1000 * (1 + (i as i64 * 7) % 40) + r.gen_range(0..1000);
        ops.push(json!({"k": "Mint", "s": "admin", "co": "colla", "tk": tk, "to": "alice"}));
        ops.push(json!({"k": "Appr", "s": "alice", "co": "colla", "tk": tk, "ex": -1}));
        ops.push(json!({"k": "SetAsk", "s": "alice", "f": [], "co": "colla", "tk": tk, "ty": "auction", "d": "ustars", "a": a, "fr": "", "rf": "", "ff": -1, "ex": ex}));
        if i % 5 == 4 {
            ops.push(json!({"k": "Unap", "s": "alice", "co": "colla", "tk": tk}));
            ops.push(json!({"k": "SyncAsk", "s": "opera", "f": [], "co": "colla", "tk": tk}));
        }
        ops.push(json!({"k": "SetBid", "s": "bobby", "f": [{"d": "ustars", "a": a + 1000}], "co": "colla", "tk": tk, "fi": "", "ff": 100, "ex": ex + 5, "ty": "auction"}));
        let us = format!("u{:04}", (i * 31) % k);
        ops.push(json!({"k": "SetCBid", "s": us, "f": [{"d": "ustars", "a": a}], "co": "colla", "ff": -1, "ex": ex}));
        ops.push(json!({"k": "SetBid", "s": us, "f": [{"d": "ustars", "a": a}], "co": "collb", "tk": "1", "fi": "", "ff": -1, "ex": ex, "ty": "auction"}));
    }
    let mut qs = vec![];
    for kind in QS {
        for (lim, cur) in [(-1, 0), (100, 0), (101, 0), (500, 1), (30, 2)] {
            let mut q = json!({"q": kind, "co": if kind == "bids" { "collb" } else { "colla" }, "tk": "1", "us": if kind.starts_with("ask") { "alice" } else if kind.starts_with("bid") { "bobby" } else { "u0003" },
                "inact": pk(r, &[-1, 0, 1]), "lim": lim, "cur": 0, "ca": 0, "ct": "0", "cu": "", "cc": "", "page": 0});
            if kind != "askCount" && kind != "colls" && cur == 1 {
                q["cur"] = json!(1);
                q["cc"] = q["co"].clone();
                q["ct"] = json!("10");
                q["cu"] = json!(if kind == "bids" { "u0001" } else if kind.starts_with("cbid") { "u0003" } else { "bobby" });
                if kind == "bids" { q["ct"] = json!("1"); }
                q["ca"] = json!(2);
            }
            if cur == 2 && kind != "askCount" {
                q["page"] = json!(1);
            }
            qs.push(q);
        }
    }
    (root, ops, qs)
}

/// many asks, bids on one token and collection bids at once
pub fn crowd(r: &mut Rn, prop: &str, k: usize) -> (Value, Vec<Value>) {
    let mut root = root(r, prop, false);
    let c = &mut root["cfg"];
    for (x, v) in [("an", 0), ("bn", 0), ("ax", 20000), ("bx", 20000), ("mf", 1000), ("mn", 1), ("lf", 0)] {
        c[x] = json!(v);
    }
    if n(c, "tf") > 9000 {
        c["tf"] = json!(200);
    }
    root["many"] = json!(k);
    let mut ops = vec![];
    for (i, (co, t)) in TOKENS.iter().enumerate() {
        ops.push(json!({"k": "Appr", "s": USERS[i % 2], "co": co, "tk": t, "ex": -1}));
    }
    if prop == "B09" {
        for h in KINDS {
            ops.push(json!({"k": "AddHook", "h": h, "x": "hooka"}));
        }
    }
    // also token ids beyond 8, 16 and 31 bits
    let far = [1, 1, 257, 65_537, 4_294_967_295 / (2 * k + 11)];
    let far = far[r.gen_range(0..5usize)];
    for i in 0..k {
        let tk = ((10 + (i * 37) % (2 * k + 1)) * far).to_string();
        let co = ["colla", "collb"][(i % 4 == 3) as usize];
        let o = USERS[i % 2];
        let a = 50 + r.gen_range(0..8);
        let ex = 1000 * r.gen_range(1..40i64);
        let us = format!("u{:04}", (i * 31) % k);
        ops.push(json!({"k": "Mint", "s": "admin", "co": co, "tk": tk, "to": o}));
        ops.push(json!({"k": "Appr", "s": o, "co": co, "tk": tk, "ex": -1}));
        let ty = if i % 3 == 0 { "auction" } else { "fixed_price" };
        ops.push(json!({"k": "SetAsk", "s": o, "f": [], "co": co, "tk": tk, "ty": ty, "d": "ustars", "a": a, "fr": "", "rf": "", "ff": -1, "ex": ex}));
        if i % 5 == 4 {
            ops.push(json!({"k": "Unap", "s": o, "co": co, "tk": tk}));
        }
        // many bids on one token, and one bid on many tokens
        ops.push(json!({"k": "SetBid", "s": us, "f": [{"d": "ustars", "a": a}], "co": "colla", "tk": "2", "fi": "", "ff": if i % 2 == 0 { 100 } else { -1 }, "ex": ex, "ty": "auction"}));
        ops.push(json!({"k": "SetBid", "s": "carol", "f": [{"d": "ustars", "a": if ty == "auction" { a } else { a - 1 }}], "co": co, "tk": tk, "fi": "", "ff": -1, "ex": ex + 5, "ty": ty}));
        ops.push(json!({"k": "SetCBid", "s": us, "f": [{"d": "ustars", "a": a}], "co": co, "ff": -1, "ex": ex}));
    }
    if r.gen_bool(0.5) {
        ops.push(json!({"k": "Tick", "s": "", "dt": 1000 * r.gen_range(5..30i64)}));
    }
    (root, ops)
}
