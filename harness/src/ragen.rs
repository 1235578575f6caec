//! Operation, probe and query generators for the reserve auction.
use crate::ra::*;
use crate::util::*;
use rand::seq::SliceRandom;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Value};

type Rn = ChaCha8Rng;
fn pk(r: &mut Rn, v: &[i64]) -> i64 {
    *v.choose(r).unwrap()
}
fn unit(root: &Value) -> i64 {
    n(root, "unit").max(1)
}

fn weights(p: &str) -> (Vec<(&'static str, u32)>, f64) {
    let mut w: Vec<(&'static str, u32)> = vec![
        ("Create", 14), ("UpdRes", 3), ("Cancel", 2), ("Bid", 30), ("Settle", 5), ("Begin", 7), ("End", 8),
        ("UpdParams", 3), ("SetMin", 2), ("UnsetMin", 1), ("Inst", 1), ("Migrate", 1),
        ("Tick", 22), ("Xfer", 2), ("Appr", 7), ("Unap", 1), ("ApprAll", 1), ("UnapAll", 1), ("Burn", 0), ("SetInfo", 2), ("Mint", 0),
    ];
    let mut wrong = 0.08;
    let mut up = |ks: &[&str], f: u32| for x in w.iter_mut() { if ks.contains(&x.0) { x.1 = x.1 * f + 1 } };
    match p {
        "C01" => up(&["Bid"], 2),
        "C02" => up(&["Settle", "Cancel", "Create", "Appr", "End"], 2),
        "C03" => { up(&["Bid", "UpdParams"], 2); wrong = 0.15 }
        "C04" => { up(&["Bid"], 2) }
        "C05" => { up(&["Settle", "SetInfo"], 2); wrong = 0.04 }
        "C06" => { up(&["Create", "Bid", "End", "Appr"], 2); wrong = 0.02 }
        "C07" => { up(&["Begin", "End", "Settle"], 2); wrong = 0.02 }
        "C08" => { up(&["UpdRes", "Cancel", "Create"], 3); up(&["SetMin", "UnsetMin"], 2); wrong = 0.2 }
        "C09" => { up(&["Create", "Appr"], 3); up(&["SetMin", "UnsetMin", "UpdRes"], 2); wrong = 0.2 }
        "C10" => { up(&["Create", "Bid", "Appr"], 2); wrong = 0.02 }
        "C11" => { up(&["UpdParams", "SetMin", "UnsetMin", "Inst", "Migrate"], 6); wrong = 0.15 }
        _ => {}
    }
    (w, wrong)
}

/// percentages in units of 10^-8; scaled runs use multiples of 0.02%
pub fn cfg(r: &mut Rn, u: i64, bad: bool) -> Value {
    let q = |x: i64| if u > 1 { ((x + 19_999) / 20_000 * 20_000).min(if x >= 100_000_000 { x } else { 99_980_000 }) } else { x };
    let mn = pkr(r, &[1, 10, 60, 300], 400);
    let mut c = json!({
        "fb": if r.gen_bool(0.6) { "faira" } else { "fairb" },
        "tf": q(pkr(r, &[2_000_000, 2_000_000, 1_000_000, 5_000_000, 1, 3_333_333, 50_000_000], 50_000_000)),
        "mi": q(pkr(r, &[1_000_000, 5_000_000, 20_000, 1, 3_333_333, 50_000_000, 99_999_999], 99_999_999)),
        "mn": mn, "mx": mn + pk(r, &[0, 60, 1000, 1000, 100_000]), "ex": pkr(r, &[1, 5, 30, 60, 600], 1000),
        "fd": if r.gen_bool(0.8) { "ustars" } else { "uatom" }, "fa": u * pk(r, &[0, 0, 10, 2, 4, 100]),
        "lim": pkr(r, &[1, 2, 3, 5, 10, 100], 20), "th": pkr(r, &[30, 60, 100, 600], 700), "bu": pkr(r, &[0, 1, 30, 60, 300], 400), "po": pkr(r, &[1, 30, 60, 600], 700),
        "m": [],
    });
    if u == 1 && r.gen_bool(0.4) {
        c["fa"] = json!(pk(r, &[1, 3, 5, 101]));
    }
    let mut m = vec![json!({"d": "ustars", "a": u * pk(r, &[0, 1, 5, 10, 50])})];
    if r.gen_bool(0.6) {
        m.push(json!({"d": "uatom", "a": u * pk(r, &[0, 1, 7])}));
    }
    if r.gen_bool(0.2) {
        m.push(json!({"d": "uosmo", "a": u * 3}));
    }
    m.shuffle(r);
    c["m"] = json!(m);
    if bad {
        match r.gen_range(0..10) {
            0 => c["mi"] = json!(0),
            1 => c["mi"] = json!(pk(r, &[100_000_000, 100_000_001, 200_000_000])),
            2 => c["mn"] = json!(0),
            3 => c["ex"] = json!(0),
            4 => c["fb"] = json!("XX"),
            5 => { let x = c["m"][0].clone(); c["m"].as_array_mut().unwrap().push(x) }
            6 => c["m"] = json!([]),
            7 => c["mx"] = json!((n(&c, "mn") - 1).max(0)),
            8 => { c["mi"] = json!(0); c["ex"] = json!(0) }
            _ => {}
        }
    }
    c
}

pub fn root(r: &mut Rn, prop: &str, scaled: bool) -> Value {
    let u = if scaled { 10_000 } else { 1 };
    let mut c = cfg(r, u, false);
    if r.gen_bool(0.08) {
        c["tf"] = json!(0);
    }
    if r.gen_bool(0.5) {
        // auctions long enough to have a life
        c["mn"] = json!(10);
        c["mx"] = json!(pk(r, &[100, 1000]));
        c["ex"] = json!(pk(r, &[5, 5, 20]));
    }
    if prop == "C07" {
        c["mn"] = json!(10);
        c["mx"] = json!(200);
        c["th"] = json!(pk(r, &[30, 60]));
        c["bu"] = json!(pk(r, &[0, 30, 60]));
        c["po"] = json!(pk(r, &[1, 30, 60]));
    }
    if prop == "C06" {
        c["lim"] = json!(pk(r, &[1, 2, 3, 2, 1, 2, 3, 0]));
    }
    json!({"cfg": c, "scale": if scaled { *["1000000000", "100000", "10000000000000000"].choose(r).unwrap() } else { "1" }, "unit": u, "tscale": stretch_of(r, scaled)})
}

pub fn prologue(r: &mut Rn, _root: &Value, _prop: &str) -> Vec<Value> {
    let mut v = vec![];
    for (i, (co, t)) in TOKENS.iter().enumerate() {
        if r.gen_bool(0.8) {
            v.push(json!({"k": "Appr", "s": USERS[i % 2], "co": co, "tk": t, "ex": -1}));
        }
    }
    if r.gen_bool(0.7) {
        v.push(json!({"k": "Begin", "s": ""}));
    }
    v
}

struct G<'a> {
    st: &'a Value,
    u: i64,
    wrong: f64,
    prop: &'a str,
}
pub fn ceil_mul(a: i64, n: i64) -> i64 {
    ((a as i128 * n as i128 + 99_999_999) / 100_000_000) as i64
}
impl<'a> G<'a> {
    fn now(&self) -> i64 {
        n(self.st, "t")
    }
    fn p(&self, k: &str) -> i64 {
        n(&self.st["pr"], k)
    }
    fn who(&self, r: &mut Rn) -> String {
        USERS.choose(r).unwrap().to_string()
    }
    fn w(&self, r: &mut Rn) -> bool {
        r.gen_bool(self.wrong)
    }
    fn own(&self, co: &str, tk: &str) -> String {
        s(&self.st["own"], &format!("{}/{}", co, tk))
    }
    fn aucs(&self) -> Vec<Value> {
        self.st["auc"].as_object().unwrap().values().cloned().collect()
    }
    fn none(&self, r: &mut Rn) -> Value {
        if r.gen_bool(self.wrong / 2.0) { stray(r, self.u) } else { json!([]) }
    }
    fn min_bid(&self, a: &Value) -> i64 {
        let x = if n(a, "fb") == -1 { n(a, "r") } else { ceil_mul(n(a, "ha"), 100_000_000 + self.p("mi")) };
        (x + self.u - 1) / self.u * self.u
    }
    /// another reserve price for an auction: often one near its own price, or near what its denom now demands
    fn changed_reserve(&self, r: &mut Rn, a: &Value) -> (String, i64) {
        if r.gen_bool(0.6) {
            return self.reserve(r);
        }
        let (u, x, d) = (self.u, n(a, "r"), s(a, "d"));
        let lo = self.st["mrp"][&d].as_i64().unwrap_or(x);
        let mid = (x / 2 + lo / 2) / u * u;
        let v = pk(r, &[x, x + u, x - u, lo, lo - u, lo + u, mid, mid + u]);
        (d, v.clamp(0, MAXA))
    }
    fn reserve(&self, r: &mut Rn) -> (String, i64) {
        let m = self.st["mrp"].as_object().unwrap();
        let u = self.u;
        let ks: Vec<&String> = m.keys().filter(|k| *k != "uosmo").collect();
        let d = if ks.is_empty() || self.w(r) { ["ustars", "uatom", "uosmo", "ustar"].choose(r).unwrap().to_string() } else { ks.choose(r).unwrap().to_string() };
        let lo = m.get(&d).and_then(|x| x.as_i64()).unwrap_or(5);
        let a = match r.gen_range(0..10) {
            0..=2 => lo,
            3..=5 => lo + u * r.gen_range(0..20),
            6 => lo + u * if u == 1 { r.gen_range(0..100_000) } else { r.gen_range(0..200) },
            _ => lo.max(100 * u.min(50)),
        };
        let a = if self.w(r) { (lo - u).max(0) } else { a };
        let a = if a > MAXA || r.gen_bool(0.01) { MAXA } else { a };
        (d, a)
    }
    fn dur(&self, r: &mut Rn) -> i64 {
        let (a, b) = (self.p("mn"), self.p("mx"));
        if self.w(r) {
            return pk(r, &[a - 1, b + 1, 0, 2_000_000_000]).max(0);
        }
        if b <= a || r.gen_bool(0.3) {
            return *[a, b.max(a)].choose(r).unwrap();
        }
        r.gen_range(a..b.min(a + 300) + 1)
    }
    fn fee(&self, r: &mut Rn) -> Value {
        let (d, a, u) = (s(&self.st["pr"], "fd"), self.p("fa"), self.u);
        let e = |d: &str, a: i64| if a > 0 { json!([{"d": d, "a": a}]) } else { json!([]) };
        if !self.w(r) {
            return e(&d, a);
        }
        let o = if d == "ustars" { "uatom" } else { "ustars" };
        match r.gen_range(0..6) {
            0 => e(&d, a + u),
            1 => e(&d, a - u),
            2 => json!([]),
            3 => e(o, a.max(u)),
            4 => json!([{"d": "uatom", "a": a.max(u)}, {"d": "ustars", "a": a.max(u)}]),
            _ => e(&d, 2 * a + u),
        }
    }
    /// who may bid, preferring others than the seller and the standing bidder
    fn bidder(&self, r: &mut Rn, a: &Value) -> String {
        let w = self.who(r);
        if w == s(a, "se") && !self.w(r) { USERS.iter().find(|x| **x != w).unwrap().to_string() } else { w }
    }
    fn bid(&self, r: &mut Rn, a: &Value) -> Value {
        let (d, u) = (s(a, "d"), self.u);
        let lo = self.min_bid(a);
        let mut x = lo + u * pk(r, &[0, 0, 0, 1, 3, 10, 37]);
        let mut f = json!([{"d": d, "a": x}]);
        if self.w(r) {
            let o = if d == "ustars" { "uatom" } else { "ustars" };
            f = match r.gen_range(0..7) {
                0 | 1 => { x = lo - u; json!([{"d": d, "a": x}]) }
                2 => json!([]),
                3 => json!([{"d": o, "a": lo}]),
                4 => json!([{"d": "uatom", "a": lo}, {"d": "ustars", "a": lo}]),
                5 => json!([{"d": d, "a": n(a, "ha")}]),
                _ => json!([{"d": d, "a": n(a, "r")}]),
            };
        }
        if x <= 0 || f.as_array().unwrap().iter().any(|c| n(c, "a") <= 0) {
            f = if n(a, "r") == 0 && n(a, "fb") == -1 && r.gen_bool(0.7) { json!([{"d": d, "a": u * pk(r, &[1, 2, 30])}]) } else { json!([]) };
        }
        json!({"k": "Bid", "s": self.bidder(r, a), "f": f, "co": s(a, "co"), "tk": s(a, "tk")})
    }
    /// moments at which something changes, near ones first
    fn edges(&self) -> Vec<i64> {
        let now = self.now();
        let mut c = vec![];
        for a in self.aucs() {
            if n(&a, "fb") != -1 {
                let en = n(&a, "en");
                let sec = en.div_euclid(1000) * 1000;
                c.extend([en, sec, sec - self.p("ex") * 1000, en - self.p("ex") * 1000]);
            }
        }
        for w in self.st["hm"]["win"].as_array().unwrap() {
            c.extend([n(w, "s") * 1000, n(w, "e") * 1000]);
        }
        for (_, e) in self.st["apr"].as_object().unwrap() { c.push(e.as_i64().unwrap()); }
        for (_, i) in self.st["cinfo"].as_object().unwrap() { c.push(n(i, "stt")); }
        let prev = n(&self.st["hm"], "prev");
        if prev >= 0 {
            c.push((prev + self.p("th")) * 1000);
        }
        c.retain(|x| *x > now);
        c.sort();
        c.dedup();
        c
    }
    fn tick(&self, r: &mut Rn) -> Option<Value> {
        let now = self.now();
        if now > 800_000_000 {
            return None;
        }
        let c = self.edges();
        let far = if self.prop == "C07" || self.prop == "C06" { 0.35 } else { 0.15 };
        let dt = if !c.is_empty() && r.gen_bool(0.65) {
            let t = c[r.gen_range(0..c.len().min(4))] + pk(r, &[0, 0, -1, 1, -1000, 1000, 500, -500]);
            if t > now { t - now } else { 1 }
        } else if r.gen_bool(far) {
            (self.p("th") + pk(r, &[0, 0, -1, 1, 20])).max(1) * 1000 + pk(r, &[0, 0, -1, 999])
        } else {
            pk(r, &[1, 400, 999, 1000, 1001, 5000, 5000, 6000, 20_000])
        };
        Some(json!({"k": "Tick", "s": "", "dt": dt.max(1)}))
    }
    fn make(&self, r: &mut Rn, k: &str) -> Option<Value> {
        let st = self.st;
        let (co, tk) = {
            let (c, t) = TOKENS.choose(r).unwrap();
            (c.to_string(), t.to_string())
        };
        let aucs = self.aucs();
        Some(match k {
            "Create" => {
                let o = self.own(&co, &tk);
                if !USERS.contains(&o.as_str()) && !self.w(r) { return None; }
                let snd = if !USERS.contains(&o.as_str()) || self.w(r) { self.who(r) } else { o };
                if n(&st["apr"], &format!("{}/{}", co, tk)) == -2 && r.gen_bool(0.75) {
                    return self.make(r, "Appr");
                }
                let (d, a) = self.reserve(r);
                let fr = if r.gen_bool(0.3) { if r.gen_bool(0.08) { "XX" } else { ["fundr", "bobby", "findx", "alice"].choose(r).unwrap() } } else { "" };
                json!({"k": k, "s": snd, "f": self.fee(r), "co": co, "tk": tk, "d": d, "a": a, "du": self.dur(r), "fr": fr})
            }
            "UpdRes" | "Cancel" => {
                let fresh: Vec<&Value> = aucs.iter().filter(|a| n(a, "fb") == -1).collect();
                let a = if r.gen_bool(0.7) && !fresh.is_empty() { (*fresh.choose(r).unwrap()).clone() } else { aucs.choose(r)?.clone() };
                let snd = if self.w(r) { self.who(r) } else { s(&a, "se") };
                let mut o = json!({"k": k, "s": snd, "f": self.none(r), "co": s(&a, "co"), "tk": if r.gen_bool(0.03) { "9".into() } else { s(&a, "tk") }});
                if k == "UpdRes" {
                    let (d, x) = self.changed_reserve(r, &a);
                    o["d"] = json!(d);
                    o["a"] = json!(x);
                }
                o
            }
            "Bid" => {
                if r.gen_bool(0.02) {
                    return Some(json!({"k": k, "s": self.who(r), "f": [{"d": "ustars", "a": 50 * self.u}], "co": co, "tk": tk}));
                }
                let now = self.now();
                let live: Vec<&Value> = aucs.iter().filter(|a| n(a, "fb") == -1 || n(a, "en") > now - 1000).collect();
                let a = if r.gen_bool(0.9) { (*live.choose(r)?).clone() } else { aucs.choose(r)?.clone() };
                if n(&a, "ha") > 20_000_000 || n(&a, "r") > 20_000_000 { return None; }
                if !DENOMS.contains(&s(&a, "d").as_str()) { return None; }
                self.bid(r, &a)
            }
            "Settle" => {
                let now = self.now();
                let over: Vec<&Value> = aucs.iter().filter(|a| n(a, "fb") != -1 && n(a, "en") <= now + 1000).collect();
                let a = if r.gen_bool(0.8) { (*over.choose(r)?).clone() } else { aucs.choose(r)?.clone() };
                json!({"k": k, "s": if r.gen_bool(0.1) { "findx".into() } else { self.who(r) }, "f": self.none(r), "co": s(&a, "co"), "tk": s(&a, "tk")})
            }
            "Begin" | "End" => json!({"k": k, "s": ""}),
            "UpdParams" => {
                let bad = r.gen_bool(0.12 + self.wrong);
                let mut c = cfg(r, self.u, bad);
                if r.gen_bool(0.05) { c["tf"] = json!(0); }
                if r.gen_bool(0.03) { c["lim"] = json!(0); }
                if n(&c, "mn") > n(&st["pr"], "mx") && r.gen_bool(0.85) { c["mn"] = json!(n(&st["pr"], "mx").min(10)); }
                if r.gen_bool(0.03) { c["th"] = json!(0); }
                if r.gen_bool(0.03) { c["mn"] = json!(n(&st["pr"], "mx") + 5); }
                let mut p = json!({});
                let all = r.gen_bool(0.1);
                for k in ["fb", "tf", "mi", "mn", "ex", "lim", "th", "bu", "po"] {
                    let off = bad && ((n(&c, k) == 0 && ["mi", "mn", "ex"].contains(&k)) || c[k] == json!("XX") || (k == "mi" && n(&c, k) >= 100_000_000));
                    if all || r.gen_bool(0.25) || off {
                        p[k] = c[k].clone();
                    }
                }
                if all || r.gen_bool(0.25) {
                    p["fd"] = c["fd"].clone();
                    p["fa"] = c["fa"].clone();
                }
                json!({"k": k, "s": "", "p": p})
            }
            "SetMin" => {
                let have: Vec<String> = st["mrp"].as_object().unwrap().keys().cloned().collect();
                let mut m = vec![];
                for d in ["ustars", "uatom", "uosmo", "ujuno"] {
                    if (!have.contains(&d.to_string()) && r.gen_bool(0.6)) || r.gen_bool(0.07 + self.wrong) {
                        let mut x = if r.gen_bool(0.01) { MAXA } else { self.u * pk(r, &[0, 1, 5, 20, 60]) };
                        // a little more than an open auction asks
                        let open: Vec<i64> = self.aucs().iter().filter(|a| s(a, "d") == d && n(a, "fb") == -1 && n(a, "r") < 20_000_000).map(|a| n(a, "r")).collect();
                        if !open.is_empty() && r.gen_bool(0.35) {
                            x = open.choose(r).unwrap() + self.u * pk(r, &[1, 2, 10]);
                        }
                        m.push(json!({"d": d, "a": x}));
                    }
                }
                m.shuffle(r);
                if !m.is_empty() && r.gen_bool(if self.prop == "C11" { 0.25 } else { 0.08 }) {
                    let mut x = m[0].clone();
                    if r.gen_bool(0.5) { x["a"] = json!(self.u * 7); }
                    m.push(x);
                }
                json!({"k": k, "s": "", "m": m})
            }
            "UnsetMin" => {
                let have: Vec<String> = st["mrp"].as_object().unwrap().keys().cloned().collect();
                let mut ds: Vec<String> = have.choose(r).cloned().into_iter().collect();
                if r.gen_bool(0.3) { ds.push(["ustars", "uatom", "uosmo", "ujuno"].choose(r).unwrap().to_string()); }
                ds.shuffle(r);
                json!({"k": k, "s": "", "ds": ds})
            }
            "Inst" => { let bad = r.gen_bool(0.6); json!({"k": k, "s": "admin", "cfg": cfg(r, self.u, bad)}) }
            "Migrate" => json!({"k": k, "s": "admin", "ver": *["same", "1.0.0", "0.1.0", "99.0.0"].choose(r).unwrap(), "other": false, "name": ""}),
            "Tick" => self.tick(r)?,
            "Xfer" => {
                let o = self.own(&co, &tk);
                if !USERS.contains(&o.as_str()) { return None; }
                let to = if r.gen_bool(0.08) { "auct".into() } else { self.who(r) };
                json!({"k": k, "s": o, "co": co, "tk": tk, "to": to})
            }
            "Appr" | "Unap" => {
                let o = self.own(&co, &tk);
                if !USERS.contains(&o.as_str()) { return None; }
                let mut x = json!({"k": k, "s": o, "co": co, "tk": tk});
                if k == "Appr" { x["ex"] = json!(if r.gen_bool(0.85) { -1 } else { self.now() + pk(r, &[1, 1000, 60_000]) }); }
                x
            }
            "ApprAll" | "UnapAll" => json!({"k": k, "s": self.who(r), "co": co}),
            "SetInfo" => {
                let q = |x: i64| if self.u > 1 { x / 20_000 * 20_000 } else { x };
                let rr = ["royal", "royal", "royal", "carol", "alice", "bobby", "findx", "fundr", ""].choose(r).unwrap();
                let rs = if self.prop == "C05" && r.gen_bool(0.3) { pk(r, &[60_000_000, 90_000_000, 98_000_000]) }
                    else { q(pkr(r, &[0, 1, 1_000_000, 5_000_000, 3_333_333, 12_345_678, 40_000_000], 40_000_000)) };
                let stt = if r.gen_bool(0.7) { -1 } else { (self.now() + pk(r, &[-1000, 0, 1, 5000, 60_000])).max(0) };
                let ft = r.gen_bool(if self.prop == "C06" { 0.0 } else { 0.05 });
                json!({"k": k, "s": "admin", "co": co, "info": {"ok": r.gen_bool(0.85), "stt": stt, "rr": rr, "rs": rs, "ft": ft}})
            }
            _ => return None,
        })
    }
}

pub fn op(r: &mut Rn, st: &Value, root: &Value, prop: &str) -> Value {
    let (w, wrong) = weights(prop);
    let g = G { st, u: unit(root), wrong, prop };
    // an ended auction on the books: mostly finish it soon
    let now = n(st, "t");
    let due = g.aucs().iter().any(|a| n(a, "fb") != -1 && n(a, "en") <= now);
    if due && r.gen_bool(0.25) {
        let k = if r.gen_bool(0.6) { "End" } else { "Settle" };
        if let Some(o) = g.make(r, k) {
            return o;
        }
    }
    let tot: u32 = w.iter().map(|x| x.1).sum();
    for _ in 0..60 {
        let mut x = r.gen_range(0..tot);
        for (k, wt) in &w {
            if x < *wt {
                if let Some(o) = g.make(r, k) {
                    return o;
                }
                break;
            }
            x -= wt;
        }
    }
    json!({"k": "Tick", "s": "", "dt": 5000})
}

/// the operations a property says must (or must not) be possible in the present state
pub fn probes(r: &mut Rn, st: &Value, root: &Value, prop: &str) -> Vec<Value> {
    let u = unit(root);
    let g = G { st, u, wrong: 0.0, prop };
    let mut v = vec![];
    let e = json!([]);
    let aucs = g.aucs();
    let now = g.now();
    let id = |k: &str, w: String, a: &Value| json!({"k": k, "s": w, "f": e, "co": s(a, "co"), "tk": s(a, "tk")});
    match prop {
        "C01" | "C03" | "C04" => {
            for a in &aucs {
                if !DENOMS.contains(&s(a, "d").as_str()) { continue; }
                let lo = g.min_bid(a);
                if lo > 30_000_000 { continue; }
                for x in [lo, lo - u] {
                    if x > 0 {
                        v.push(json!({"k": "Bid", "s": g.bidder(r, a), "f": [{"d": s(a, "d"), "a": x}], "co": s(a, "co"), "tk": s(a, "tk")}));
                    }
                }
                if prop == "C03" {
                    v.push(json!({"k": "Bid", "s": s(a, "se"), "f": [{"d": s(a, "d"), "a": lo.max(u)}], "co": s(a, "co"), "tk": s(a, "tk")}));
                    let o = if s(a, "d") == "ustars" { "uatom" } else { "ustars" };
                    v.push(json!({"k": "Bid", "s": g.bidder(r, a), "f": [{"d": o, "a": lo.max(u)}], "co": s(a, "co"), "tk": s(a, "tk")}));
                }
            }
        }
        "C02" | "C05" | "C07" => {
            for a in &aucs {
                if n(a, "fb") == -1 || n(a, "en") <= now + 2000 || r.gen_bool(0.3) {
                    v.push(id("Settle", g.who(r), a));
                }
                if prop == "C02" {
                    v.push(id("Cancel", s(a, "se"), a));
                }
            }
            v.push(json!({"k": "End", "s": ""}));
            if prop == "C07" {
                v.push(json!({"k": "Begin", "s": ""}));
            }
        }
        "C06" => v.push(json!({"k": "End", "s": ""})),
        "C12" => {
            v.push(json!({"k": "End", "s": ""}));
            v.push(json!({"k": "Begin", "s": ""}));
            for a in &aucs {
                v.push(id("Settle", g.who(r), a));
            }
        }
        "C08" => {
            for a in &aucs {
                let mut c: Vec<String> = ["hb", "fr"].iter().map(|k| s(a, k)).collect();
                c.extend([g.who(r), "admin".into(), s(&st["pr"], "fb")]);
                c.retain(|x| !x.is_empty() && x != "XX");
                for w in [s(a, "se"), c.choose(r).unwrap().clone(), c.choose(r).unwrap().clone()] {
                    v.push(id("Cancel", w.clone(), a));
                    let (d, x) = g.changed_reserve(r, a);
                    let mut o = id("UpdRes", w, a);
                    o["d"] = json!(d);
                    o["a"] = json!(if r.gen_bool(0.2) { (n(&st["mrp"], &d) - u).max(0) } else { x });
                    v.push(o);
                }
            }
        }
        "C09" => {
            for _ in 0..4 {
                v.extend(g.make(r, "Create"));
                v.extend(G { st, u, wrong: 0.3, prop }.make(r, "Create"));
            }
            for a in &aucs {
                v.push(json!({"k": "Create", "s": s(a, "se"), "f": g.fee(r), "co": s(a, "co"), "tk": s(a, "tk"), "d": "ustars", "a": 100 * u, "du": g.dur(r), "fr": ""}));
            }
        }
        "C11" => {
            for k in ["UpdParams", "Inst", "Migrate", "SetMin", "UnsetMin"] {
                v.extend(G { st, u, wrong: 0.2, prop }.make(r, k));
            }
        }
        _ => {}
    }
    v.retain(|o| o["f"].as_array().map_or(true, |f| f.iter().all(|c| n(c, "a") > 0)));
    v.shuffle(r);
    v.truncate(5);
    if prop == "C01" {
        // coins attached where none are taken
        let ks = ["UpdRes", "Cancel", "Settle"];
        for k in ks.choose_multiple(r, 3) {
            if let Some(mut o) = g.make(r, k) {
                o["f"] = stray(r, u);
                v.push(o);
            }
        }
    }
    v
}

const QS: [&str; 5] = ["mrp", "seller", "seller", "end", "end"];
pub fn query(r: &mut Rn, st: &Value, kind: &str) -> Value {
    let keys: Vec<String> = st[if kind == "mrp" { "mrp" } else { "auc" }].as_object().unwrap().keys().cloned().collect();
    let pick = keys.choose(r).cloned().unwrap_or("colla/1".into());
    let (mut cc, mut ct) = match pick.split_once('/') { Some((a, b)) => (a.to_string(), b.to_string()), None => (pick.clone(), String::new()) };
    if r.gen_bool(0.25) {
        if kind == "mrp" {
            cc = ["ua", "uatomx", "ustars", "zzz", "a"].choose(r).unwrap().to_string();
        } else {
            cc = ["colla", "collb", "colaa", "collz"].choose(r).unwrap().to_string();
            ct = ["0", "1", "10", "100", "2", "7", "9"].choose(r).unwrap().to_string();
        }
    }
    let us = match st["auc"].as_object().unwrap().values().collect::<Vec<_>>().choose(r) {
        Some(a) if r.gen_bool(0.8) => s(a, "se"),
        _ => USERS.choose(r).unwrap().to_string(),
    };
    // the time asked for: an auction's end second, its neighbours, the present, long ago
    let mut ts = vec![n(st, "t").div_euclid(1000), -1000, 0];
    for a in st["auc"].as_object().unwrap().values() {
        if n(a, "en") != -1 {
            let x = n(a, "en").div_euclid(1000);
            ts.extend([x, x, x - 1, x + 1]);
        }
    }
    let et = pk(r, &ts);
    let desc = r.gen_bool(0.4);
    let page = if r.gen_bool(0.2) { 1 } else { 0 };
    let lim = if page == 1 { r.gen_range(1..4) } else { pk(r, &[-1, -1, -1, 0, 1, 2, 3, 100, 500]) };
    let cur = if page == 0 && r.gen_bool(0.5) { 1 } else { 0 };
    json!({"q": kind, "us": us, "et": et, "lim": lim, "desc": desc, "dnull": r.gen_bool(0.3), "noopt": r.gen_bool(0.5), "cur": cur, "cc": cc, "ct": ct, "page": page})
}
pub fn queries(r: &mut Rn, st: &Value, prop: &str) -> Vec<Value> {
    let k = if prop == "C10" { 6 } else if r.gen_bool(0.1) { 1 } else { 0 };
    (0..k).map(|_| { let q = QS.choose(r).unwrap(); query(r, st, q) }).collect()
}

/// more auctions and denoms than the largest page
pub fn big(r: &mut Rn, k: usize) -> (Value, Vec<Value>, Vec<Value>) {
    let root = json!({"cfg": {"fb": "faira", "tf": 2_000_000, "mi": 1_000_000, "mn": 10, "mx": 1000, "ex": 5, "fd": "ustars", "fa": 0, "lim": 100,
        "th": 100, "bu": 30, "po": 60, "m": [{"d": "ustars", "a": 1}]}, "scale": "1", "unit": 1, "many": 8});
    let mut ops = vec![];
    let m: Vec<Value> = (0..k).map(|i| json!({"d": format!("ibc{:03}", (i * 37) % 1000), "a": i})).collect();
    ops.push(json!({"k": "SetMin", "s": "", "m": m}));
    for i in 0..k {
        let tk = (10 + (i * 37) % (2 * k + 1)).to_string();
        ops.push(json!({"k": "Mint", "s": "admin", "co": "colla", "tk": tk, "to": "alice"}));
        ops.push(json!({"k": "Appr", "s": "alice", "co": "colla", "tk": tk, "ex": -1}));
        ops.push(json!({"k": "Create", "s": "alice", "f": [], "co": "colla", "tk": tk, "d": "ustars", "a": 5, "du": 10 + (i as i64 * 7) % 40, "fr": ""}));
        if i % 16 != 15 {
            ops.push(json!({"k": "Bid", "s": format!("u{:04}", i % 8), "f": [{"d": "ustars", "a": 10 + i}], "co": "colla", "tk": tk}));
        }
        if i % 9 == 8 {
            ops.push(json!({"k": "Tick", "s": "", "dt": pk(r, &[1, 400, 1000])}));
        }
    }
    let mut qs = vec![];
    for kind in ["mrp", "seller", "end"] {
        for (lim, cur) in [(-1, 0), (100, 0), (101, 0), (500, 1), (30, 2), (100, 2), (500, 0)] {
            for desc in [false, true] {
                qs.push(json!({"q": kind, "us": "alice", "et": if desc && kind == "end" { 200 } else { 0 }, "lim": lim, "desc": desc, "dnull": false, "noopt": false,
                    "cur": if cur == 1 { 1 } else { 0 }, "cc": if kind == "mrp" { "ibc5" } else { "colla" }, "ct": "30", "page": if cur == 2 { 1 } else { 0 }}));
            }
        }
    }
    // several blocks' worth of ended auctions
    ops.push(json!({"k": "Tick", "s": "", "dt": 3000}));
    (root, ops, qs)
}

/// many auctions at once, then their ends
pub fn crowd(r: &mut Rn, prop: &str, k: usize) -> (Value, Vec<Value>) {
    let mut root = root(r, prop, false);
    let kk = k as i64;
    let c = &mut root["cfg"];
    c["lim"] = json!(pk(r, &[kk / 3 + 1, kk - 1, kk, kk + 5, 10, 11, 30, 31, 100, 101, 250]));
    c["fa"] = json!(0);
    c["mn"] = json!(10);
    c["mx"] = json!(200);
    c["m"] = json!([{"d": "ustars", "a": 1}, {"d": "uatom", "a": 2}]);
    let th = n(c, "th").max(30);
    c["th"] = json!(th);
    root["many"] = json!(8);
    let mut ops = vec![json!({"k": "Begin", "s": ""})];
    let spread = pk(r, &[1, 3, 20]);
    let name = *["", "", "item-", "Edition No. "].choose(r).unwrap();
    for i in 0..kk {
        let tk = format!("{}{}", name, 10 + (i * 37) % (2 * kk + 1));
        let o = USERS[(i % 3 == 0) as usize];
        let co = COLLS[(i % 5 == 4) as usize];
        let d = if i % 4 == 3 { "uatom" } else { "ustars" };
        ops.push(json!({"k": "Mint", "s": "admin", "co": co, "tk": tk, "to": o}));
        ops.push(json!({"k": "Appr", "s": o, "co": co, "tk": tk, "ex": -1}));
        ops.push(json!({"k": "Create", "s": o, "f": [], "co": co, "tk": tk, "d": d, "a": 5 + r.gen_range(0..3), "du": 10 + r.gen_range(0..spread), "fr": if i % 7 == 6 { "fundr" } else { "" }}));
        if i % 11 != 10 {
            ops.push(json!({"k": "Bid", "s": format!("u{:04}", i % 8), "f": [{"d": d, "a": 100 + r.gen_range(0..500)}], "co": co, "tk": tk}));
        }
        if i % 9 == 8 {
            ops.push(json!({"k": "Tick", "s": "", "dt": pk(r, &[1, 400, 1000])}));
        }
    }
    let halt = prop == "C07" || r.gen_bool(0.25);
    ops.push(json!({"k": "Begin", "s": ""}));
    ops.push(json!({"k": "Tick", "s": "", "dt": if halt { th * 1000 + 500 } else { 1000 * pk(r, &[4, 9, 10, 31]) + 500 }}));
    ops.push(json!({"k": "Begin", "s": ""}));
    ops.push(json!({"k": "End", "s": ""}));
    (root, ops)
}
