use crate::tree::Tree;
use crate::util::*;
use crate::v2::*;
use crate::v2gen::*;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Value};

type Arg<'a> = &'a dyn Fn(&str, &str) -> String;

/// listing fees are not queryable: the generator tracks what it set (the specification tracks
/// them on its own)
fn track(fees: &mut Value, op: &Value, ok: bool) {
    if ok && s(op, "k") == "SetFee" {
        fees[s(op, "d")] = op["a"].clone();
    }
    if ok && s(op, "k") == "RemFee" {
        fees.as_object_mut().unwrap().remove(&s(op, "d"));
    }
}

struct Run {
    w: W2,
    t: Tree,
}
impl Run {
    /// Err: a one-record log saying that a valid configuration was refused
    fn new(cfg: &Value, scale: u128) -> Result<(Run, usize, Value), Tree> {
        let mut t = Tree::new(MAPS.to_vec());
        match W2::new(cfg, scale) {
            Some(mut w) => {
                let st = w.project("");
                let r = t.root(&st, json!({"ok": true, "cfg": cfg, "scale": scale.to_string()}));
                Ok((Run { w, t }, r, st))
            }
            None => {
                t.root(&json!({"cfg": cfg}), json!({"ok": false, "cfg": cfg, "scale": scale.to_string()}));
                Err(t)
            }
        }
    }
    fn step(&mut self, p: usize, op: &Value, pre: &Value, fees: &mut Value) -> (usize, Value) {
        let (op, ok, err, ev, out, post) = self.w.step(op, pre);
        track(fees, &op, ok);
        let i = self.t.child(p, op, ok, &err, ev, out, pre, &post);
        (i, post)
    }
    /// branch: run `op` on a snapshot, log it, restore
    fn probe(&mut self, p: usize, op: &Value, pre: &Value) {
        let sn = self.w.snap();
        let mut f = json!({});
        self.step(p, op, pre, &mut f);
        self.w.restore(&sn);
    }
    fn queries(&mut self, i: usize, st: &Value, r: &mut ChaCha8Rng, k: usize) {
        let mut qs = vec![];
        for _ in 0..k {
            let mut q = self.w.gen_query(r, st);
            let paged = s(&q, "q").len() > 5 && r.gen_bool(0.2);
            let res = if paged {
                let lim = r.gen_range(1..4);
                for f in ["mk", "xk"] {
                    q[f] = json!("");
                }
                q["desc"] = json!(r.gen_range(0..2));
                let res = self.w.page_all(&q, st, lim);
                q["lim"] = json!(-2);
                res
            } else {
                self.w.query(&q, st)
            };
            q["res"] = res;
            qs.push(q);
        }
        if !qs.is_empty() {
            self.t.recs[i]["q"] = json!(qs);
            self.t.recs[i]["rank"] = self.w.ranks();
        }
    }
}

fn cancels(st: &Value) -> Vec<Value> {
    let mut v = vec![];
    for (c, k) in [("asks", "RemAsk"), ("bids", "RemBid"), ("cbids", "RemCBid")] {
        for (id, o) in st[c].as_object().unwrap() {
            v.push(json!({"k": k, "s": s(o, "cr"), "f": [], "id": id}));
        }
    }
    v
}

fn prologue(r: &mut ChaCha8Rng, unit: i64) -> Vec<Value> {
    let mut v = vec![];
    v.push(json!({"k": "SetFee", "s": "admin", "f": [], "d": "ustars", "a": unit * if r.gen_bool(0.5) { 5 } else { 1 }}));
    if r.gen_bool(0.4) {
        v.push(json!({"k": "SetFee", "s": "admin", "f": [], "d": "uatom", "a": unit * 3}));
    }
    if r.gen_bool(0.3) {
        v.push(json!({"k": "UpdDenom", "s": "admin", "f": [], "co": "collb", "d": "uatom"}));
    }
    for u in USERS {
        for co in COLLS {
            if r.gen_bool(0.93) {
                v.push(json!({"k": "ApprAll", "s": u, "co": co}));
            }
        }
    }
    v
}

/// One random walk with probes.
fn walk(seed: u64, prop: &str, len: usize, scale: u128, unit: i64) -> Tree {
    let mut r = ChaCha8Rng::seed_from_u64(seed);
    let mut p = profile(prop);
    p.unit = unit;
    let cfg = gen_cfg(&mut r, unit, false);
    let (mut run, mut cur, mut st) = match Run::new(&cfg, scale) { Ok(x) => x, Err(t) => return t };
    let mut fees = json!({});
    for op in prologue(&mut r, unit) {
        let (i, s2) = run.step(cur, &op, &st, &mut fees);
        cur = i;
        st = s2;
    }
    drive(&mut run, cur, st, fees, &mut r, &p, prop, len);
    run.t
}

fn drive(run: &mut Run, mut cur: usize, mut st: Value, mut fees: Value, r: &mut ChaCha8Rng, p: &Prof, prop: &str, len: usize) {
    let qn = match prop { "A09" => 6, "A04" | "A01" => 1, _ => 0 };
    for i in 0..len {
        let op = G { st: &st, fees: &fees, p: p }.op(r);
        let (j, s2) = run.step(cur, &op, &st, &mut fees);
        cur = j;
        st = s2;
        run.queries(cur, &st, r, qn);
        let pr = if prop == "A10" { 0.25 } else { 0.04 };
        if r.gen_bool(pr) || i + 1 == len {
            for c in cancels(&st) {
                run.probe(cur, &c, &st);
            }
        }
        if r.gen_bool(0.4) {
            for op in probes(r, &st, &fees, p, prop) {
                run.probe(cur, &op, &st);
            }
        }
        if r.gen_bool(0.10) {
            // a few alternative next steps from the same state
            for _ in 0..3 {
                let op = G { st: &st, fees: &fees, p: p }.op(r);
                run.probe(cur, &op, &st);
            }
        }
    }
}

/// Many asks, bids and collection bids, some in another denom, then random steps.
fn crowd(seed: u64, prop: &str, k: usize, len: usize) -> Tree {
    let mut r = ChaCha8Rng::seed_from_u64(seed);
    let p = profile(prop);
    let cfg = gen_cfg(&mut r, 1, false);
    let d0 = s(&cfg, "dd");
    let d1 = if d0 == "ustars" { "uatom" } else { "ustars" };
    let (mut run, mut cur, mut st) = match Run::new(&cfg, 1) { Ok(x) => x, Err(t) => return t };
    let mut fees = json!({});
    let mut ops = prologue(&mut r, 1);
    ops.retain(|o| s(o, "k") != "UpdDenom");
    ops.push(json!({"k": "SetFee", "s": "admin", "f": [], "d": "ustars", "a": 1}));
    // the second time round, in the other denom
    let mut no = 0;
    let name = *["", "", "item-", "Edition No. "].choose(&mut r).unwrap();
    for d in [d0.as_str(), d1, d0.as_str()] {
        for co in COLLS {
            ops.push(json!({"k": "UpdDenom", "s": "admin", "f": [], "co": co, "d": d}));
        }
        for _ in 0..k / 3 {
            no += 1;
            let tk = format!("{}{}", name, 10 + (no * 37) % (2 * k + 1));
            let o = USERS[no % 2];
            let co = COLLS[(no % 4 == 3) as usize];
            let a = 100 + r.gen_range(0..12i64);
            ops.push(json!({"k": "Mint", "s": "admin", "co": co, "tk": tk, "to": o}));
            ops.push(json!({"k": "ApprAll", "s": o, "co": co}));
            ops.push(json!({"k": "SetAsk", "s": o, "f": [{"d": "ustars", "a": 1}], "co": co, "tk": tk, "d": d, "a": a, "rc": "", "fi": ""}));
            let b = 99 - r.gen_range(0..12i64);
            ops.push(json!({"k": "SetBid", "s": USERS[no % 3], "f": [{"d": d, "a": b}], "co": co, "tk": if no % 2 == 0 { "1".to_string() } else { tk }, "d": d, "a": b, "rc": "", "fi": ""}));
            let b = 99 - r.gen_range(0..12i64);
            ops.push(json!({"k": "SetCBid", "s": USERS[no % 3 + 1], "f": [{"d": d, "a": b}], "co": co, "d": d, "a": b, "rc": "", "fi": if no % 5 == 0 { "findx" } else { "" }}));
        }
    }
    for op in ops {
        let (i, s2) = run.step(cur, &op, &st, &mut fees);
        cur = i;
        st = s2;
    }
    drive(&mut run, cur, st, fees, &mut r, &p, prop, len);
    run.t
}

/// Many orders on one token/collection, to exercise default and maximum page sizes.
fn bigbook(seed: u64, nn: usize) -> Tree {
    let mut r = ChaCha8Rng::seed_from_u64(seed);
    let cfg = gen_cfg(&mut r, 1, false);
    let d = s(&cfg, "dd");
    let (mut run, mut cur, mut st) = match Run::new(&cfg, 1) { Ok(x) => x, Err(t) => return t };
    let mut fees = json!({});
    let mut ops = vec![json!({"k": "SetFee", "s": "admin", "f": [], "d": "ustars", "a": 1})];
    for u in ["alice", "bobby"] {
        ops.push(json!({"k": "ApprAll", "s": u, "co": "colla"}));
    }
    for i in 0..nn {
        let a = 100 + r.gen_range(0..(nn as i64 / 2).max(2));
        let u = if r.gen_bool(0.9) { "alice" } else { "bobby" };
        match i % 3 {
            0 => ops.push(json!({"k": "SetBid", "s": u, "f": [{"d": d, "a": a}], "co": "colla", "tk": "1", "d": d, "a": a, "rc": "", "fi": ""})),
            1 => ops.push(json!({"k": "SetCBid", "s": u, "f": [{"d": d, "a": a}], "co": "colla", "d": d, "a": a, "rc": "", "fi": ""})),
            _ => {
                let tk = (10 + (i * 37) % (2 * nn + 1)).to_string();
                ops.push(json!({"k": "Mint", "s": "admin", "co": "colla", "tk": tk, "to": u}));
                ops.push(json!({"k": "SetAsk", "s": u, "f": [{"d": "ustars", "a": 1}], "co": "colla", "tk": tk, "d": d, "a": a + 10000, "rc": "", "fi": ""}));
            }
        }
    }
    for op in ops {
        let (j, s2) = run.step(cur, &op, &st, &mut fees);
        cur = j;
        st = s2;
    }
    let mut qs = vec![];
    for c in ["bids", "cbids", "asks"] {
        let mut ids: Vec<String> = st[c].as_object().unwrap().keys().cloned().collect();
        ids.shuffle(&mut r);
        ids.insert(ids.len() / 2, "none".into());
        for k in [ids.len(), ids.len() / 2, 11, 31] {
            let mut q = json!({"q": c, "co": "colla", "tk": "1", "d": d, "cr": "", "ids": ids[..k.min(ids.len())], "lim": -1, "desc": 2,
                "mk": "", "ma": 0, "mi": "", "xk": "", "xa": 0, "xi": ""});
            q["res"] = run.w.query(&q, &st);
            qs.push(q);
        }
    }
    for (q, cr) in [("bidsPrice", ""), ("cbidsPrice", ""), ("asksPrice", ""), ("bidsCr", "alice"), ("cbidsCr", "alice"), ("asksCr", "alice")] {
        for lim in [-1i64, 7, 99, 100, 101, 4000] {
            for desc in [0i64, 1, 2] {
                let q = json!({"q": q, "co": "colla", "tk": "1", "d": d, "cr": cr, "ids": [], "lim": lim, "desc": desc,
                    "mk": "", "ma": 0, "mi": "", "xk": "", "xa": 0, "xi": ""});
                let mut q2 = q.clone();
                q2["res"] = run.w.query(&q, &st);
                qs.push(q2);
            }
        }
        for desc in [0i64, 1] {
            for lim in [9i64, 100] {
                let q = json!({"q": q, "co": "colla", "tk": "1", "d": d, "cr": cr, "ids": [], "lim": -2, "desc": desc,
                    "mk": "", "ma": 0, "mi": "", "xk": "", "xa": 0, "xi": ""});
                let mut q2 = q.clone();
                q2["res"] = run.w.page_all(&q, &st, lim);
                qs.push(q2);
            }
        }
    }
    run.t.recs[cur]["q"] = json!(qs);
    run.t.recs[cur]["rank"] = run.w.ranks();
    run.t
}

fn explore(v: &Value, paths: Vec<Vec<usize>>) -> Tree {
    let uni = v["uni"].as_array().unwrap();
    let (mut run, mut cur, mut st) = match Run::new(&v["cfg"], 1) { Ok(x) => x, Err(t) => return t };
    let mut fees = json!({});
    for op in v["pre"].as_array().unwrap() {
        let (i, s2) = run.step(cur, op, &st, &mut fees);
        cur = i;
        st = s2;
    }
    let fill = |i: usize, st: &Value| fill(&uni[i - 1], st);
    // stack of (index taken, node, snapshot, state)
    let mut stack = vec![(0usize, cur, run.w.snap(), st)];
    for p in paths {
        let mut keep = 1;
        while keep < stack.len() && keep <= p.len() && stack[keep].0 == p[keep - 1] {
            keep += 1;
        }
        stack.truncate(keep);
        let top = stack.last().unwrap().clone();
        run.w.restore(&top.2);
        let (mut cur, mut st) = (top.1, top.3);
        for &i in &p[keep - 1..] {
            let op = fill(i, &st);
            let (j, s2) = run.step(cur, &op, &st, &mut fees);
            cur = j;
            st = s2;
            stack.push((i, cur, run.w.snap(), st.clone()));
        }
        let sn = run.w.snap();
        for i in 1..=uni.len() {
            run.w.restore(&sn);
            let op = fill(i, &st);
            run.step(cur, &op, &st, &mut fees);
        }
        run.w.restore(&sn);
    }
    run.t
}

/// a new order gets the first free of the model's labels
fn fill(op: &Value, st: &Value) -> Value {
    let mut op = op.clone();
    let labels: &[&str] = match s(&op, "k").as_str() { "SetBid" => &["b1", "b2"], "SetCBid" => &["c1"], _ => &[] };
    if let Some(l) = labels.iter().find(|l| st["bids"].get(**l).is_none() && st["cbids"].get(**l).is_none()) {
        op["nid"] = json!(l);
    }
    op
}

/// a random history over the model's small universe of operations, where orders keep meeting
fn dense(v: &Value, seed: u64, prop: &str, len: usize) -> Tree {
    let mut r = ChaCha8Rng::seed_from_u64(seed ^ 0xd5);
    let uni = (if seed % 2 == 0 { &v["uni"] } else { &v["all"] }).as_array().unwrap();
    let kinds = crate::run::kinds_of(uni);
    let (mut run, mut cur, mut st) = match Run::new(&v["cfg"], 1) { Ok(x) => x, Err(t) => return t };
    let mut fees = json!({});
    for op in v["pre"].as_array().unwrap() {
        let (i, s2) = run.step(cur, op, &st, &mut fees);
        cur = i;
        st = s2;
    }
    let (mut logged, mut tried) = (0, 0);
    while logged < len && tried < len * 12 {
        tried += 1;
        let op = crate::run::pick_op(&mut r, uni, &kinds);
        if ["SetBid", "SetCBid"].contains(&s(op, "k").as_str()) && st["bids"].as_object().unwrap().len() + st["cbids"].as_object().unwrap().len() >= 4 && r.gen_bool(0.7) {
            continue;
        }
        let op = fill(op, &st);
        let (op, ok, err, ev, out, post) = run.w.step(&op, &st);
        if !ok && post == st && r.gen_bool(0.85) {
            continue;
        }
        logged += 1;
        track(&mut fees, &op, ok);
        cur = run.t.child(cur, op, ok, &err, ev, out, &st, &post);
        st = post;
        if r.gen_bool(0.15) {
            run.queries(cur, &st, &mut r, match prop { "A09" => 4, "A04" | "A01" => 1, _ => 0 });
            for op in probes(&mut r, &st, &fees, &profile(prop), prop) {
                run.probe(cur, &op, &st);
            }
            if r.gen_bool(0.3) {
                for c in cancels(&st) {
                    run.probe(cur, &c, &st);
                }
            }
        }
    }
    run.t
}

pub fn main(arg: Arg) {
    let cmd = arg("--cmd", "gen");
    let prop = arg("--prop", "A01");
    let seed: u64 = arg("--seed", "1").parse().unwrap();
    let out = arg("--out", "/tmp/out.ndjson");
    let walks: u64 = arg("--walks", "16").parse().unwrap();
    let len: usize = arg("--len", "60").parse().unwrap();
    let big: usize = arg("--big", "0").parse().unwrap();
    let nd: u64 = arg("--dense", "0").parse().unwrap();
    let dlen: usize = arg("--dlen", "40").parse().unwrap();
    let clen: usize = arg("--clen", "30").parse().unwrap();
    let threads: u64 = arg("--threads", "8").parse().unwrap();
    let mut tree = Tree::new(MAPS.to_vec());
    if cmd == "gen" && !arg("--ops", "").is_empty() {
            // the model checker's states: {cfg, pre: [ops], uni: [ops], paths: [[index...]...]}: every operation of the
            // universe in the state each path leads to
            let v: Value = serde_json::from_str(&std::fs::read_to_string(arg("--ops", "")).unwrap()).unwrap();
            let paths: Vec<Vec<usize>> = serde_json::from_value(v["paths"].clone()).unwrap();
            let v = std::sync::Arc::new(v);
            let chunks: Vec<Vec<Vec<usize>>> = {
                let mut p = paths;
                p.sort();
                let per = (p.len() + threads as usize - 1) / threads as usize;
                p.chunks(per.max(1)).map(|c| c.to_vec()).collect()
            };
            let hs: Vec<_> = chunks
                .into_iter()
                .map(|ps| {
                    let v = v.clone();
                    std::thread::Builder::new().stack_size(64 << 20).spawn(move || explore(&v, ps)).unwrap()
                })
                .collect();
            for h in hs {
                tree.absorb(h.join().unwrap());
            }
            }
    match cmd.as_str() {
        "gen" => {
            let mut jobs: Vec<(u8, u64)> = vec![];
            let uni = std::sync::Arc::new(if nd > 0 { serde_json::from_str(&std::fs::read_to_string(arg("--ops", "")).unwrap()).unwrap() } else { json!({}) });
            for i in 0..nd {
                jobs.push((1, seed.wrapping_mul(1_000_003) + i));
            }
            if big > 0 {
                jobs.push((2, seed));
            }
            for i in 0..walks {
                jobs.push((if i % 6 == 5 { 3 } else { 0 }, seed.wrapping_mul(1_000_003) + i));
            }
            for (i, k) in crate::run::crowds(arg).into_iter().enumerate() {
                jobs.insert(0, (4, (k as u64) << 32 | (seed.wrapping_mul(7919) + i as u64) & 0xffff_ffff));
            }
            let jobs = std::sync::Arc::new(std::sync::Mutex::new(jobs));
            let hs: Vec<_> = (0..threads)
                .map(|_| {
                    let (jobs, prop, uni) = (jobs.clone(), prop.clone(), uni.clone());
                    std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                        let mut res = vec![];
                        loop {
                            let j = { let mut g = jobs.lock().unwrap(); if g.is_empty() { break; } g.remove(0) };
                            let t = match j.0 {
                                0 => walk(j.1, &prop, len, 1, 1),
                                1 => dense(&uni, j.1, &prop, dlen),
                                2 => bigbook(j.1, big),
                                4 => crowd(j.1, &prop, (j.1 >> 32) as usize, clen),
                                _ => walk(j.1, &prop, len, 1_000_000_000_000_000, 10_000),
                            };
                            res.push((j, t));
                        }
                        res
                    }).unwrap()
                })
                .collect();
            let mut all: Vec<((u8, u64), Tree)> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
            all.sort_by_key(|x| x.0);
            for (_, t) in all {
                tree.absorb(t);
            }
        }
        "replay" => {
            // {roots: [{cfg, scale, ops:[...]}]}
            let v: Value = serde_json::from_str(&std::fs::read_to_string(arg("--ops", "")).unwrap()).unwrap();
            for rt in v["roots"].as_array().unwrap() {
                let scale: u128 = s(rt, "scale").parse().unwrap_or(1);
                let (mut run, mut cur, mut st) = match Run::new(&rt["cfg"], scale) { Ok(x) => x, Err(t) => { tree.absorb(t); continue } };
                let mut fees = json!({});
                for op in rt["ops"].as_array().unwrap() {
                    let (i, s2) = run.step(cur, op, &st, &mut fees);
                    cur = i;
                    st = s2;
                }
                if let Some(qs) = rt.get("queries").and_then(|q| q.as_array()) {
                    let mut v = vec![];
                    for q in qs {
                        let mut q = q.clone();
                        q["res"] = run.w.query(&q, &st);
                        v.push(q);
                    }
                    run.t.recs[cur]["q"] = json!(v);
                    run.t.recs[cur]["rank"] = run.w.ranks();
                }
                tree.absorb(run.t);
            }
        }
        x => panic!("unknown cmd {}", x),
    }
    tree.write(&out).unwrap();
    println!("{}", json!({"records": tree.recs.len()}));
}
