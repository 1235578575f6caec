//! The generic runner: random histories with probes, exhaustive replay of model states, and
//! replay of given histories, all logged as forests of executed operations.
use crate::chain::{Chain, Snap};
use crate::tree::Tree;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Value};

pub struct Done {
    pub op: Value,
    pub ok: bool,
    pub err: String,
    pub ev: Value,
    pub out: Value,
}

pub trait World: Sized + 'static {
    /// components of the projected state that are maps (logged key by key)
    fn maps() -> Vec<&'static str>;
    /// root: {cfg, scale, ..}; None: the contract refused the configuration
    fn new(root: &Value) -> Option<Self>;
    fn chain(&self) -> &Chain;
    fn chain_mut(&mut self) -> &mut Chain;
    fn project(&mut self) -> Value;
    /// `pre`: the projected state before
    fn exec(&mut self, op: &Value, pre: &Value) -> Done;
    fn gen_root(r: &mut ChaCha8Rng, prop: &str, scaled: bool) -> Value;
    fn prologue(r: &mut ChaCha8Rng, root: &Value, prop: &str) -> Vec<Value>;
    fn gen_op(r: &mut ChaCha8Rng, st: &Value, root: &Value, prop: &str) -> Value;
    fn probes(r: &mut ChaCha8Rng, st: &Value, root: &Value, prop: &str) -> Vec<Value>;
    fn gen_queries(&self, r: &mut ChaCha8Rng, st: &Value, prop: &str) -> Vec<Value>;
    /// may complete `q` with what the specification needs to judge the answer
    fn query(&self, q: &mut Value, st: &Value) -> Value;
    fn ranks(&self) -> Value;
    /// completes an operation of the model's universe
    fn fill(op: &Value, _st: &Value) -> Value {
        op.clone()
    }
    /// many orders at once: root and operations; random steps follow
    fn crowd(_r: &mut ChaCha8Rng, _prop: &str, _k: usize) -> Option<(Value, Vec<Value>)> {
        None
    }
    /// a large book: root, operations, and queries on the final state
    fn big(_r: &mut ChaCha8Rng, _n: usize) -> Option<(Value, Vec<Value>, Vec<Value>)> {
        None
    }
}

struct Run<W: World> {
    w: W,
    t: Tree,
}
impl<W: World> Run<W> {
    fn new(root: &Value) -> Result<(Run<W>, usize, Value), Tree> {
        let mut t = Tree::new(W::maps());
        let mut out = root.clone();
        match W::new(root) {
            Some(mut w) => {
                let st = w.project();
                out["ok"] = json!(true);
                let r = t.root(&st, out);
                t.recs[r]["rank"] = w.ranks();
                Ok((Run { w, t }, r, st))
            }
            None => {
                out["ok"] = json!(false);
                t.root(&json!({"t": 0}), out);
                Err(t)
            }
        }
    }
    fn step(&mut self, p: usize, op: &Value, pre: &Value) -> (usize, Value) {
        let before: Snap = self.w.chain().snap();
        let d = self.w.exec(op, pre);
        let post = if !d.ok && self.w.chain().unchanged(&before) { pre.clone() } else { self.w.project() };
        let i = self.t.child(p, d.op, d.ok, &d.err, d.ev, d.out, pre, &post);
        (i, post)
    }
    fn probe(&mut self, p: usize, op: &Value, pre: &Value) {
        let sn = self.w.chain().snap();
        self.step(p, op, pre);
        self.w.chain_mut().restore(&sn);
    }
    fn ask(&mut self, i: usize, st: &Value, qs: Vec<Value>) {
        if qs.is_empty() {
            return;
        }
        let qs: Vec<Value> = qs
            .into_iter()
            .map(|mut q| {
                let res = self.w.query(&mut q, st);
                q["res"] = res;
                q
            })
            .collect();
        self.t.recs[i]["q"] = json!(qs);
        self.t.recs[i]["rank"] = self.w.ranks();
    }
}

fn walk<W: World>(seed: u64, prop: &str, len: usize, scaled: bool) -> Tree {
    let mut r = ChaCha8Rng::seed_from_u64(seed);
    let root = W::gen_root(&mut r, prop, scaled);
    let (mut run, mut cur, mut st) = match Run::<W>::new(&root) {
        Ok(x) => x,
        Err(t) => return t,
    };
    for op in W::prologue(&mut r, &root, prop) {
        let (i, s2) = run.step(cur, &op, &st);
        cur = i;
        st = s2;
    }
    drive(&mut run, cur, st, &mut r, &root, prop, len);
    run.t
}

fn drive<W: World>(run: &mut Run<W>, mut cur: usize, mut st: Value, r: &mut ChaCha8Rng, root: &Value, prop: &str, len: usize) {
    for _ in 0..len {
        let op = W::gen_op(r, &st, root, prop);
        let (j, s2) = run.step(cur, &op, &st);
        cur = j;
        st = s2;
        let qs = run.w.gen_queries(r, &st, prop);
        run.ask(cur, &st, qs);
        for op in W::probes(r, &st, root, prop) {
            run.probe(cur, &op, &st);
        }
        if r.gen_bool(0.10) {
            // a few alternative next steps from the same state
            for _ in 0..3 {
                let op = W::gen_op(r, &st, root, prop);
                run.probe(cur, &op, &st);
            }
        }
    }
}

fn crowd<W: World>(seed: u64, prop: &str, k: usize, len: usize) -> Tree {
    let mut r = ChaCha8Rng::seed_from_u64(seed);
    let Some((root, ops)) = W::crowd(&mut r, prop, k) else { return Tree::new(W::maps()) };
    let (mut run, mut cur, mut st) = match Run::<W>::new(&root) {
        Ok(x) => x,
        Err(t) => return t,
    };
    for op in ops {
        let (i, s2) = run.step(cur, &op, &st);
        cur = i;
        st = s2;
    }
    drive(&mut run, cur, st, &mut r, &root, prop, len);
    run.t
}

fn bigbook<W: World>(seed: u64, n: usize) -> Tree {
    let mut r = ChaCha8Rng::seed_from_u64(seed);
    let Some((root, ops, qs)) = W::big(&mut r, n) else { return Tree::new(W::maps()) };
    let (mut run, mut cur, mut st) = match Run::<W>::new(&root) {
        Ok(x) => x,
        Err(t) => return t,
    };
    for op in ops {
        let (i, s2) = run.step(cur, &op, &st);
        cur = i;
        st = s2;
    }
    run.ask(cur, &st, qs);
    run.t
}

fn explore<W: World>(v: &Value, paths: Vec<Vec<usize>>) -> Tree {
    let uni = v["uni"].as_array().unwrap();
    let (mut run, mut cur, mut st) = match Run::<W>::new(&v["root"]) {
        Ok(x) => x,
        Err(t) => return t,
    };
    for op in v["pre"].as_array().unwrap() {
        let (i, s2) = run.step(cur, op, &st);
        cur = i;
        st = s2;
    }
    let mut stack = vec![(0usize, cur, run.w.chain().snap(), st)];
    for p in paths {
        let mut keep = 1;
        while keep < stack.len() && keep <= p.len() && stack[keep].0 == p[keep - 1] {
            keep += 1;
        }
        stack.truncate(keep);
        let top = stack.last().unwrap().clone();
        run.w.chain_mut().restore(&top.2);
        let (mut cur, mut st) = (top.1, top.3);
        for &i in &p[keep - 1..] {
            let op = W::fill(&uni[i - 1], &st);
            let (j, s2) = run.step(cur, &op, &st);
            cur = j;
            st = s2;
            stack.push((i, cur, run.w.chain().snap(), st.clone()));
        }
        let sn = run.w.chain().snap();
        for op in uni {
            run.w.chain_mut().restore(&sn);
            let op = W::fill(op, &st);
            run.step(cur, &op, &st);
        }
        run.w.chain_mut().restore(&sn);
    }
    run.t
}

/// a random history over the model's small universe of operations, where orders keep meeting
fn dense<W: World>(v: &Value, seed: u64, prop: &str, len: usize) -> Tree {
    let mut r = ChaCha8Rng::seed_from_u64(seed ^ 0xd5);
    let uni = (if seed % 2 == 0 { &v["uni"] } else { &v["all"] }).as_array().unwrap();
    let kinds = kinds_of(uni);
    let (mut run, mut cur, mut st) = match Run::<W>::new(&v["root"]) {
        Ok(x) => x,
        Err(t) => return t,
    };
    for op in v["pre"].as_array().unwrap() {
        let (i, s2) = run.step(cur, op, &st);
        cur = i;
        st = s2;
    }
    let (mut logged, mut tried) = (0, 0);
    while logged < len && tried < len * 12 {
        tried += 1;
        let op = W::fill(pick_op(&mut r, uni, &kinds), &st);
        let sn = run.w.chain().snap();
        let d = run.w.exec(&op, &st);
        if !d.ok && run.w.chain().unchanged(&sn) && r.gen_bool(0.85) {
            continue;
        }
        logged += 1;
        let post = if !d.ok && run.w.chain().unchanged(&sn) { st.clone() } else { run.w.project() };
        cur = run.t.child(cur, d.op, d.ok, &d.err, d.ev, d.out, &st, &post);
        st = post;
        if r.gen_bool(0.3) {
            let qs = run.w.gen_queries(&mut r, &st, prop);
            run.ask(cur, &st, qs);
            for op in W::probes(&mut r, &st, &v["root"], prop) {
                run.probe(cur, &op, &st);
            }
        }
    }
    run.t
}

/// operations of a universe grouped by kind, so that each kind is as likely as the others
pub fn kinds_of(uni: &[Value]) -> Vec<Vec<usize>> {
    let mut m: std::collections::BTreeMap<String, Vec<usize>> = Default::default();
    for (i, o) in uni.iter().enumerate() {
        m.entry(o["k"].as_str().unwrap().to_string()).or_default().push(i);
    }
    m.into_values().collect()
}
pub fn pick_op<'a>(r: &mut ChaCha8Rng, uni: &'a [Value], kinds: &[Vec<usize>]) -> &'a Value {
    loop {
        let k = &kinds[r.gen_range(0..kinds.len())];
        let o = &uni[k[r.gen_range(0..k.len())]];
        if (o["k"] == "Tick" || o["k"] == "UpdParams" || o["k"] == "UpdConfig") && r.gen_bool(0.5) {
            continue;
        }
        return o;
    }
}

fn threads<T: Send + 'static, J: Send + 'static>(n: u64, jobs: Vec<J>, f: impl Fn(J) -> T + Send + Sync + 'static) -> Vec<T> {
    let f = std::sync::Arc::new(f);
    let jobs = std::sync::Arc::new(std::sync::Mutex::new(jobs.into_iter().enumerate().collect::<std::collections::VecDeque<_>>()));
    let hs: Vec<_> = (0..n)
        .map(|_| {
            let (f, jobs) = (f.clone(), jobs.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut res = vec![];
                    loop {
                        let Some((i, j)) = jobs.lock().unwrap().pop_front() else { break };
                        res.push((i, f(j)));
                    }
                    res
                })
                .unwrap()
        })
        .collect();
    let mut all: Vec<(usize, T)> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
    all.sort_by_key(|x| x.0);
    all.into_iter().map(|x| x.1).collect()
}

/// --crowds 13,37: sizes of the crowds to build
pub fn crowds(arg: &dyn Fn(&str, &str) -> String) -> Vec<usize> {
    arg("--crowds", "").split(',').filter_map(|x| x.parse().ok()).collect()
}

pub fn main<W: World>(arg: &dyn Fn(&str, &str) -> String) {
    let prop = arg("--prop", "");
    let seed: u64 = arg("--seed", "1").parse().unwrap();
    let out = arg("--out", "/tmp/out.ndjson");
    let walks: u64 = arg("--walks", "16").parse().unwrap();
    let len: usize = arg("--len", "60").parse().unwrap();
    let big: usize = arg("--big", "0").parse().unwrap();
    let nt: u64 = arg("--threads", "8").parse().unwrap();
    let nd: u64 = arg("--dense", "0").parse().unwrap();
    let dlen: usize = arg("--dlen", "40").parse().unwrap();
    let clen: usize = arg("--clen", "30").parse().unwrap();
    let mut tree = Tree::new(W::maps());
    let read = || -> Value { serde_json::from_str(&std::fs::read_to_string(arg("--ops", "")).unwrap()).unwrap() };
    match arg("--cmd", "gen").as_str() {
        "gen" => {
            if !arg("--ops", "").is_empty() {
                let v = read();
                let mut paths: Vec<Vec<usize>> = serde_json::from_value(v["paths"].clone()).unwrap();
                paths.sort();
                let per = ((paths.len() + nt as usize - 1) / nt as usize).max(1);
                let chunks: Vec<Vec<Vec<usize>>> = paths.chunks(per).map(|c| c.to_vec()).collect();
                let v2 = v.clone();
                for t in threads(nt, chunks, move |c| explore::<W>(&v, c)) {
                    tree.absorb(t);
                }
                let p = prop.clone();
                let jobs: Vec<u64> = (0..nd).map(|i| seed.wrapping_mul(1_000_003) + i).collect();
                for t in threads(nt, jobs, move |j| dense::<W>(&v2, j, &p, dlen)) {
                    tree.absorb(t);
                }
            }
            let mut jobs: Vec<(u8, u64)> = vec![];
            if big > 0 {
                jobs.push((2, seed));
            }
            for i in 0..walks {
                jobs.push((if i % 6 == 5 { 3 } else { 0 }, seed.wrapping_mul(1_000_003) + i));
            }
            for (i, k) in crowds(arg).into_iter().enumerate() {
                jobs.insert(0, (4, (k as u64) << 32 | (seed.wrapping_mul(7919) + i as u64) & 0xffff_ffff));
            }
            let p = prop.clone();
            for t in threads(nt, jobs, move |j| match j.0 {
                2 => bigbook::<W>(j.1, big),
                4 => crowd::<W>(j.1, &p, (j.1 >> 32) as usize, clen),
                k => walk::<W>(j.1, &p, len, k == 3),
            }) {
                tree.absorb(t);
            }
        }
        "replay" => {
            for rt in read()["roots"].as_array().unwrap() {
                let (mut run, mut cur, mut st) = match Run::<W>::new(rt) {
                    Ok(x) => x,
                    Err(t) => {
                        tree.absorb(t);
                        continue;
                    }
                };
                // do not carry the history in the root record
                run.t.recs[0]["out"].as_object_mut().unwrap().remove("ops");
                run.t.recs[0]["out"].as_object_mut().unwrap().remove("queries");
                for op in rt["ops"].as_array().unwrap() {
                    let (i, s2) = run.step(cur, op, &st);
                    cur = i;
                    st = s2;
                }
                if let Some(q) = rt.get("queries").and_then(|q| q.as_array()) {
                    run.ask(cur, &st, q.clone());
                }
                tree.absorb(run.t);
            }
        }
        x => panic!("unknown cmd {}", x),
    }
    tree.write(&out).unwrap();
    println!("{}", json!({"records": tree.recs.len()}));
}
