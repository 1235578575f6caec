//! The log: a forest of executed operations. Each record holds the operation, its outcome, and
//! what changed in the projected state relative to its parent; `k` lists the children.
use serde_json::{json, Map, Value};

pub struct Tree {
    pub recs: Vec<Value>,
    pub kids: Vec<Vec<usize>>,
    pub maps: Vec<&'static str>,
}

impl Tree {
    pub fn new(maps: Vec<&'static str>) -> Tree {
        Tree { recs: vec![], kids: vec![], maps }
    }
    pub fn root(&mut self, st: &Value, extra: Value) -> usize {
        self.recs.push(json!({"op": {"k": "Init"}, "ok": true, "d": st, "x": {}, "ev": [], "out": extra}));
        self.kids.push(vec![]);
        self.recs.len() - 1
    }
    pub fn child(&mut self, p: usize, op: Value, ok: bool, err: &str, ev: Value, out: Value, pre: &Value, post: &Value) -> usize {
        let mut d = Map::new();
        let mut x = Map::new();
        let (a, b) = (pre.as_object().unwrap(), post.as_object().unwrap());
        for (k, v) in b {
            let o = &a[k];
            if o == v {
                continue;
            }
            if self.maps.contains(&k.as_str()) {
                let (om, vm) = (o.as_object().unwrap(), v.as_object().unwrap());
                let mut dm = Map::new();
                for (kk, vv) in vm {
                    if om.get(kk) != Some(vv) {
                        dm.insert(kk.clone(), vv.clone());
                    }
                }
                let gone: Vec<Value> = om.keys().filter(|kk| !vm.contains_key(*kk)).map(|s| json!(s)).collect();
                if !dm.is_empty() {
                    d.insert(k.clone(), Value::Object(dm));
                }
                if !gone.is_empty() {
                    x.insert(k.clone(), Value::Array(gone));
                }
            } else {
                d.insert(k.clone(), v.clone());
            }
        }
        let mut err = err.to_string();
        err.truncate(err.char_indices().nth(160).map(|(i, _)| i).unwrap_or(err.len()));
        self.recs.push(json!({"op": op, "ok": ok, "err": err, "d": d, "x": x, "ev": ev, "out": out}));
        self.kids.push(vec![]);
        let i = self.recs.len() - 1;
        self.kids[p].push(i);
        i
    }
    pub fn absorb(&mut self, o: Tree) {
        let off = self.recs.len();
        self.recs.extend(o.recs);
        self.kids.extend(o.kids.into_iter().map(|v| v.into_iter().map(|i| i + off).collect::<Vec<_>>()));
    }
    /// ndjson with 1-based child indices
    pub fn write(&self, path: &str) -> std::io::Result<()> {
        use std::io::Write;
        let mut f = std::io::BufWriter::new(std::fs::File::create(path)?);
        for (r, k) in self.recs.iter().zip(&self.kids) {
            let mut r = r.as_object().unwrap().clone();
            r.insert("kids".into(), json!(k.iter().map(|i| i + 1).collect::<Vec<_>>()));
            serde_json::to_writer(&mut f, &r)?;
            f.write_all(b"\n")?;
        }
        f.flush()
    }
}
