use serde_json::{json, Value};
pub fn s(v: &Value, k: &str) -> String {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("").to_string()
}
pub fn n(v: &Value, k: &str) -> i64 {
    v.get(k).and_then(|x| x.as_i64()).unwrap_or(0)
}
pub fn b(v: &Value, k: &str) -> bool {
    v.get(k).and_then(|x| x.as_bool()).unwrap_or(false)
}
/// exact division; -1 marks an inexact, -2 a too large value
pub fn unscale(a: u128, scale: u128) -> i64 {
    if a % scale != 0 {
        return -1;
    }
    let v = a / scale;
    if v > 2_000_000_000 { -2 } else { v as i64 }
}

/// one of the given values, or any up to hi (of any magnitude)
pub fn pkr<R: rand::Rng>(r: &mut R, v: &[i64], hi: i64) -> i64 {
    if r.gen_bool(0.7) {
        return v[r.gen_range(0..v.len())];
    }
    let b = r.gen_range(0.0..((hi as f64).ln() + 0.001));
    (b.exp() as i64).clamp(1, hi)
}
/// some runs stretch time: a second of the specification is up to an hour
pub fn stretch_of<R: rand::Rng>(r: &mut R, scaled: bool) -> i64 {
    if r.gen_bool(if scaled { 0.6 } else { 0.15 }) { [60, 1000, 3600, 3600][r.gen_range(0..4usize)] } else { 1 }
}

/// coins attached to a message that takes none
pub fn stray(r: &mut rand_chacha::ChaCha8Rng, u: i64) -> Value {
    use rand::Rng;
    match r.gen_range(0..5) {
        0 | 1 => json!([{"d": "ustars", "a": u}]),
        2 => json!([{"d": "uatom", "a": u}]),
        3 => json!([{"d": "uatom", "a": 2 * u}, {"d": "ustars", "a": u}]),
        _ => json!([{"d": "ustars", "a": 3 * u}]),
    }
}
