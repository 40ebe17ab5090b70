//! Coverage-guided search over the same strategies and checks as `Ctx::explore`, in instrumented builds.
//!
//! Cases are kept as JSON. A mutation replaces a part by a part that the strategy generated at the same place (places
//! are paths with indices left out), changes how many elements a list has within what was seen there, or changes a
//! number within the range seen at its place, so that a mutated case is one the strategy could have generated.
use crate::engine::{mix, Check};
use serde_json::Value;
use std::collections::{HashMap, VecDeque};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(1);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, n: u64, of: u64) -> bool {
        self.next() % of < n
    }
}

#[derive(Default)]
struct Place {
    /// Least and greatest number, or number of elements.
    lo: i128,
    hi: i128,
    donors: Vec<Value>,
    seen: u64,
}

fn step(path: u64, key: &str) -> u64 {
    mix(path ^ crate::engine::hash_of(key))
}
const ELEM: &str = "[]";
/// Lists of few elements are records with a place for each element; see `record`.
fn child_of_array(path: u64, fixed: bool, i: usize) -> u64 {
    if fixed {
        step(path, &i.to_string())
    } else {
        step(path, ELEM)
    }
}
fn number(v: &Value) -> Option<i128> {
    v.as_u64().map(|x| x as i128).or_else(|| v.as_i64().map(|x| x as i128))
}
fn to_value(x: i128) -> Value {
    if x >= 0 {
        Value::from(x as u64)
    } else {
        Value::from(x as i64)
    }
}

pub struct Places {
    map: HashMap<u64, Place>,
    pub rng: Rng,
}

impl Places {
    pub fn new(seed: u64) -> Places {
        Places { map: HashMap::new(), rng: Rng(seed) }
    }

    /// Takes note of a generated case. The first cases settle which lists always have the same length.
    pub fn learn(&mut self, v: &Value) {
        self.learn_at(v, 1)
    }
    fn learn_at(&mut self, v: &Value, path: u64) {
        let x = match v {
            Value::Array(a) => Some(a.len() as i128),
            v => number(v),
        };
        let r = self.rng.next();
        let p = self.map.entry(path).or_default();
        if let Some(x) = x {
            if p.seen == 0 {
                (p.lo, p.hi) = (x, x);
            } else {
                (p.lo, p.hi) = (p.lo.min(x), p.hi.max(x));
            }
        }
        p.seen += 1;
        if p.donors.len() < 48 {
            p.donors.push(v.clone());
        } else if r % (p.seen.min(4000)) < 12 {
            p.donors[(r >> 32) as usize % 48] = v.clone();
        }
        match v {
            Value::Array(a) => {
                let fixed = self.fixed(path);
                for (i, c) in a.iter().enumerate() {
                    self.learn_at(c, child_of_array(path, fixed, i));
                    if !fixed && i > 40 {
                        break;
                    }
                }
            }
            Value::Object(o) => {
                for (k, c) in o {
                    self.learn_at(c, step(path, k));
                }
            }
            _ => {}
        }
    }
    /// A list that has had one length so far. (Elements learnt before that changes stay where they were.)
    fn fixed(&self, path: u64) -> bool {
        self.map.get(&path).is_none_or(|p| p.lo == p.hi)
    }

    /// One change at a random place.
    pub fn mutate(&mut self, v: &mut Value, compared: &[(u64, u64)]) {
        let mut n = 0usize;
        count(v, &mut n);
        let target = self.rng.below(n);
        let mut at = 0;
        self.mutate_at(v, 1, target, &mut at, compared);
    }
    fn mutate_at(&mut self, v: &mut Value, path: u64, target: usize, at: &mut usize, compared: &[(u64, u64)]) -> bool {
        let here = *at == target;
        *at += 1;
        if here {
            self.change(v, path, compared);
            return true;
        }
        match v {
            Value::Array(a) => {
                let fixed = self.fixed(path);
                for (i, c) in a.iter_mut().enumerate() {
                    if self.mutate_at(c, child_of_array(path, fixed, i), target, at, compared) {
                        return true;
                    }
                }
                false
            }
            Value::Object(o) => o.iter_mut().any(|(k, c)| self.mutate_at(c, step(path, k), target, at, compared)),
            _ => false,
        }
    }
    fn change(&mut self, v: &mut Value, path: u64, compared: &[(u64, u64)]) {
        let Some(p) = self.map.get(&path) else { return };
        let donor = |r: &mut Rng| p.donors[r.below(p.donors.len())].clone();
        let r = &mut self.rng;
        if let Some(x) = number(v) {
            let y = match r.below(8) {
                0 | 1 => {
                    *v = donor(r);
                    return;
                }
                2 => x + 1,
                3 => x - 1,
                4 => x ^ 1 << r.below(16),
                5 if !compared.is_empty() => compared[r.below(compared.len())].0 as i128,
                6 if !compared.is_empty() => {
                    let (a, b) = compared[r.below(compared.len())];
                    x + a as i128 - b as i128
                }
                _ => p.lo + (r.next() as i128).rem_euclid(p.hi - p.lo + 1),
            };
            if y >= p.lo && y <= p.hi {
                *v = to_value(y);
            }
            return;
        }
        let Value::Array(a) = v else {
            *v = donor(r);
            return;
        };
        let (lo, hi) = (p.lo as usize, p.hi as usize);
        if lo == hi {
            *v = donor(r);
            return;
        }
        let i = r.below(a.len() + 1);
        match r.below(7) {
            0 => {
                let m = (1 + r.below(4)).min(a.len().saturating_sub(lo)).min(a.len() - i);
                a.drain(i..i + m);
            }
            1 if a.len() < hi => {
                if let Some(e) = self.map.get(&step(path, ELEM)) {
                    a.insert(i, e.donors[r.below(e.donors.len())].clone());
                }
            }
            2 if !a.is_empty() && a.len() < hi => {
                let e = a[r.below(a.len())].clone();
                a.insert(i, e);
            }
            3 if a.len() > 1 => {
                let (i, j) = (r.below(a.len()), r.below(a.len()));
                a.swap(i, j);
            }
            // the rest of another list
            4 | 5 => {
                if let Value::Array(b) = donor(r) {
                    let j = r.below(b.len() + 1);
                    if i + b.len() - j >= lo {
                        a.truncate(i);
                        a.extend_from_slice(&b[j..]);
                        a.truncate(hi);
                    }
                }
            }
            _ => *v = donor(r),
        }
    }

    /// A smaller case that still fails, with its message.
    pub fn shrink(&self, v: Value, m: String, fails: &mut dyn FnMut(&Value) -> Check) -> (Value, String) {
        let end = Instant::now() + Duration::from_secs(25);
        let mut best = (v, m);
        let mut tries = 0;
        loop {
            let mut better = false;
            let mut k = 0;
            loop {
                // candidates by number, so that they can be made one at a time
                let mut list = Vec::new();
                let mut at = 0;
                self.candidates(&best.0, 1, k, &mut at, &mut list);
                if k >= at || Instant::now() > end || tries > 20_000 {
                    break;
                }
                let mut went = false;
                for c in list {
                    let mut w = best.0.clone();
                    replace(&mut w, k, c);
                    tries += 1;
                    if let Err(m) = fails(&w) {
                        if !m.starts_with("harness:") {
                            best = (w, m);
                            better = true;
                            went = true;
                            break;
                        }
                    }
                }
                if !went {
                    k += 1;
                }
            }
            if !better || Instant::now() > end || tries > 20_000 {
                return best;
            }
        }
    }
    /// Smaller things to put in place of the k-th node.
    fn candidates(&self, v: &Value, path: u64, k: usize, at: &mut usize, out: &mut Vec<Value>) {
        let here = *at == k;
        *at += 1;
        let p = self.map.get(&path);
        match v {
            Value::Array(a) => {
                let fixed = self.fixed(path);
                if here && !fixed {
                    let lo = p.map_or(a.len(), |p| p.lo as usize);
                    let mut n = a.len();
                    while n > 0 {
                        for i in (0..a.len()).step_by(n).rev() {
                            let mut b = a.clone();
                            b.drain(i..(i + n).min(a.len()));
                            if b.len() >= lo && b.len() < a.len() {
                                out.push(Value::Array(b));
                            }
                        }
                        n /= 2;
                    }
                }
                for (i, c) in a.iter().enumerate() {
                    self.candidates(c, child_of_array(path, fixed, i), k, at, out);
                }
            }
            Value::Object(o) => {
                for (q, c) in o {
                    self.candidates(c, step(path, q), k, at, out);
                }
            }
            Value::Bool(true) if here => out.push(Value::Bool(false)),
            v => {
                if let (true, Some(x), Some(p)) = (here, number(v), p) {
                    let mut d = x - p.lo;
                    while d > 0 {
                        out.push(to_value(x - d));
                        d /= 2;
                    }
                }
            }
        }
    }
}

fn count(v: &Value, n: &mut usize) {
    *n += 1;
    match v {
        Value::Array(a) => a.iter().for_each(|c| count(c, n)),
        Value::Object(o) => o.values().for_each(|c| count(c, n)),
        _ => {}
    }
}
fn replace(v: &mut Value, k: usize, with: Value) {
    fn go(v: &mut Value, k: usize, at: &mut usize, with: &mut Option<Value>) {
        let here = *at == k;
        *at += 1;
        if here {
            *v = with.take().unwrap();
            return;
        }
        match v {
            Value::Array(a) => {
                for c in a {
                    if with.is_none() {
                        return;
                    }
                    go(c, k, at, with)
                }
            }
            Value::Object(o) => {
                for c in o.values_mut() {
                    if with.is_none() {
                        return;
                    }
                    go(c, k, at, with)
                }
            }
            _ => {}
        }
    }
    go(v, k, &mut 0, &mut Some(with))
}

/// Cases that reached something new, latest last.
#[derive(Default)]
pub struct Pool {
    cases: VecDeque<Value>,
    pub added: u64,
}
impl Pool {
    pub fn add(&mut self, v: Value) {
        self.added += 1;
        if self.cases.len() == 3000 {
            self.cases.pop_front();
        }
        self.cases.push_back(v);
    }
    pub fn pick(&self, r: &mut Rng) -> Option<Value> {
        let n = self.cases.len();
        if n == 0 {
            return None;
        }
        let i = if r.chance(1, 2) { n - 1 - r.below(n.min(40)) } else { r.below(n) };
        Some(self.cases[i].clone())
    }
}
