//! Records what the implementation did, for TLC to check against MerkleTrace.
use crate::conc::{bit, Conc};
use crate::sut::{Fail, Res, Snap, B, V};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;

pub struct Trace {
    pub lines: Vec<String>,
    /// keys in order; 1-based index is the key's name in the trace
    keys: Vec<B>,
    vals: HashMap<B, usize>,
    locs: HashMap<B, usize>,
}

impl Trace {
    pub fn new(conc: &Conc, limit: usize, by: &str) -> Trace {
        let mut keys = conc.all_keys();
        keys.extend(conc.absent.iter().cloned());
        keys.sort();
        keys.dedup();
        let mut t = Trace { lines: Vec::new(), keys, vals: HashMap::new(), locs: HashMap::new() };
        let bits: Vec<String> = t
            .keys
            .iter()
            .map(|k| {
                let b: Vec<&str> = (0..k.len() * 8).map(|i| if bit(k, i) == 1 { "1" } else { "0" }).collect();
                format!("[{}]", b.join(","))
            })
            .collect();
        t.lines.push(format!("{{\"op\":\"open\",\"by\":\"{by}\",\"limit\":{limit},\"bits\":[{}]}}", bits.join(",")));
        t
    }
    fn key(&self, k: &[u8]) -> usize {
        self.keys.iter().position(|x| x == k).map_or(0, |i| i + 1)
    }
    fn val(&mut self, v: &[u8]) -> usize {
        let n = self.vals.len() + 1;
        *self.vals.entry(v.to_vec()).or_insert(n)
    }
    fn loc(&mut self, l: &[u8]) -> usize {
        let n = self.locs.len() + 1;
        *self.locs.entry(l.to_vec()).or_insert(n)
    }
    fn pairs<'a>(&mut self, m: impl Iterator<Item = (&'a B, &'a B)>) -> String {
        let mut s = Vec::new();
        for (k, v) in m {
            let v = self.val(v);
            s.push(format!("[{},{v}]", self.key(k)));
        }
        s.join(",")
    }
    pub fn insert(&mut self, base: Option<&[u8]>, upd: &BTreeMap<B, B>, root: &[u8]) {
        let b = base.map_or(0, |b| self.loc(b));
        let r = self.loc(root);
        let u = self.pairs(upd.iter());
        self.lines.push(format!("{{\"op\":\"ins\",\"base\":{b},\"upd\":[{u}],\"root\":{r}}}"));
    }
    pub fn remove(&mut self, root: &[u8]) {
        let r = self.loc(root);
        self.lines.push(format!("{{\"op\":\"rem\",\"root\":{r}}}"));
    }
    pub fn inert(&mut self, kind: &str) {
        self.lines.push(format!("{{\"op\":\"inert\",\"kind\":\"{kind}\"}}"));
    }
    pub fn get(&mut self, root: &[u8], q: &[B], r: Option<&Vec<(B, Option<B>)>>) {
        let root = self.loc(root);
        let q: Vec<String> = q.iter().map(|k| self.key(k).to_string()).collect();
        let (ok, found) = match r {
            None => (false, String::new()),
            Some(v) => {
                let mut s = Vec::new();
                for (k, v) in v {
                    let x = v.as_ref().map_or(0, |v| self.val(v));
                    s.push(format!("[{},{x}]", self.key(k)));
                }
                (true, s.join(","))
            }
        };
        self.lines.push(format!("{{\"op\":\"get\",\"root\":{root},\"q\":[{}],\"ok\":{ok},\"found\":[{found}]}}", q.join(",")));
    }
    pub fn get_one(&mut self, root: &[u8], k: &[u8], r: &Res<Option<B>>) {
        let root = self.loc(root);
        let (ok, v) = match r {
            Err(_) => (false, 0),
            Ok(v) => (true, v.as_ref().map_or(0, |v| self.val(v))),
        };
        self.lines.push(format!("{{\"op\":\"one\",\"root\":{root},\"k\":{},\"ok\":{ok},\"v\":{v}}}", self.key(k)));
    }
    pub fn prove(&mut self, root: &[u8], k: &[u8], r: &Result<Vec<(B, bool)>, Fail>) {
        let root = self.loc(root);
        let (ok, p) = match r {
            Err(_) => (false, String::new()),
            Ok(p) => {
                let mut s = Vec::new();
                for (h, b) in p {
                    let l = self.loc(h);
                    s.push(format!("[{l},{b}]"));
                }
                (true, s.join(","))
            }
        };
        self.lines.push(format!("{{\"op\":\"prove\",\"root\":{root},\"k\":{},\"ok\":{ok},\"p\":[{p}]}}", self.key(k)));
    }
    /// the verdict of the verifier on an arbitrary claim
    pub fn verify(&mut self, root: &[u8], k: &[u8], v: &[u8], p: &[(B, bool)], ok: bool) {
        let root = self.loc(root);
        let v = self.val(v);
        let mut s = Vec::new();
        for (h, b) in p {
            let l = self.loc(h);
            s.push(format!("[{l},{b}]"));
        }
        self.lines.push(format!("{{\"op\":\"verify\",\"root\":{root},\"k\":{},\"v\":{v},\"p\":[{}],\"ok\":{ok}}}", self.key(k), s.join(",")));
    }
    /// the stored nodes; `dec` gives a value for its stored form
    pub fn store(&mut self, snap: &Snap, dec: impl Fn(&[u8]) -> B, cut: bool) {
        let mut locs: Vec<&B> = snap.keys().collect();
        locs.sort();
        let mut s = String::new();
        for l in locs {
            let id = self.loc(l);
            if !s.is_empty() {
                s.push(',');
            }
            match &snap[l].v {
                V::Branch { count, zero, one, split, key } => {
                    let (z, o) = (self.loc(zero), self.loc(one));
                    let _ = write!(s, "[{id},\"b\",{z},{o},{count},{split},{}]", self.key(key));
                }
                V::Leaf { key, data } => {
                    let d = self.loc(data);
                    let _ = write!(s, "[{id},\"l\",{},{d}]", self.key(key));
                }
                V::Data { value } => {
                    let v = self.val(&dec(value));
                    let _ = write!(s, "[{id},\"d\",{v}]");
                }
            }
        }
        self.lines.push(format!("{{\"op\":\"store\",\"cut\":{cut},\"nodes\":[{s}]}}"));
    }
}
