//! The state graph (or simulated behaviours) that TLC exported from VersionedMap.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Insert { base: u64, upd: u64 },
    Remove { m: u64 },
    InsertCut { base: u64, upd: u64 },
    RemoveCut { m: u64 },
    Reject { kind: String, base: u64 },
    RemoveUnknown,
}

/// A bag of contents codes, sorted.
pub type Bag = Vec<(u64, u64)>;

pub struct Lts {
    pub keys: usize,
    pub vals: u64,
    pub states: Vec<Bag>,
    /// outgoing transitions of each state
    pub out: Vec<Vec<(Op, usize)>>,
    pub transitions: usize,
}

pub struct Walks {
    pub keys: usize,
    pub vals: u64,
    /// each a list of (operation, bag after it)
    pub walks: Vec<Vec<(Op, Bag)>>,
}

fn op(w: &[&str]) -> Op {
    let n = |s: &str| s.parse::<u64>().expect("number in exported graph");
    match w[0] {
        "ins" => Op::Insert { base: n(w[1]), upd: n(w[2]) },
        "rem" => Op::Remove { m: n(w[1]) },
        "inscut" => Op::InsertCut { base: n(w[1]), upd: n(w[2]) },
        "remcut" => Op::RemoveCut { m: n(w[1]) },
        "remunk" => Op::RemoveUnknown,
        k => Op::Reject { kind: k.to_owned(), base: n(w[1]) },
    }
}

fn bag(s: &str) -> Bag {
    let mut b: Bag = s
        .split(',')
        .filter(|x| !x.is_empty() && *x != "-")
        .map(|x| {
            let (a, c) = x.split_once('*').expect("bag");
            (a.parse().expect("code"), c.parse().expect("count"))
        })
        .collect();
    b.sort_unstable();
    b
}

impl Lts {
    /// Lines: `C keys vals`, `T src op a b dst` with bags as `code*count,...` or `-`
    pub fn load(path: &str) -> Lts {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
        let mut l = Lts { keys: 0, vals: 0, states: Vec::new(), out: Vec::new(), transitions: 0 };
        let mut index: HashMap<Bag, usize> = HashMap::new();
        let mut get = |l: &mut Lts, b: Bag| {
            *index.entry(b.clone()).or_insert_with(|| {
                l.states.push(b);
                l.out.push(Vec::new());
                l.states.len() - 1
            })
        };
        get(&mut l, Vec::new());
        for line in text.lines() {
            let w: Vec<&str> = line.split_whitespace().collect();
            match w.first() {
                Some(&"C") => {
                    l.keys = w[1].parse().expect("keys");
                    l.vals = w[2].parse().expect("vals");
                }
                Some(&"T") => {
                    let s = get(&mut l, bag(w[1]));
                    let d = get(&mut l, bag(w[5]));
                    l.out[s].push((op(&w[2..5]), d));
                    l.transitions += 1;
                }
                _ => {}
            }
        }
        // the order TLC's workers printed them in is not deterministic
        for o in &mut l.out {
            o.sort_by_key(|(op, _)| format!("{op:?}"));
        }
        l
    }
}

impl Walks {
    /// Lines: `C keys vals`, `W` starts a behaviour, `T op a b dst`
    pub fn load(path: &str) -> Walks {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
        let mut l = Walks { keys: 0, vals: 0, walks: Vec::new() };
        for line in text.lines() {
            let w: Vec<&str> = line.split_whitespace().collect();
            match w.first() {
                Some(&"C") => {
                    l.keys = w[1].parse().expect("keys");
                    l.vals = w[2].parse().expect("vals");
                }
                Some(&"W") => l.walks.push(Vec::new()),
                Some(&"T") => {
                    let o = (op(&w[1..4]), bag(w[4]));
                    l.walks.last_mut().expect("walk").push(o);
                }
                _ => {}
            }
        }
        l
    }
}

/// The abstract contents a code stands for: value of each abstract key, 0 for absent.
pub fn decode(code: u64, keys: usize, vals: u64) -> Vec<u64> {
    let mut c = code;
    (0..keys)
        .map(|_| {
            let d = c % (vals + 1);
            c /= vals + 1;
            d
        })
        .collect()
}

pub fn encode(m: &[u64], vals: u64) -> u64 {
    m.iter().rev().fold(0, |a, d| a * (vals + 1) + d)
}

/// base overlaid with upd
pub fn overlay(base: u64, upd: u64, keys: usize, vals: u64) -> u64 {
    let b = decode(base, keys, vals);
    let u = decode(upd, keys, vals);
    let m: Vec<u64> = (0..keys).map(|k| if u[k] != 0 { u[k] } else { b[k] }).collect();
    encode(&m, vals)
}
