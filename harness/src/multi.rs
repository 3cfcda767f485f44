//! C13: several systems in lockstep; any difference between them is reported.
use crate::sut::{Fail, Kind, NodeV, Res, Snap, Sut, B};
use std::cell::{Cell, RefCell};

thread_local! {
    pub static DIFFERENCE: RefCell<Option<String>> = RefCell::new(None);
    pub static COMPARED: Cell<u64> = Cell::new(0);
}

pub struct Multi {
    pub suts: Vec<(Kind, Box<dyn Sut>)>,
    turn: usize,
}

fn report(s: String) {
    DIFFERENCE.with(|d| {
        let mut d = d.borrow_mut();
        if d.is_none() {
            let mut s = s;
            s.truncate(3000);
            *d = Some(s);
        }
    });
}

/// errors are compared as errors; their wording is not part of the behaviour
fn norm<T: Clone>(r: &Res<T>) -> Result<T, &'static str> {
    match r {
        Ok(v) => Ok(v.clone()),
        Err(Fail::Err(_)) => Err("error"),
        Err(Fail::Panic(_)) => Err("panic"),
    }
}

impl Multi {
    pub fn new(suts: Vec<(Kind, Box<dyn Sut>)>) -> Multi {
        Multi { suts, turn: 0 }
    }
    fn cmp<T: Clone + PartialEq + std::fmt::Debug>(what: &str, all: Vec<(Kind, Res<T>)>) -> Res<T> {
        COMPARED.with(|c| c.set(c.get() + all.len() as u64 - 1));
        let first = norm(&all[0].1);
        for (k, r) in &all[1..] {
            if norm(r) != first {
                report(format!("{what}: {:?} gives {first:?}, {k:?} gives {:?}", all[0].0, norm(r)));
            }
        }
        all.into_iter().next().expect("one system").1
    }
}

fn plain(s: &Snap) -> std::collections::BTreeMap<B, NodeV> {
    s.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}

impl Sut for Multi {
    fn get(&self, root: &[u8], keys: &[B]) -> Res<Vec<(B, Option<B>)>> {
        let all = self.suts.iter().map(|(k, s)| {
            (*k, s.get(root, keys).map(|mut v| {
                v.sort();
                v
            }))
        }).collect();
        Multi::cmp("get", all)
    }
    fn get_one(&self, root: &[u8], key: &[u8]) -> Res<Option<B>> {
        Multi::cmp("get_one", self.suts.iter().map(|(k, s)| (*k, s.get_one(root, key))).collect())
    }
    fn insert(&mut self, base: Option<&[u8]>, keys: &[B], vals: &[B]) -> Res<B> {
        Multi::cmp("insert", self.suts.iter_mut().map(|(k, s)| (*k, s.insert(base, keys, vals))).collect())
    }
    fn insert_one(&mut self, base: Option<&[u8]>, key: &[u8], val: &[u8]) -> Res<B> {
        Multi::cmp("insert_one", self.suts.iter_mut().map(|(k, s)| (*k, s.insert_one(base, key, val))).collect())
    }
    fn remove(&mut self, root: &[u8]) -> Res<()> {
        Multi::cmp("remove", self.suts.iter_mut().map(|(k, s)| (*k, s.remove(root))).collect())
    }
    fn prove(&self, root: &[u8], key: &[u8]) -> Res<Vec<(B, bool)>> {
        Multi::cmp("generate_inclusion_proof", self.suts.iter().map(|(k, s)| (*k, s.prove(root, key))).collect())
    }
    fn verify(&self, root: &[u8], key: &[u8], val: &[u8], proof: &[(B, bool)]) -> Res<()> {
        Multi::cmp("verify_inclusion_proof", self.suts.iter().map(|(k, s)| (*k, s.verify(root, key, val, proof))).collect())
    }
    fn snapshot(&mut self) -> Option<Snap> {
        let mut first: Option<(Kind, Snap)> = None;
        for (k, s) in &mut self.suts {
            if let Some(x) = s.snapshot() {
                match &first {
                    None => first = Some((*k, x)),
                    Some((k0, y)) => {
                        COMPARED.with(|c| c.set(c.get() + 1));
                        if *y != x {
                            let (a, b) = (plain(y), plain(&x));
                            let odd = a.iter().find(|(k, v)| b.get(*k) != Some(v)).map(|(k, v)| (k.clone(), Some(v.clone())))
                                .or_else(|| b.iter().find(|(k, v)| a.get(*k) != Some(v)).map(|(k, _)| (k.clone(), None)));
                            report(format!("stored nodes: {k0:?} has {}, {k:?} has {}; first difference {odd:02x?}", a.len(), b.len()));
                        }
                    }
                }
            }
        }
        first.map(|x| x.1)
    }
    /// one of the systems in turn, or all of them
    fn reopen(&mut self) -> Res<bool> {
        let n = self.suts.len();
        self.turn += 1;
        for (i, (k, s)) in self.suts.iter_mut().enumerate() {
            if self.turn % 3 == 0 || i == self.turn % n {
                if let Err(e) = s.reopen() {
                    report(format!("reopening {k:?} failed: {e}"));
                }
            }
        }
        Ok(true)
    }
    fn flush(&mut self) {
        for (_, s) in &mut self.suts {
            s.flush();
        }
    }
    fn last_snapshot(self: Box<Self>) -> Option<Snap> {
        let mut all = Vec::new();
        for (k, mut s) in self.suts {
            if let Some(x) = s.snapshot() {
                all.push((k, x));
            } else if let Some(x) = s.last_snapshot() {
                all.push((k, x));
            }
        }
        for (k, s) in &all[1..] {
            if *s != all[0].1 {
                report(format!("taken apart at the end, {:?} holds {} nodes and {k:?} holds {}", all[0].0, all[0].1.len(), s.len()));
            }
        }
        all.into_iter().next().map(|x| x.1)
    }
}
