//! One system under test, the abstract state it should be in, and the comparison of the two.
use crate::conc::{bit, diff, Conc};
use crate::lts::{self, Bag, Op};
use crate::rng::Rng;

use crate::sut::{Fail, Kind, NodeV, Snap, Sut, B, CODEC, V};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::rc::Rc;
use std::sync::Mutex;

/// How much of each observation to make
#[derive(Clone, Debug, Default)]
pub struct Panel {
    /// random batch reads per root
    pub batches: usize,
    /// single reads per root
    pub ones: usize,
    /// proofs per root
    pub proofs: usize,
    /// compare the store with what the live roots need
    pub store: bool,
    /// check the shape of the stored trees
    pub shape: bool,
    /// all sets of up to this many keys are read at once
    pub subsets: usize,
    /// check at most this many roots per state
    pub roots: usize,
    /// compare single reads with batches of one
    pub agree: bool,
    /// reads and proofs per root in which a storage operation fails
    pub faults: usize,
}

#[derive(Clone, Debug)]
pub struct Div {
    pub class: &'static str,
    pub ctx: &'static str,
    pub text: String,
}

#[derive(Default)]
pub struct Counts(pub BTreeMap<&'static str, u64>);
impl Counts {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.0.entry(k).or_insert(0) += n;
    }
}

pub fn hex(b: &[u8]) -> String {
    if b.len() > 48 {
        return format!("{}..({} bytes)", hex(&b[..40]), b.len());
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// roots seen for contents and contents seen for roots, across all scenarios that share a hash
#[derive(Default)]
pub struct Binder {
    to: HashMap<u128, B>,
    from: HashMap<B, u128>,
}
pub static BINDERS: Mutex<BTreeMap<(u8, usize), Binder>> = Mutex::new(BTreeMap::new());

fn digest(m: &BTreeMap<B, B>) -> u128 {
    let mut a: u64 = 0xcbf2_9ce4_8422_2325;
    let mut b: u64 = 0x9E37_79B9_7F4A_7C15;
    let mut eat = |x: u64| {
        a = (a ^ x).wrapping_mul(0x0100_0000_01b3).rotate_left(23);
        b = (b.wrapping_add(x)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        b ^= b >> 29;
    };
    for (k, v) in m {
        for s in [k, v] {
            eat(s.len() as u64 + 1000);
            for c in s {
                eat(u64::from(*c));
            }
        }
    }
    (u128::from(a) << 64) | u128::from(b)
}

pub struct World {
    pub conc: Rc<Conc>,
    pub kind: Kind,
    pub sut: Box<dyn Sut>,
    /// root of each live contents
    pub roots: HashMap<u64, B>,
    pub live: Bag,
    pub dirty: bool,
    /// something that does not matter for this property went wrong: the store may hold more
    pub tainted: bool,
    /// root <-> code for everything seen in this scenario
    pub seen: HashMap<u64, B>,
    pub seen_back: HashMap<B, u64>,
    /// what is in `seen`, in order
    handed: Vec<u64>,
    /// content <-> location of every node seen in this scenario
    pub node_loc: HashMap<B, B>,
    pub loc_node: HashMap<B, B>,
    pub rng: Rng,
    pub counts: Counts,
    pub panel: Panel,
    pub limit: usize,
    pub trail: Vec<String>,
    /// divergences that are not this property's business
    pub notes: BTreeMap<String, u64>,
    pub relevant: fn(&Div, bool) -> bool,
    /// running hash of every root handed out, to compare builds
    pub rootlog: u64,
    pub trace: Option<crate::trace::Trace>,
    /// the last insert calls, as they were made
    calls: VecDeque<Call>,
}

struct Call {
    base: u64,
    root: B,
    keys: Vec<B>,
    vals: Vec<B>,
    one: bool,
}

fn div<T>(class: &'static str, ctx: &'static str, text: String) -> Result<T, Div> {
    Err(Div { class, ctx, text })
}

pub fn bag_add(b: &mut Bag, code: u64) {
    match b.binary_search_by_key(&code, |x| x.0) {
        Ok(i) => b[i].1 += 1,
        Err(i) => b.insert(i, (code, 1)),
    }
}
pub fn bag_drop(b: &mut Bag, code: u64) {
    if let Ok(i) = b.binary_search_by_key(&code, |x| x.0) {
        b[i].1 -= 1;
        if b[i].1 == 0 {
            b.remove(i);
        }
    }
}

/// Number of branches a traversal for x passes in the tree over the keys of m
pub fn visits(x: &[u8], m: &BTreeMap<B, B>) -> usize {
    let ds: BTreeSet<usize> = m.keys().filter_map(|y| diff(x, y)).collect();
    if m.contains_key(x) {
        ds.len()
    } else {
        ds.len().saturating_sub(1)
    }
}

/// Whether the tree of m is part of the tree of all
pub fn inside(m: &BTreeMap<B, B>, all: &BTreeMap<B, B>) -> bool {
    if m.len() > all.len() || !m.iter().all(|(k, v)| all.get(k) == Some(v)) {
        return false;
    }
    let (Some(lo), Some(hi)) = (m.keys().next(), m.keys().next_back()) else { return true };
    let Some(d) = diff(lo, hi) else { return true };
    all.keys().filter(|k| diff(lo, k).is_none_or(|x| x >= d)).count() == m.len()
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Expect {
    Answer,
    Error,
    Either,
}

impl World {
    /// What the depth limit allows a read of x at contents m to do
    pub fn expect_read(&self, x: &[u8], m: &BTreeMap<B, B>) -> Expect {
        if self.limit >= m.len() {
            return Expect::Answer;
        }
        if visits(x, m) <= self.limit {
            Expect::Answer
        } else if m.contains_key(x) {
            Expect::Error
        } else {
            Expect::Either
        }
    }
    fn refused(&self, class: &'static str) -> &'static str {
        if self.limit < 4096 { "depth_refused" } else { class }
    }
    pub fn expect_insert(&self, base: &BTreeMap<B, B>, upd: &BTreeMap<B, B>) -> Expect {
        if self.limit >= base.len() || base.is_empty() {
            return Expect::Answer;
        }
        let mut e = Expect::Answer;
        for x in upd.keys() {
            let v = visits(x, base);
            if v > self.limit {
                if base.contains_key(x) || v > self.limit + 1 {
                    return Expect::Error;
                }
                e = Expect::Either;
            }
        }
        e
    }

    /// The root of contents that no live version contains: it was handed out, and all its handles were given back
    fn former_root(&mut self) -> Option<(u64, B)> {
        let hashed = !matches!(self.kind, Kind::Ideal(_));
        if self.dirty || self.tainted || self.handed.len() <= self.live.len() || hashed && self.conc.n < 7 {
            return None;
        }
        for _ in 0..3 {
            let code = *self.rng.pick(&self.handed);
            if self.roots.contains_key(&code) {
                continue;
            }
            let m = self.conc.contents(code);
            if m.len() * (self.live.len() + 1) > 20_000 {
                return None;
            }
            let root = self.seen[&code].clone();
            let held = self.live.iter().any(|x| inside(&m, &self.conc.contents(x.0)));
            if !held && !self.roots.values().any(|r| *r == root) {
                return Some((code, root));
            }
        }
        None
    }

    /// What no live version contains cannot be read
    fn former(&mut self) -> Result<(), Div> {
        let Some((code, root)) = self.former_root() else { return Ok(()) };
        self.counts.add("former_roots_read", 1);
        let mut q: Vec<B> = self.conc.contents(code).keys().cloned().collect();
        self.rng.shuffle(&mut q);
        q.truncate(12);
        q.push(self.conc.any_key(&mut self.rng));
        let all = self.sut.get(&root, &q);
        let one = self.sut.get_one(&root, &q[0]);
        let proof = self.sut.prove(&root, &q[0]);
        if let Some(t) = &mut self.trace {
            t.get(&root, &q, all.as_ref().ok());
            t.get_one(&root, &q[0], &one);
            t.prove(&root, &q[0], &proof);
        }
        let there = self.sut.snapshot().is_none_or(|s| s.contains_key(&root));
        let text = |how: String| format!("{how} at {}, the root of {} until it was removed (the live versions are {:?})", hex(&root), self.show(code), self.live);
        let absent = |r: &[(B, Option<B>)]| r.iter().all(|(k, v)| v.is_none() && q.contains(k)) && q.iter().all(|k| r.iter().any(|x| x.0 == *k));
        let class = if there { "store_extra" } else { "former_read" };
        let bad = match (&all, &one, &proof) {
            (Ok(r), _, _) if !absent(r) => Some((class, text(format!("get answers {} of {} keys", r.iter().filter(|x| x.1.is_some()).count(), q.len())))),
            (_, Ok(Some(v)), _) => Some((class, text(format!("get_one of {} gives {}", hex(&q[0]), hex(v))))),
            (_, _, Ok(p)) => Some((if there { "store_extra" } else { "proof_absent" }, text(format!("{} has a proof of {} elements", hex(&q[0]), p.len())))),
            (_, _, Err(Fail::Panic(s))) => Some(("proof_absent", text(format!("proving panicked: {s}")))),
            (Err(e), _, _) => Some(("unknown_read", text(format!("get failed: {e}")))),
            (_, Err(e), _) => Some(("unknown_read", text(format!("get_one failed: {e}")))),
            _ => None,
        };
        match bad {
            Some((class, text)) => self.soft(div(class, "", text)),
            None => Ok(()),
        }
    }

    pub fn unknown_root(&mut self) -> B {
        match self.rng.below(4) {
            0 | 1 => {
                if let Some((_, r)) = self.former_root() {
                    return r;
                }
            }
            2 if self.conc.n >= 7 && !self.live.is_empty() => {
                // a live root but for one bit
                let i = self.rng.below(self.live.len());
                let mut r = self.roots[&self.live[i].0].clone();
                let at = match self.rng.below(3) {
                    0 => 0,
                    1 => self.conc.n * 8 - 1,
                    _ => self.rng.below(self.conc.n * 8),
                };
                crate::conc::flip(&mut r, at);
                let clash = match self.sut.snapshot() {
                    Some(s) => s.contains_key(&r),
                    None => self.seen_back.contains_key(&r),
                };
                if !clash {
                    return r;
                }
            }
            _ => {}
        }
        loop {
            let r = self.rng.bytes(self.conc.n);
            let clash = match self.sut.snapshot() {
                Some(s) => s.contains_key(&r),
                None => self.seen_back.contains_key(&r),
            };
            if !clash || self.conc.n == 1 && self.counts.0.is_empty() {
                return r;
            }
        }
    }

    pub fn root_of(&self, code: u64) -> Option<B> {
        if code == 0 {
            None
        } else {
            Some(self.roots[&code].clone())
        }
    }

    #[allow(clippy::too_many_arguments)]
    pub fn new(conc: Rc<Conc>, kind: Kind, sut: Box<dyn Sut>, rng: Rng, panel: Panel, limit: usize,
               relevant: fn(&Div, bool) -> bool) -> World {
        World {
            conc, kind, sut, roots: HashMap::new(), live: Vec::new(), dirty: false, tainted: false,
            seen: HashMap::new(), seen_back: HashMap::new(), handed: Vec::new(), node_loc: HashMap::new(),
            loc_node: HashMap::new(), rng, counts: Counts::default(), panel, limit,
            trail: Vec::new(), notes: BTreeMap::new(), relevant, rootlog: 0xcbf2_9ce4_8422_2325,
            trace: None,
            calls: VecDeque::new(),
        }
    }

    /// Passes on a divergence that matters for the property, counts any other
    pub fn soft(&mut self, r: Result<(), Div>) -> Result<(), Div> {
        match r {
            Err(d) if !(self.relevant)(&d, self.dirty) => {
                *self.notes.entry(format!("{}/{}", d.class, d.ctx)).or_insert(0) += 1;
                Ok(())
            }
            r => r,
        }
    }

    pub fn note(&mut self, s: String) {
        if self.trail.len() < 4000 {
            self.trail.push(s);
        }
    }

    /// The same contents must always have this root, and no other contents may have it
    fn bind(&mut self, code: u64, root: &B, ctx: &'static str) -> Result<(), Div> {
        self.counts.add("roots_compared", 1);
        if let Some(old) = self.seen.get(&code) {
            if old != root {
                return div("same_contents_other_root", ctx, format!(
                    "contents {} had root {} and now have root {}", self.show(code), hex(old), hex(root)));
            }
        }
        if let Some(&other) = self.seen_back.get(root) {
            if other != code && self.conc.contents(other) != self.conc.contents(code) {
                return div("other_contents_same_root", ctx, format!(
                    "contents {} and {} share root {}", self.show(other), self.show(code), hex(root)));
            }
        }
        if self.seen.insert(code, root.clone()).is_none() {
            self.handed.push(code);
        }
        self.seen_back.insert(root.clone(), code);
        let family = match self.kind {
            Kind::Ideal(_) => return Ok(()),
            Kind::Core(_) => 1,
            _ => 2,
        };
        if self.conc.n < 7 {
            return Ok(()); // the crate's hash is cut to the key width: collisions are possible
        }
        let d = digest(&self.conc.contents(code));
        let mut all = BINDERS.lock().unwrap_or_else(|e| e.into_inner());
        let b = all.entry((family, self.conc.n)).or_default();
        if b.to.len() > 2_000_000 {
            return Ok(());
        }
        if let Some(old) = b.to.get(&d) {
            if old != root {
                return div("same_contents_other_root", ctx, format!(
                    "contents {} had root {} in another history and have root {} here", self.show(code), hex(old), hex(root)));
            }
        } else if let Some(o) = b.from.get(root) {
            if *o != d {
                return div("other_contents_same_root", ctx, format!(
                    "contents {} have root {} of different contents of another history", self.show(code), hex(root)));
            }
        }
        b.to.insert(d, root.clone());
        b.from.insert(root.clone(), d);
        Ok(())
    }

    pub fn show(&self, code: u64) -> String {
        let m = self.conc.contents(code);
        let mut s: Vec<String> = m.iter().take(6).map(|(k, v)| format!("{}={}", hex(k), hex(v))).collect();
        if m.len() > 6 {
            s.push(format!("... {} pairs", m.len()));
        }
        format!("{{{}}}", s.join(" "))
    }

    /// keys and values of a batch in random order
    pub fn batch(&mut self, upd: &BTreeMap<B, B>) -> (Vec<B>, Vec<B>) {
        let mut p: Vec<(B, B)> = upd.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        match self.rng.below(4) {
            0 => {}
            1 => p.reverse(),
            _ => self.rng.shuffle(&mut p),
        }
        p.into_iter().unzip()
    }

    fn codec_ok(&mut self, ctx: &'static str) -> Result<(), Div> {
        match CODEC.with(|c| c.borrow_mut().take()) {
            None => Ok(()),
            Some(s) => div("codec", ctx, s),
        }
    }

    /// Returns the code of the new contents, or None if the depth limit refused the insert
    pub fn insert(&mut self, base: u64, upd: u64, single: bool) -> Result<Option<u64>, Div> {
        let u = self.conc.contents(upd);
        let b = self.conc.contents(base);
        let code = lts::overlay(base, upd, self.conc.kabs, self.conc.vals);
        let base_root = self.root_of(base);
        let (keys, vals) = self.batch(&u);
        let one = keys.len() == 1 && single;
        self.note(format!("insert{} base={} [{}] {}", if one { "_one" } else { "" },
            base_root.as_deref().map_or("none".into(), hex), base, self.show(upd)));
        let expect = self.expect_insert(&b, &u);
        let before = if expect == Expect::Answer { None } else { self.sut.snapshot() };
        self.counts.add("inserts", 1);
        if keys.len() <= 300 {
            if let Some(r) = &base_root {
                self.calls.push_front(Call { base, root: r.clone(), keys: keys.clone(), vals: vals.clone(), one });
                self.calls.truncate(4);
            }
        }
        let r = if one {
            self.sut.insert_one(base_root.as_deref(), &keys[0], &vals[0])
        } else {
            self.sut.insert(base_root.as_deref(), &keys, &vals)
        };
        self.codec_ok("insert")?;
        match r {
            Err(Fail::Panic(s)) => {
                let text = format!("a valid insert of {} onto {} panicked: {s}", self.show(upd), self.show(base));
                self.tainted = true;
                self.soft(div("insert_failed", "panic", text)).map(|()| None)
            }
            Err(Fail::Err(s)) => {
                if expect == Expect::Answer {
                    let text = format!("a valid insert of {} onto {} failed: {s}", self.show(upd), self.show(base));
                    let class = if self.limit < 4096 { "depth_refused" } else { "insert_failed" };
                    let r = self.soft(div(class, "error", text));
                    self.tainted = true;
                    return r.map(|()| None);
                }
                self.counts.add("refused_deep", 1);
                self.sut.flush();
                if before != self.sut.snapshot() {
                    let text = format!("an insert refused for depth changed the store: {}", self.show(upd));
                    self.soft(div("reject_trace", "depth", text))?;
                    self.tainted = true;
                }
                Ok(None)
            }
            Ok(root) => {
                if expect == Expect::Error {
                    let text = format!("an insert of {} that passes below depth {} was accepted on {}",
                        self.show(upd), self.limit, self.show(base));
                    self.soft(div("depth_accepted", "insert", text))?;
                }
                self.note(format!("   -> {}", hex(&root)));
                for b in &root {
                    self.rootlog = (self.rootlog ^ u64::from(*b)).wrapping_mul(0x0100_0000_01b3);
                }
                let b = self.bind(code, &root, "insert");
                self.soft(b)?;
                self.roots.insert(code, root.clone());
                bag_add(&mut self.live, code);
                if let Some(t) = &mut self.trace {
                    t.insert(base_root.as_deref(), &u, &root);
                }
                Ok(Some(code))
            }
        }
    }

    pub fn remove(&mut self, code: u64) -> Result<(), Div> {
        let root = self.roots[&code].clone();
        self.note(format!("remove {} [{}]", hex(&root), code));
        self.counts.add("removes", 1);
        let r = self.sut.remove(&root);
        self.codec_ok("remove")?;
        if let Err(e) = r {
            self.soft(div("remove_failed", "", format!("removing a live root failed: {e}")))?;
            self.tainted = true;
        }
        bag_drop(&mut self.live, code);
        if self.live.binary_search_by_key(&code, |x| x.0).is_err() {
            self.roots.remove(&code);
        }
        if let Some(t) = &mut self.trace {
            t.remove(&root);
        }
        Ok(())
    }

    pub fn reject(&mut self, kind: &str, base: u64) -> Result<(), Div> {
        if kind == "value" && !self.sut.refuses() {
            return Ok(());
        }
        if kind == "unknown" {
            self.again()?;
        }
        let base_root = self.root_of(base);
        let before = self.sut.snapshot();
        let kabs = self.conc.kabs;
        let vals = self.conc.vals;
        let code = lts::encode(
            &(0..kabs).map(|_| self.rng.next() % (vals + 1)).collect::<Vec<_>>(), vals).max(1);
        let u = self.conc.contents(code);
        let (mut keys, mut values) = self.batch(&u);
        let mut base_arg = base_root.clone();
        match kind {
            "len" => match self.rng.below(5) {
                0 => {
                    keys.pop();
                }
                1 => {
                    values.pop();
                }
                2 => values.push(vec![9]),
                3 => values.clear(),
                _ => {
                    let extra = (0..50).find_map(|_| {
                        let k = self.conc.any_key(&mut self.rng);
                        if keys.contains(&k) { None } else { Some(k) }
                    });
                    match extra {
                        Some(k) => keys.push(k),
                        None => values.push(vec![9]),
                    }
                }
            },
            "empty" => {
                keys.clear();
                values.clear();
            }
            "dup" => {
                for _ in 0..1 + self.rng.below(2) {
                    let i = self.rng.below(keys.len());
                    let (k, v) = (keys[i].clone(), values[i].clone());
                    let v = match self.rng.below(3) {
                        0 => v,
                        1 => vec![0xEE],
                        _ => self.rng.pick(&values).clone(),
                    };
                    let at = self.rng.below(keys.len() + 1);
                    keys.insert(at, k);
                    values.insert(at, v);
                }
            }
            "value" => {
                for _ in 0..1 + self.rng.below(2) {
                    let i = self.rng.below(values.len());
                    values[i] = crate::sut::BAD.to_vec();
                }
            }
            _ => base_arg = Some(self.unknown_root()),
        }
        self.note(format!("invalid insert ({kind}) base={} {} keys {} values",
            base_arg.as_deref().map_or("none".into(), hex), keys.len(), values.len()));
        self.counts.add("invalid_requests", 1);
        let r = self.sut.insert(base_arg.as_deref(), &keys, &values);
        let show = || format!("kind {kind}, base {:?}, keys {:?}", base_arg.as_deref().map(hex),
            keys.iter().take(20).map(|k| hex(k)).collect::<Vec<_>>());
        match r {
            Ok(root) => {
                let text = format!("an invalid insert returned root {}: {}", hex(&root), show());
                self.tainted = true;
                return self.soft(div("invalid_accepted", "", text));
            }
            Err(Fail::Panic(s)) => {
                let text = format!("an invalid insert panicked: {s}: {}", show());
                self.tainted = true;
                return self.soft(div("invalid_panic", "", text));
            }
            Err(Fail::Err(_)) => {}
        }
        // an unknown base is rejected by the single-key call too
        if kind == "unknown" {
            if let Ok(root) = self.sut.insert_one(base_arg.as_deref(), &keys[0], &values[0]) {
                return div("invalid_accepted", "", format!("insert_one on an unknown base returned {}: {}", hex(&root), show()));
            }
        }
        if kind == "value" {
            let v = crate::sut::BAD;
            if let Ok(root) = self.sut.insert_one(base_arg.as_deref(), &keys[0], v) {
                return div("invalid_accepted", "", format!("insert_one of a value that cannot be encoded returned {}: {}", hex(&root), show()));
            }
            if let (Some(r), Ok(())) = (&base_arg, base_arg.as_ref().map_or(Ok(()), |r| self.sut.verify(r, &keys[0], v, &[]))) {
                return div("invalid_accepted", "", format!("a claim about a value that cannot be encoded was accepted at {}", hex(r)));
            }
        }
        self.sut.flush();
        let after = self.sut.snapshot();
        if before != after {
            return div("reject_trace", "", format!("a rejected insert changed the store: {}; {}", show(), snap_diff(&before, &after)));
        }
        if let Some(t) = &mut self.trace {
            t.inert(kind);
        }
        Ok(())
    }

    /// An insert repeated word for word, once its base is gone
    pub fn again(&mut self) -> Result<(), Div> {
        let hashed = !matches!(self.kind, Kind::Ideal(_));
        if self.dirty || self.tainted || hashed && self.conc.n < 7 {
            return Ok(());
        }
        let calls = std::mem::take(&mut self.calls);
        for c in &calls {
            let m = self.conc.contents(c.base);
            if self.roots.contains_key(&c.base) || m.len() * (self.live.len() + 1) > 20_000 {
                continue;
            }
            if self.live.iter().any(|x| inside(&m, &self.conc.contents(x.0))) {
                continue;
            }
            let before = self.sut.snapshot();
            self.note(format!("the insert of {} keys onto {}, which is gone, again", c.keys.len(), hex(&c.root)));
            self.counts.add("invalid_requests", 1);
            let r = if c.one {
                self.sut.insert_one(Some(&c.root), &c.keys[0], &c.vals[0])
            } else {
                self.sut.insert(Some(&c.root), &c.keys, &c.vals)
            };
            self.codec_ok("insert")?;
            match r {
                Ok(root) => {
                    self.tainted = true;
                    let text = format!("an insert onto {}, which was removed, returned {}: it repeats an earlier call", hex(&c.root), hex(&root));
                    return self.soft(div("invalid_accepted", "", text));
                }
                Err(Fail::Panic(s)) => {
                    self.tainted = true;
                    return self.soft(div("invalid_panic", "", format!("an insert onto {}, which was removed, panicked: {s}", hex(&c.root))));
                }
                Err(Fail::Err(_)) => {}
            }
            self.sut.flush();
            let after = self.sut.snapshot();
            if before != after {
                return div("reject_trace", "", format!("an insert onto {}, which was removed, changed the store: {}", hex(&c.root), snap_diff(&before, &after)));
            }
            if let Some(t) = &mut self.trace {
                t.inert("unknown");
            }
        }
        self.calls = calls;
        Ok(())
    }

    pub fn remove_unknown(&mut self) -> Result<(), Div> {
        let before = self.sut.snapshot();
        let r = self.unknown_root();
        self.note(format!("remove unknown {}", hex(&r)));
        self.counts.add("invalid_requests", 1);
        if let Err(e) = self.sut.remove(&r) {
            return div("unknown_remove", "", format!("removing unknown root {} failed: {e}", hex(&r)));
        }
        self.sut.flush();
        let after = self.sut.snapshot();
        if before != after {
            return div("unknown_remove", "", format!("removing unknown root {} changed the store: {}", hex(&r), snap_diff(&before, &after)));
        }
        let mut q = self.conc.all_keys();
        q.truncate(20);
        q.push(self.conc.any_key(&mut self.rng));
        match self.sut.get(&r, &q) {
            Ok(m) => {
                let ok = m.iter().all(|(k, v)| v.is_none() && q.contains(k)) && q.iter().all(|k| m.iter().any(|x| x.0 == *k));
                if !ok {
                    return div("unknown_read", "", format!("reading unknown root {} answered {:?}", hex(&r), m.len()));
                }
            }
            Err(e) => return div("unknown_read", "", format!("reading unknown root {} failed: {e}", hex(&r))),
        }
        match self.sut.get_one(&r, &q[0]) {
            Ok(None) => {}
            other => return div("unknown_read", "", format!("reading a key of unknown root {} gave {:?}", hex(&r), other.map(|v| v.map(|x| hex(&x))).map_err(|e| e.to_string()))),
        }
        match self.sut.prove(&r, &q[0]) {
            Err(Fail::Err(_)) => {}
            Ok(p) => return div("proof_absent", "unknown", format!("an unknown root gave a proof of {} elements", p.len())),
            Err(Fail::Panic(s)) => return div("proof_absent", "panic", format!("proving at an unknown root panicked: {s}")),
        }
        if let Some(t) = &mut self.trace {
            t.inert("remunk");
        }
        Ok(())
    }

    /// One batch read compared with the contents
    pub fn read(&mut self, code: u64, q: &[B], ctx: &'static str) -> Result<(), Div> {
        let m = self.conc.contents(code);
        let root = self.roots[&code].clone();
        self.counts.add("batch_reads", 1);
        self.counts.add("keys_read", q.len() as u64);
        let mut expect = Expect::Answer;
        if self.limit < m.len() {
            for k in q {
                match self.expect_read(k, &m) {
                    Expect::Error => expect = Expect::Error,
                    Expect::Either if expect == Expect::Answer => expect = Expect::Either,
                    _ => {}
                }
            }
        }
        let r = self.sut.get(&root, q);
        if let Some(t) = &mut self.trace {
            t.get(&root, q, r.as_ref().ok());
        }
        let show = |why: String| {
            format!("get at {} of {} with keys [{}]: {why}", hex(&root), self.show(code),
                q.iter().take(12).map(|k| hex(k)).collect::<Vec<_>>().join(" "))
        };
        match r {
            Err(Fail::Panic(s)) => div("read", ctx, show(format!("panicked: {s}"))),
            Err(Fail::Err(s)) if expect == Expect::Answer => div(self.refused("read"), ctx, show(format!("failed: {s}"))),
            Err(_) => Ok(()),
            Ok(_) if expect == Expect::Error => div("depth_answer", ctx, show(format!("a key below depth {} was answered", self.limit))),
            Ok(res) => {
                let want: BTreeSet<&B> = q.iter().collect();
                let mut got: BTreeSet<B> = BTreeSet::new();
                for (k, v) in res {
                    if v.as_ref() != m.get(&k) {
                        return div("read", ctx, show(format!("key {} gave {:?}, expected {:?}", hex(&k),
                            v.as_deref().map(hex), m.get(&k).map(|x| hex(x)))));
                    }
                    got.insert(k);
                }
                if got.len() != want.len() || !got.iter().all(|k| want.contains(k)) {
                    return div("read", ctx, show(format!("{} distinct keys asked, {} answered", want.len(), got.len())));
                }
                Ok(())
            }
        }
    }

    pub fn read_one(&mut self, code: u64, k: &[u8], ctx: &'static str) -> Result<(), Div> {
        let m = self.conc.contents(code);
        let root = self.roots[&code].clone();
        self.counts.add("single_reads", 1);
        let expect = self.expect_read(k, &m);
        let r = self.sut.get_one(&root, k);
        if let Some(t) = &mut self.trace {
            t.get_one(&root, k, &r);
        }
        let show = |why: String| format!("get_one({}) at {} of {}: {why}", hex(k), hex(&root), self.show(code));
        match r {
            Err(Fail::Panic(s)) => div("read_one", ctx, show(format!("panicked: {s}"))),
            Err(Fail::Err(s)) if expect == Expect::Answer => div(self.refused("read_one"), ctx, show(format!("failed: {s}"))),
            Err(_) => Ok(()),
            Ok(v) if expect == Expect::Error => div("depth_answer", ctx, show(format!("a key below depth {} was answered with {:?}", self.limit, v.map(|x| hex(&x))))),
            Ok(v) if v.as_ref() != m.get(k) => div("read_one", ctx, show(format!("gave {:?}, expected {:?}",
                v.as_deref().map(hex), m.get(k).map(|x| hex(x))))),
            Ok(_) => Ok(()),
        }
    }

    pub fn prove(&mut self, code: u64, k: &[u8], ctx: &'static str) -> Result<(), Div> {
        let m = self.conc.contents(code);
        let root = self.roots[&code].clone();
        self.counts.add("proofs", 1);
        let expect = self.expect_read(k, &m);
        let r = self.sut.prove(&root, k);
        if let Some(t) = &mut self.trace {
            t.prove(&root, k, &r);
        }
        let show = |why: String| format!("proof of {} at {} of {}: {why}", hex(k), hex(&root), self.show(code));
        match (r, m.get(k)) {
            (Err(Fail::Panic(s)), _) => div("proof", ctx, show(format!("panicked: {s}"))),
            (Err(Fail::Err(s)), Some(_)) if expect == Expect::Answer => div(self.refused("proof"), ctx, show(format!("failed: {s}"))),
            (Err(_), _) => Ok(()),
            (Ok(_), Some(_)) if expect == Expect::Error => div("depth_answer", ctx, show(format!("a key below depth {} was proved", self.limit))),
            (Ok(p), None) => div("proof_absent", ctx, show(format!("an absent key got a proof of {} elements", p.len()))),
            (Ok(p), Some(v)) => {
                if let Err(e) = self.sut.verify(&root, k, v, &p) {
                    return div("proof", ctx, show(format!("its proof of {} elements is rejected: {e}", p.len())));
                }
                // and it proves nothing else
                let mut other = v.clone();
                match other.first_mut() {
                    Some(b) => *b ^= 1,
                    None => other.push(0),
                }
                if self.sut.verify(&root, k, &other, &p).is_ok() {
                    return div("forged", ctx, show(format!("its proof is accepted for value {}", hex(&other))));
                }
                Ok(())
            }
        }
    }

    fn query(&mut self) -> Vec<B> {
        let len = match self.rng.below(4) {
            0 => 1 + self.rng.below(2),
            1 => 2 + self.rng.below(4),
            2 => 3 + self.rng.below(10),
            _ => 5 + self.rng.below(40),
        };
        let mut q: Vec<B> = (0..len).map(|_| self.conc.any_key(&mut self.rng)).collect();
        match self.rng.below(4) {
            0 => q.sort(),
            1 => {
                q.sort();
                q.dedup();
            }
            _ => {}
        }
        q
    }

    fn soft_read(&mut self, code: u64, q: &[B], ctx: &'static str) -> Result<(), Div> {
        let r = self.read(code, q, ctx);
        self.soft(r)
    }

    /// Everything a user can see at one live root
    pub fn check_root(&mut self, code: u64, ctx: &'static str) -> Result<(), Div> {
        let p = self.panel.clone();
        let m = self.conc.contents(code);
        if p.batches > 0 {
            let mut q: Vec<B> = self.conc.all_keys();
            q.extend(self.conc.absent.iter().cloned());
            self.rng.shuffle(&mut q);
            self.soft_read(code, &q, ctx)?;
            let present: Vec<B> = m.keys().cloned().collect();
            self.soft_read(code, &present, ctx)?;
            for _ in 0..p.batches {
                let q = self.query();
                self.soft_read(code, &q, ctx)?;
            }
            if self.rng.chance(1, 8) {
                self.soft_read(code, &[], ctx)?;
            }
        }
        if p.subsets > 0 {
            let mut u: Vec<B> = self.conc.all_keys();
            u.extend(self.conc.absent.iter().cloned());
            self.rng.shuffle(&mut u);
            u.truncate(9);
            for mask in 1_u32..(1 << u.len()) {
                if mask.count_ones() as usize <= p.subsets {
                    let q: Vec<B> = (0..u.len()).filter(|i| mask >> i & 1 == 1).map(|i| u[i].clone()).collect();
                    self.soft_read(code, &q, ctx)?;
                }
            }
        }
        let small = self.conc.all_keys().len() <= p.ones;
        let mut ones: Vec<B> = if small { self.conc.all_keys() } else { Vec::new() };
        for _ in 0..p.ones {
            ones.push(self.conc.any_key(&mut self.rng));
        }
        for k in ones {
            let r = self.read_one(code, &k, ctx);
            self.soft(r)?;
            if p.agree {
                let r = self.agree(code, &k);
                self.soft(r)?;
            }
        }
        let mut proved: Vec<B> = if m.len() <= p.proofs { m.keys().cloned().collect() } else { Vec::new() };
        for _ in 0..p.proofs {
            proved.push(self.conc.any_key(&mut self.rng));
        }
        for k in proved {
            let r = self.prove(code, &k, ctx);
            self.soft(r)?;
        }
        for _ in 0..p.faults {
            let r = self.failing_read(code);
            self.soft(r)?;
        }
        Ok(())
    }

    /// A read or proof in which one storage operation fails, or all from one on, at each of its
    /// operations: it may answer rightly or with an error
    fn failing_read(&mut self, code: u64) -> Result<(), Div> {
        use crate::sut::FaultKind;
        if !matches!(self.kind, Kind::Ideal(_) | Kind::Core(_) | Kind::Caller(_)) {
            return Ok(());
        }
        let m = self.conc.contents(code);
        let root = self.roots[&code].clone();
        let which = self.rng.below(3);
        let mut q = self.query();
        if self.rng.chance(1, 2) {
            let present: Vec<B> = m.keys().cloned().collect();
            let k = self.rng.pick(&present).clone();
            q.insert(0, k);
        }
        q.truncate(6);
        let kind = if self.rng.chance(1, 2) { FaultKind::Once } else { FaultKind::Dead };
        for at in 0..40 {
            self.sut.fault(Some(at), kind);
            let (what, r) = match which {
                0 => {
                    let r = self.sut.get(&root, &q);
                    ("get", r.map(|v| v.iter().all(|(k, v)| v.as_ref() == m.get(k)) && q.iter().all(|k| v.iter().any(|x| x.0 == *k))))
                }
                1 => ("get_one", self.sut.get_one(&root, &q[0]).map(|v| v.as_ref() == m.get(&q[0]))),
                _ => {
                    let r = self.sut.prove(&root, &q[0]);
                    ("proof", r.map(|p| m.get(&q[0]).is_some_and(|v| self.sut.verify(&root, &q[0], v, &p).is_ok())))
                }
            };
            let (_, fired) = self.sut.ops();
            self.sut.fault(None, kind);
            if !fired {
                break;
            }
            self.counts.add("reads_cut", 1);
            let show = |why: String| format!("{what} at {} of {} with keys [{}], where the storage operation {at} fails, {why}", hex(&root),
                self.show(code), q.iter().map(|k| hex(k)).collect::<Vec<_>>().join(" "));
            match r {
                Ok(false) => return div("cut_answer", "", show("is answered wrongly".into())),
                Err(Fail::Panic(s)) => return div("cut_panic", "", show(format!("panicked: {s}"))),
                _ => {}
            }
        }
        Ok(())
    }

    /// get_one and a batch read of one key are the same question
    fn agree(&mut self, code: u64, k: &B) -> Result<(), Div> {
        let root = self.roots[&code].clone();
        self.counts.add("single_vs_batch", 1);
        let one = self.sut.get_one(&root, k);
        let batch = self.sut.get(&root, std::slice::from_ref(k));
        let a = one.as_ref().ok().cloned();
        let b = batch.as_ref().ok().map(|v| v.iter().find(|x| x.0 == *k).and_then(|x| x.1.clone()));
        if a != b {
            return div("single_batch", "", format!("at {} of {} the key {} gives {:?} alone and {:?} in a batch of one",
                hex(&root), self.show(code), hex(k), one.map(|v| v.map(|x| hex(&x))).map_err(|e| e.to_string()),
                batch.map(|v| v.len()).map_err(|e| e.to_string())));
        }
        Ok(())
    }

    /// The whole observable state after an operation; `new` is the contents just inserted
    pub fn check_state(&mut self, new: Option<u64>, ctx_other: &'static str) -> Result<(), Div> {
        self.counts.add("states_compared", 1);
        let mut codes: Vec<u64> = self.live.iter().map(|x| x.0).filter(|c| Some(*c) != new).collect();
        if codes.len() + 1 > self.panel.roots {
            self.rng.shuffle(&mut codes);
            codes.truncate(self.panel.roots.saturating_sub(1));
        }
        let before = if self.panel.batches > 0 && self.rng.chance(1, 8) { self.sut.snapshot() } else { None };
        for code in codes {
            self.check_root(code, ctx_other)?;
        }
        if let Some(code) = new {
            self.check_root(code, "new")?;
        }
        if self.rng.chance(1, 2) {
            self.former()?;
        }
        if before.is_some() && before != self.sut.snapshot() {
            self.soft(div("read_changes", "", "reading changed the store".into()))?;
        }
        if self.panel.store || self.panel.shape {
            if let Some(snap) = self.sut.snapshot() {
                let r = self.check_store(&snap);
                self.soft(r)?;
            }
        }
        self.backends()
    }

    pub fn check_store(&mut self, snap: &Snap) -> Result<(), Div> {
        let mut reach: HashSet<B> = HashSet::new();
        self.counts.add("stores_compared", 1);
        self.counts.add("stored_nodes_compared", snap.len() as u64);
        for (code, _) in self.live.clone() {
            let root = self.roots[&code].clone();
            let m = self.conc.contents(code);
            let mut keys = Vec::new();
            self.walk_tree(snap, &root, &mut reach, &mut keys, &m, 0)?;
            let held: HashSet<&B> = keys.iter().collect();
            let missing = keys.len() != m.len() || !m.keys().all(|k| held.contains(k));
            if missing && self.panel.shape {
                return div("shape", "contents", format!("the tree at {} holds {} leaves for {}", hex(&root), keys.len(), self.show(code)));
            }
        }
        if self.panel.store && !self.dirty && !self.tainted {
            if let Some(extra) = snap.keys().find(|k| !reach.contains(*k)) {
                return div("store_extra", "", format!("{} nodes stored, {} needed by {} live roots; left over: {} {:?}",
                    snap.len(), reach.len(), self.live.len(), hex(extra), snap[extra]));
            }
        }
        Ok(())
    }

    fn bind_node(&mut self, desc: B, loc: &B) -> Result<(), Div> {
        if let Some(l) = self.node_loc.get(&desc) {
            if l != loc {
                return div("shape", "location", format!("the same node content was stored at {} and at {}", hex(l), hex(loc)));
            }
        }
        if let Some(d) = self.loc_node.get(loc) {
            if *d != desc {
                return div("shape", "location", format!("different node contents were stored at {}", hex(loc)));
            }
        }
        self.node_loc.insert(desc.clone(), loc.clone());
        self.loc_node.insert(loc.clone(), desc);
        Ok(())
    }

    pub fn walk_tree(&mut self, snap: &Snap, loc: &B, reach: &mut HashSet<B>, keys: &mut Vec<B>,
                 m: &BTreeMap<B, B>, depth: usize) -> Result<(), Div> {
        let node: &NodeV = match snap.get(loc) {
            Some(n) => n,
            None => return div("store_missing", "", format!("node {} is needed by a live root of {} keys and is not stored", hex(loc), m.len())),
        };
        if depth > self.conc.n * 8 + 1 {
            return div("shape", "depth", format!("a path of more than {} branches", self.conc.n * 8));
        }
        reach.insert(loc.clone());
        let first = keys.len();
        match &node.v {
            V::Branch { count, zero, one, split, key } => {
                self.walk_tree(snap, zero, reach, keys, m, depth + 1)?;
                let mid = keys.len();
                self.walk_tree(snap, one, reach, keys, m, depth + 1)?;
                if !self.panel.shape {
                    return Ok(());
                }
                self.counts.add("branches_checked", 1);
                let all = &keys[first..];
                let bad = |why: String| div("shape", "branch", format!("branch {} over [{}]: {why}", hex(loc),
                    all.iter().take(12).map(|k| hex(k)).collect::<Vec<_>>().join(" ")));
                if *split >= self.conc.n * 8 {
                    return bad(format!("split position {split}"));
                }
                if *count != all.len() as u64 {
                    return bad(format!("counts {count} leaves, has {}", all.len()));
                }
                for (i, k) in all.iter().enumerate() {
                    let d = diff(k, &all[0]).unwrap_or(usize::MAX);
                    if d < *split {
                        return bad(format!("splits at {split}, its keys differ at {d}"));
                    }
                    let side = u8::from(first + i >= mid);
                    if bit(k, *split) != side {
                        return bad(format!("key {} is on side {side} of position {split}", hex(k)));
                    }
                }
                if diff(key, &all[0]).map_or(false, |d| d < *split) {
                    return bad(format!("records key {}", hex(key)));
                }
                let mut desc = vec![b'b'];
                desc.extend(zero);
                desc.extend(one);
                self.bind_node(desc, loc)?;
            }
            V::Leaf { key, data } => {
                keys.push(key.clone());
                let value = match snap.get(data) {
                    Some(NodeV { v: V::Data { value }, .. }) => value.clone(),
                    Some(_) => return div("shape", "leaf", format!("leaf {} leads to a node that is not data", hex(loc))),
                    None => return div("store_missing", "", format!("data {} of the leaf of {} is not stored", hex(data), hex(key))),
                };
                reach.insert(data.clone());
                if self.panel.shape {
                    let want = m.get(key).map(|v| self.sut.enc(v));
                    if want.as_ref() != Some(&value) {
                        return div("shape", "leaf", format!("the leaf of {} leads to {}, expected {:?}", hex(key), hex(&value), want.map(|w| hex(&w))));
                    }
                    let mut desc = vec![b'l'];
                    desc.extend(key);
                    desc.extend(data);
                    self.bind_node(desc, loc)?;
                    let mut desc = vec![b'd'];
                    desc.extend(key);
                    desc.extend(&value);
                    self.bind_node(desc, data)?;
                }
            }
            V::Data { .. } => return div("shape", "data", format!("a data node {} in the place of a branch or leaf", hex(loc))),
        }
        Ok(())
    }

    fn backends(&mut self) -> Result<(), Div> {
        match crate::multi::DIFFERENCE.with(|d| d.borrow_mut().take()) {
            None => Ok(()),
            Some(s) => self.soft(div("backends", "", s)),
        }
    }

    pub fn apply(&mut self, op: &Op) -> Result<Option<u64>, Div> {
        let r = self.apply_inner(op);
        self.backends()?;
        r
    }

    fn apply_inner(&mut self, op: &Op) -> Result<Option<u64>, Div> {
        match op {
            Op::Insert { base, upd } => {
                let single = self.rng.chance(1, 2);
                self.insert(*base, *upd, single)
            }
            Op::Remove { m } => self.remove(*m).map(|()| None),
            Op::Reject { kind, base } => {
                let r = self.reject(kind, *base);
                self.soft(r).map(|()| None)
            }
            Op::RemoveUnknown => {
                let r = self.remove_unknown();
                self.soft(r).map(|()| None)
            }
            Op::InsertCut { .. } | Op::RemoveCut { .. } => panic!("cut operations are driven by the crash scenarios"),
        }
    }

    pub fn ctx_of(op: &Op) -> &'static str {
        match op {
            Op::Insert { .. } => "other_after_insert",
            Op::Remove { .. } => "other_after_remove",
            Op::InsertCut { .. } | Op::RemoveCut { .. } => "after_cut",
            _ => "after_reject",
        }
    }
}

pub fn snap_diff(a: &Option<Snap>, b: &Option<Snap>) -> String {
    match (a, b) {
        (Some(a), Some(b)) => {
            let mut out = Vec::new();
            for (k, v) in a {
                match b.get(k) {
                    None => out.push(format!("gone {}", hex(k))),
                    Some(w) if w != v => out.push(format!("changed {}: {:?} -> {:?}", hex(k), v, w)),
                    _ => {}
                }
            }
            for k in b.keys() {
                if !a.contains_key(k) {
                    out.push(format!("new {}", hex(k)));
                }
            }
            out.truncate(4);
            out.join("; ")
        }
        _ => "one of the two snapshots is missing".into(),
    }
}
