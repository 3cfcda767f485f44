//! Which scenarios decide which property.
use crate::conc::{Conc, KeyStyle, ValStyle};
use crate::explore::{self, explore};
use crate::lts::{Lts, Walks};
use crate::multi::Multi;
use crate::rng::Rng;
use crate::sut::{self, Kind, Mode, Sut, WIDTHS};
use crate::trace::Trace;
use crate::walk;
use crate::world::{Counts, Div, Panel, World};
use crate::{codec, forge, special};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::Arc;

pub const FAR: usize = 1 << 20;
/// a limit that is none
fn no_limit(rng: &mut Rng) -> usize {
    *rng.pick(&[FAR, FAR, 1 << 40, usize::MAX, usize::MAX - 1])
}

#[derive(Default)]
pub struct Out {
    pub counts: Counts,
    pub notes: BTreeMap<String, u64>,
    pub trail: Vec<String>,
    pub label: String,
    /// running hash of the roots handed out (comparable between builds), if meaningful
    pub roots: Option<u64>,
    pub trace: Vec<String>,
}

pub type Run = Box<dyn Fn(Rng, &mut Out) -> Result<(), Div> + Send + Sync>;
pub struct Job {
    pub id: String,
    pub run: Run,
}

pub struct Inputs {
    pub lts: BTreeMap<String, Arc<Lts>>,
    pub walks: BTreeMap<String, Arc<Walks>>,
    pub dir: PathBuf,
    pub thorough: bool,
}

type Rel = fn(&Div, bool) -> bool;

/// Which divergences break the property
pub fn relevance(prop: &str) -> Rel {
    fn history(d: &Div) -> bool {
        matches!(d.class, "read" | "read_one" | "proof" | "proof_absent" | "store_missing" | "read_changes")
    }
    match prop {
        "C01" => |d, _| matches!(d.class, "read" | "read_one" | "insert_failed" | "read_changes"),
        "C02" => |d, _| history(d) && d.ctx == "other_after_insert",
        "C03" => |d, _| history(d) && d.ctx == "other_after_remove",
        "C04" => |d, _| matches!(d.class, "store_extra" | "store_missing" | "remove_failed" | "former_read"),
        "C05" => |d, _| d.class == "same_contents_other_root",
        "C06" => |d, _| d.class == "other_contents_same_root",
        "C07" => |d, _| matches!(d.class, "proof" | "proof_absent"),
        "C08" => |d, _| d.class == "forged",
        "C09" => |d, _| matches!(d.class, "way_root" | "way_store" | "single_batch"),
        "C10" => |d, _| {
            matches!(d.class, "invalid_accepted" | "invalid_panic" | "reject_trace" | "unknown_remove" | "unknown_read" | "former_read" | "depth_accepted")
                || history(d) && d.ctx == "after_reject"
        },
        "C11" => |d, _| d.class == "shape",
        "C12" => |d, dirty| dirty && d.class != "shape" && d.class != "store_extra" || matches!(d.class, "cut_accepted" | "cut_answer" | "cut_panic" | "reopen"),
        "C13" => |d, _| matches!(d.class, "backends" | "reopen" | "same_contents_other_root"),
        "C14" => |_, _| true,
        // a tree within the limit supports every call
        "C15" => |d, _| {
            matches!(d.class, "depth_answer" | "depth_accepted" | "depth_refused" | "single_batch")
                || matches!(d.class, "read" | "read_one" | "proof" | "insert_failed" | "remove_failed")
                    && (d.text.contains("panicked") || d.text.contains("failed"))
        },
        "C16" => |d, _| {
            matches!(d.class, "read" | "read_one" | "store_extra" | "store_missing" | "remove_failed" | "insert_failed" | "same_contents_other_root" | "unknown_read" | "former_read")
        },
        _ => |_, _| true,
    }
}

pub fn panel(prop: &str) -> Panel {
    let p = Panel { roots: 6, ..Panel::default() };
    match prop {
        "C01" => Panel { batches: 3, subsets: 3, ones: 6, roots: 3, ..p },
        "C02" | "C03" => Panel { batches: 1, ones: 3, proofs: 3, roots: 8, ..p },
        "C04" => Panel { store: true, ..p },
        "C05" | "C06" => p,
        "C07" => Panel { proofs: 8, ..p },
        "C09" => Panel { ones: 8, agree: true, roots: 3, ..p },
        "C10" => Panel { batches: 1, ones: 2, store: true, ..p },
        "C11" => Panel { shape: true, ..p },
        "C12" => Panel { faults: 2, batches: 1, ones: 3, proofs: 3, store: true, roots: 8, ..p },
        "C13" => Panel { batches: 1, ones: 2, proofs: 2, store: true, roots: 3, ..p },
        "C14" => Panel { batches: 1, ones: 3, proofs: 3, store: true, shape: true, roots: 3, ..p },
        "C15" => Panel { batches: 2, subsets: 2, ones: 8, proofs: 8, agree: true, roots: 3, ..p },
        "C16" => Panel { batches: 1, ones: 1, store: true, roots: 3, ..p },
        _ => Panel { batches: 2, ones: 3, proofs: 3, store: true, shape: true, subsets: 1, roots: 6, agree: true, faults: 0 },
    }
}

fn only_ctx(prop: &str) -> &'static str {
    match prop {
        "C02" => "other_after_insert",
        "C03" => "other_after_remove",
        _ => "",
    }
}

fn some_width(rng: &mut Rng) -> usize {
    if rng.chance(1, 4) {
        32
    } else {
        *rng.pick(WIDTHS)
    }
}

fn some_kind(rng: &mut Rng, n: usize) -> Kind {
    let modes = [Mode::Immediate, Mode::StagedPuts, Mode::StagedAll];
    let m = *rng.pick(&modes);
    if n < 7 {
        return Kind::Ideal(m);
    }
    match rng.below(6) {
        0 | 1 => Kind::Ideal(m),
        2 | 3 => Kind::Core(m),
        4 => Kind::Caller(m),
        _ => Kind::CrateHash,
    }
}

/// Weak hash functions are only given keys they can tell apart
fn weak() -> bool {
    cfg!(feature = "fxhash")
}

fn some_keys(rng: &mut Rng) -> KeyStyle {
    if weak() {
        return KeyStyle::Random;
    }
    *rng.pick(&[
        KeyStyle::Random,
        KeyStyle::Comb,
        KeyStyle::Comb,
        KeyStyle::Tree,
        KeyStyle::Tree,
        KeyStyle::DenseLow,
        KeyStyle::DenseHigh,
        KeyStyle::OneByte,
        KeyStyle::Extreme,
    ])
}

fn some_vals(rng: &mut Rng) -> ValStyle {
    if weak() {
        return ValStyle::Unique;
    }
    let l = 1 + rng.below(200);
    let long = 3000 + rng.below(70_000);
    match rng.below(12) {
        0 | 1 => ValStyle::Zeros,
        2 | 3 => ValStyle::Unique,
        4 => ValStyle::Tail(l),
        5 => ValStyle::Head(l),
        6 => ValStyle::Permuted,
        7 => ValStyle::Shifted,
        8 => ValStyle::Tail(long),
        _ => ValStyle::Plain,
    }
}

fn short_vals(rng: &mut Rng) -> ValStyle {
    loop {
        match some_vals(rng) {
            ValStyle::Tail(l) | ValStyle::Head(l) if l > 300 => {}
            v => return v,
        }
    }
}

fn finish(w: World, out: &mut Out, r: Result<(), Div>) -> Result<(), Div> {
    for (k, v) in &w.counts.0 {
        *out.counts.0.entry(k).or_insert(0) += v;
    }
    for (k, v) in &w.notes {
        *out.notes.entry(k.clone()).or_insert(0) += v;
    }
    out.trail = w.trail;
    if let Some(t) = w.trace {
        out.trace = t.lines;
    }
    r
}

fn open(n: usize, kind: Kind, limit: usize, dir: &PathBuf) -> Result<Box<dyn Sut>, Div> {
    crate::hasher::reset();
    // hashes that only differ at their end, in some of the scenarios
    crate::hasher::names(if n % 8 == 0 && n != 32 { 3 } else { 0 });
    sut::make(n, kind, limit, dir).map_err(|e| Div { class: "open", ctx: "", text: format!("{kind:?} could not be opened: {e}") })
}

struct Builder<'a> {
    prop: &'a str,
    inp: &'a Inputs,
    jobs: Vec<Job>,
}

impl Builder<'_> {
    fn add(&mut self, id: String, run: Run) {
        self.jobs.push(Job { id, run });
    }

    /// product exploration of a graph under randomly chosen keys, values and stores
    fn explore(&mut self, name: &str, graph: &str, count: usize, o: explore::Opts, tweak: fn(&mut Rng, &mut Shape)) {
        let l = self.inp.lts[graph].clone();
        let rel = relevance(self.prop);
        let pan = panel(self.prop);
        for i in 0..count {
            let (l, o, pan, dir) = (l.clone(), o.clone(), pan.clone(), self.inp.dir.clone());
            self.add(format!("explore/{name}/{graph}/{i}"), Box::new(move |mut rng, out| {
                let n = some_width(&mut rng);
                let mut s = Shape {
                    n,
                    kind: some_kind(&mut rng, n),
                    keys: some_keys(&mut rng),
                    vals: short_vals(&mut rng),
                    absents: 5,
                    cluster: 1,
                    limit: no_limit(&mut rng),
                    index: i,
                };
                tweak(&mut rng, &mut s);
                if s.n < 7 && !matches!(s.kind, Kind::Ideal(_)) {
                    s.kind = Kind::Ideal(Mode::Immediate);
                }
                let conc = Conc::new(&mut rng, s.n, l.keys, l.vals, s.cluster, s.keys, s.vals, s.absents);
                out.label = format!("{} {:?} limit {}", conc.label, s.kind, s.limit);
                let sut = open(s.n, s.kind, s.limit, &dir)?;
                let mut w = World::new(Rc::new(conc), s.kind, sut, rng, pan.clone(), s.limit, rel);
                let r = explore(&mut w, &l, &o);
                finish(w, out, r)
            }));
        }
    }

    /// behaviours generated by TLC, replayed under larger sets of keys
    fn walks(&mut self, name: &str, file: &str, count: usize, o: walk::Opts, tweak: fn(&mut Rng, &mut Shape)) {
        let wk = self.inp.walks[file].clone();
        let rel = relevance(self.prop);
        let pan = panel(self.prop);
        for i in 0..count {
            let (wk, o, pan, dir) = (wk.clone(), o.clone(), pan.clone(), self.inp.dir.clone());
            let uniq = format!("{name}-{file}-{i}");
            self.add(format!("walk/{name}/{file}/{i}"), Box::new(move |mut rng, out| {
                let n = some_width(&mut rng).max(2);
                let cl = if rng.chance(1, 3) { 1 } else { 1 + rng.below(12) };
                let mut s = Shape {
                    n,
                    kind: some_kind(&mut rng, n),
                    keys: some_keys(&mut rng),
                    vals: short_vals(&mut rng),
                    absents: 12,
                    cluster: cl,
                    limit: no_limit(&mut rng),
                    index: i,
                };
                if n >= 7 && rng.chance(1, 5) {
                    s.kind = Kind::Wrapped;
                }
                tweak(&mut rng, &mut s);
                if s.n < 7 && !matches!(s.kind, Kind::Ideal(_)) {
                    s.kind = Kind::Ideal(Mode::Immediate);
                }
                if s.n < 4 {
                    // the ideal hash needs a name for every node of the whole behaviour
                    s.n = if s.kind == Kind::Rocks { 8 } else { 4 };
                    if !WIDTHS.contains(&s.n) {
                        s.n = 8;
                    }
                }
                let conc = Conc::new(&mut rng, s.n, wk.keys, wk.vals, s.cluster, s.keys, s.vals, s.absents);
                out.label = format!("{} {:?} limit {}", conc.label, s.kind, s.limit);
                let sut = open(s.n, s.kind, s.limit, &dir.join(format!("{}-{}", std::process::id(), uniq)))?;
                let mut w = World::new(Rc::new(conc), s.kind, sut, rng, pan.clone(), s.limit, rel);
                if w.conc.all_keys().len() > 60 {
                    w.panel.roots = w.panel.roots.min(3);
                    w.panel.subsets = 0;
                }
                let behaviour = &wk.walks[i % wk.walks.len()];
                let mut r = walk::walk(&mut w, behaviour, &o);
                if r.is_ok() {
                    r = walk::last(&mut w);
                }
                if !matches!(s.kind, Kind::Ideal(_)) {
                    out.roots = Some(w.rootlog);
                }
                finish(w, out, r)
            }));
        }
    }

    fn special(&mut self, name: &str, count: usize, kabs: usize, vals: u64,
               tweak: fn(&mut Rng, &mut Shape), f: fn(&mut World, usize) -> Result<(), Div>) {
        let rel = relevance(self.prop);
        let pan = panel(self.prop);
        for i in 0..count {
            let (pan, dir) = (pan.clone(), self.inp.dir.join(format!("{}-{name}-{i}", std::process::id())));
            self.add(format!("{name}/{i}"), Box::new(move |mut rng, out| {
                let n = some_width(&mut rng);
                let mut s = Shape {
                    n,
                    kind: some_kind(&mut rng, n),
                    keys: some_keys(&mut rng),
                    vals: short_vals(&mut rng),
                    absents: 4,
                    cluster: 1,
                    limit: no_limit(&mut rng),
                    index: i,
                };
                tweak(&mut rng, &mut s);
                if s.n < 7 && !matches!(s.kind, Kind::Ideal(_)) {
                    s.kind = Kind::Ideal(Mode::Immediate);
                }
                let conc = Conc::new(&mut rng, s.n, kabs, vals, s.cluster, s.keys, s.vals, s.absents);
                out.label = format!("{} {:?} limit {}", conc.label, s.kind, s.limit);
                let sut = open(s.n, s.kind, s.limit, &dir)?;
                let mut w = World::new(Rc::new(conc), s.kind, sut, rng, pan.clone(), s.limit, rel);
                let r = f(&mut w, i);
                finish(w, out, r)
            }));
        }
    }

    /// short histories recorded for TLC
    fn record(&mut self, file: &str, count: usize, steps: usize, mode: Record) {
        let wk = self.inp.walks[file].clone();
        let rel = relevance(self.prop);
        for i in 0..count {
            let (wk, dir) = (wk.clone(), self.inp.dir.clone());
            self.add(format!("record/{file}/{i}"), Box::new(move |mut rng, out| {
                let n = some_width(&mut rng).min(40);
                let mut kind = some_kind(&mut rng, n);
                if matches!(kind, Kind::CrateHash) && mode == Record::Cuts {
                    kind = Kind::Caller(Mode::Immediate);
                }
                let keys = some_keys(&mut rng);
                let n = if n < 2 { 2 } else { n };
                let n = if WIDTHS.contains(&n) { n } else { 32 };
                let limit = if mode == Record::Limit { rng.below(5) } else { FAR };
                let n = if matches!(mode, Record::Backends | Record::Config) { *rng.pick(&[8, 20, 32, 33]) } else { n };
                match mode {
                    Record::Backends => {
                        let mut kinds = vec![Kind::CrateHash, Kind::Wrapped, Kind::Caller(Mode::Immediate), Kind::Caller(Mode::StagedPuts), Kind::Caller(Mode::StagedAll)];
                        if cfg!(feature = "rocksdb") {
                            kinds = vec![Kind::Rocks, Kind::Caller(Mode::Immediate)];
                        }
                        kind = kinds[i % kinds.len()];
                        sut::PLAIN.with(|p| p.set(true));
                    }
                    Record::Config => kind = [Kind::CrateHash, Kind::Wrapped, Kind::Core(Mode::StagedPuts)][i % 3],
                    _ => {}
                }
                let vals = if matches!(kind, Kind::Ideal(_)) || !weak() { ValStyle::Plain } else { ValStyle::Unique };
                let conc = Conc::new(&mut rng, n, wk.keys, wk.vals, 1, keys, vals, 4);
                out.label = format!("{} {:?} limit {}", conc.label, kind, limit);
                let sut = open(n, kind, limit, &dir.join(format!("{}-record-{i}", std::process::id())))?;
                let pan = Panel { batches: 1, ones: 2, proofs: 2, roots: 3, ..Panel::default() };
                let mut w = World::new(Rc::new(conc), kind, sut, rng, pan, limit, rel);
                w.trace = Some(Trace::new(&w.conc, limit, &format!("{kind:?}")));
                let r = crate::record::run(&mut w, &wk.walks[i % wk.walks.len()], steps, mode);
                finish(w, out, r)
            }));
        }
    }

    fn lockstep(&mut self, name: &str, file: &str, count: usize, kinds: Vec<Kind>, o: walk::Opts, tweak: fn(&mut Rng, &mut Shape)) {
        let wk = self.inp.walks[file].clone();
        let rel = relevance(self.prop);
        let pan = panel(self.prop);
        for i in 0..count {
            let (wk, o, pan, dir, kinds) = (wk.clone(), o.clone(), pan.clone(), self.inp.dir.clone(), kinds.clone());
            let name = name.to_owned();
            self.add(format!("lockstep/{name}/{file}/{i}"), Box::new(move |mut rng, out| {
                let widths: Vec<usize> = WIDTHS.iter().copied().filter(|n| *n >= 7).collect();
                let n = *rng.pick(&widths);
                let cluster = if rng.chance(1, 2) { 1 } else { 1 + rng.below(20) };
                let keys = some_keys(&mut rng);
                let vals = if cluster < 4 { some_vals(&mut rng) } else { short_vals(&mut rng) };
                let limit = match rng.below(8) {
                    0 => rng.below(8),
                    1 => 8 + rng.below(30),
                    _ => no_limit(&mut rng),
                };
                let mut s = Shape { n, kind: kinds[0], keys, vals, absents: 6, cluster, limit, index: i };
                tweak(&mut rng, &mut s);
                let Shape { n, keys, vals, cluster, limit, .. } = s;
                let conc = Conc::new(&mut rng, n, wk.keys, wk.vals, cluster, keys, vals, 6);
                out.label = format!("{} {:?} limit {limit}", conc.label, kinds);
                let mut suts = Vec::new();
                for (j, k) in kinds.iter().enumerate() {
                    suts.push((*k, open(n, *k, limit, &dir.join(format!("{}-lock-{name}-{i}-{j}", std::process::id())))?));
                }
                sut::PLAIN.with(|p| p.set(true));
                let sut = Box::new(Multi::new(suts));
                crate::multi::COMPARED.with(|c| c.set(0));
                let mut w = World::new(Rc::new(conc), kinds[0], sut, rng, pan.clone(), limit, rel);
                w.panel.batches = 2;
                let behaviour = &wk.walks[i % wk.walks.len()];
                let mut r = walk::walk(&mut w, behaviour, &o);
                if r.is_ok() {
                    r = walk::last(&mut w);
                    if let Some(s) = crate::multi::DIFFERENCE.with(|d| d.borrow_mut().take()) {
                        r = Err(Div { class: "backends", ctx: "", text: s });
                    }
                }
                w.counts.add("backend_answers_compared", crate::multi::COMPARED.with(|c| c.get()));
                out.roots = Some(w.rootlog);
                finish(w, out, r)
            }));
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Record {
    Plain,
    Cuts,
    Limit,
    Claims,
    Backends,
    Config,
}

#[derive(Clone, Debug)]
pub struct Shape {
    pub n: usize,
    pub kind: Kind,
    pub keys: KeyStyle,
    pub vals: ValStyle,
    pub absents: usize,
    pub cluster: usize,
    pub limit: usize,
    pub index: usize,
}

/// every pair of split positions of keys of one or two bytes
fn splits(n: usize, i: usize) -> KeyStyle {
    let bits = n * 8;
    let mut pairs = Vec::new();
    for p in 0..bits {
        for q in p + 1..bits {
            pairs.push((p, q));
        }
    }
    let (p, q) = pairs[i % pairs.len()];
    let r = i / pairs.len();
    KeyStyle::Splits(p, q, (r % 2) as u8, (r / 2 % 4) as u8)
}

fn splits1(_: &mut Rng, s: &mut Shape) {
    if WIDTHS.contains(&1) {
        s.n = 1;
        s.kind = Kind::Ideal(if s.index % 2 == 0 { Mode::Immediate } else { Mode::StagedPuts });
        s.keys = splits(1, s.index);
        s.absents = 6;
    }
}
fn splits2(_: &mut Rng, s: &mut Shape) {
    if WIDTHS.contains(&2) {
        s.n = 2;
        s.kind = Kind::Ideal(if s.index % 2 == 0 { Mode::Immediate } else { Mode::StagedAll });
        s.keys = splits(2, s.index);
        s.absents = 6;
    }
}
fn splits_wide(rng: &mut Rng, s: &mut Shape) {
    let bits = s.n * 8;
    let p = rng.below(bits - 1);
    let q = match rng.below(3) {
        0 => p + 1,
        1 => (p + 1 + rng.below(16)).min(bits - 1),
        _ => p + 1 + rng.below(bits - 1 - p),
    };
    let (side, fill) = (rng.below(2), rng.below(4));
    s.keys = KeyStyle::Splits(p, q, side as u8, fill as u8);
}
fn anything(_: &mut Rng, _: &mut Shape) {}
fn small_absents(_: &mut Rng, s: &mut Shape) {
    s.absents = 3;
}
fn many(rng: &mut Rng, s: &mut Shape) {
    s.cluster = 20 + rng.below(150);
    s.n = s.n.max(8);
    s.absents = 40;
}
fn big_values(rng: &mut Rng, s: &mut Shape) {
    s.cluster = 1;
    s.n = s.n.max(8);
    let l = [65_535, 65_536, 65_537, 200_000, 16_384, 4096][rng.below(6)];
    s.vals = if rng.chance(1, 2) { ValStyle::Tail(l) } else { ValStyle::Head(l) };
}
fn huge_values(rng: &mut Rng, s: &mut Shape) {
    s.cluster = 1;
    s.n = s.n.max(8);
    let l = [(1 << 20) - 40, 1 << 20, (1 << 20) + 1, 3 << 20, (1 << 22) + 7, (1 << 24) + 1][s.index % 6];
    s.vals = if rng.chance(1, 2) { ValStyle::Tail(l) } else { ValStyle::Head(l) };
}
/// values about as long as a length of two bytes can say
fn edges(rng: &mut Rng, s: &mut Shape) {
    s.cluster = 1;
    s.n = s.n.max(8);
    let l = [(1 << 17) + 1, 1 << 16, (1 << 16) + 1, (1 << 16) - 40][s.index % 4];
    s.vals = if rng.chance(1, 2) { ValStyle::Tail(l) } else { ValStyle::Head(l) };
}
fn lengths(rng: &mut Rng, s: &mut Shape) {
    s.cluster = 1;
    s.n = s.n.max(8);
    let l = 1 + s.index;
    s.vals = if rng.chance(1, 2) { ValStyle::Tail(l) } else { ValStyle::Head(l) };
}
fn sizes(rng: &mut Rng, s: &mut Shape) {
    s.cluster = 1 + s.index;
    s.n = s.n.max(8);
    if s.cluster > 150 && !weak() {
        s.keys = *rng.pick(&[KeyStyle::Random, KeyStyle::DenseLow, KeyStyle::DenseHigh, KeyStyle::OneByte]);
    }
    s.absents = 20;
}
fn deep(rng: &mut Rng, s: &mut Shape) {
    s.n = if s.index % 2 == 0 { *rng.pick(WIDTHS) } else { 128 }.max(7);
    s.kind = some_kind(rng, s.n);
    s.limit = [FAR, FAR, 8 * s.n, usize::MAX][rng.below(4)];
}
fn bulk(rng: &mut Rng, s: &mut Shape) {
    s.n = s.n.max(8);
    s.kind = [Kind::Core(Mode::Immediate), Kind::Caller(Mode::StagedPuts), Kind::CrateHash][rng.below(3)];
    s.cluster = if s.index % 2 == 0 { 22_000 + rng.below(2000) } else { 2700 + rng.below(3000) };
    s.keys = [KeyStyle::Random, KeyStyle::DenseLow, KeyStyle::Random][rng.below(3)];
    s.vals = [ValStyle::Unique, ValStyle::Plain][rng.below(2)];
    s.absents = 100;
}
fn flanked(rng: &mut Rng, s: &mut Shape) {
    bulk(rng, s);
    s.n = [16, 32][rng.below(2)];
    s.cluster = 1;
}
/// split positions beyond 65536
fn huge_keys(rng: &mut Rng, s: &mut Shape) {
    s.n = sut::HUGE;
    s.kind = [Kind::Core(Mode::Immediate), Kind::Caller(Mode::StagedPuts)][rng.below(2)];
    s.keys = *rng.pick(&[KeyStyle::Comb, KeyStyle::Tree, KeyStyle::DenseLow]);
    s.cluster = 1 + rng.below(2);
    s.absents = 4;
}
fn versions(rng: &mut Rng, s: &mut Shape) {
    s.n = s.n.max(8);
    if matches!(s.kind, Kind::Wrapped | Kind::Rocks) {
        s.kind = Kind::CrateHash;
    }
    s.cluster = 1 + rng.below(3);
}
fn disguised(rng: &mut Rng, s: &mut Shape) {
    s.n = s.n.max(8).min(64);
    s.kind = Kind::Ideal([Mode::Immediate, Mode::StagedPuts, Mode::StagedAll][rng.below(3)]);
}
fn comb_limited(rng: &mut Rng, s: &mut Shape) {
    s.keys = if rng.chance(2, 3) { KeyStyle::Comb } else { KeyStyle::Tree };
    s.limit = s.index % 5;
    s.cluster = 1;
}
fn walk_limited(rng: &mut Rng, s: &mut Shape) {
    s.keys = if rng.chance(2, 3) { KeyStyle::Comb } else { KeyStyle::Tree };
    s.cluster = 1 + rng.below(6);
    s.limit = rng.below(9) + if s.cluster > 2 { 4 } else { 0 };
}
fn many_limited(rng: &mut Rng, s: &mut Shape) {
    s.cluster = 20 + rng.below(60);
    s.n = s.n.max(8);
    s.keys = KeyStyle::Random;
    s.limit = 5 + rng.below(14);
}
/// wide trees that are hardly deeper, if at all, than the limit
fn snug(rng: &mut Rng, s: &mut Shape) {
    s.cluster = 20 + rng.below(200);
    s.n = s.n.max(8);
    s.keys = *rng.pick(&[KeyStyle::Random, KeyStyle::DenseLow, KeyStyle::DenseHigh]);
    s.limit = 8 + rng.below(14);
}
fn ideal_small(rng: &mut Rng, s: &mut Shape) {
    if s.n < 4 {
        s.n = 4; // the claims of an enumeration use up the names of smaller widths
    }
    s.kind = if s.n < 7 || rng.chance(1, 2) { Kind::Ideal(Mode::Immediate) } else { Kind::Core(Mode::Immediate) };
    s.absents = 2;
    s.vals = if rng.chance(1, 2) { ValStyle::Plain } else { ValStyle::Zeros };
}
fn wide(rng: &mut Rng, s: &mut Shape) {
    s.n = s.n.max(8);
    s.kind = [Kind::Core(Mode::Immediate), Kind::Caller(Mode::Immediate), Kind::CrateHash][rng.below(3)];
}
fn cuts(rng: &mut Rng, s: &mut Shape) {
    if s.kind == Kind::CrateHash {
        s.kind = Kind::Caller(Mode::Immediate);
    }
    let m = [Mode::Immediate, Mode::StagedPuts, Mode::StagedAll][s.index % 3];
    s.kind = match s.kind {
        Kind::Core(_) => Kind::Core(m),
        Kind::Caller(_) => Kind::Caller(m),
        _ => Kind::Ideal(m),
    };
    s.absents = 1 + rng.below(3);
}
fn staged(rng: &mut Rng, s: &mut Shape) {
    let m = [Mode::Immediate, Mode::StagedPuts, Mode::StagedAll][rng.below(3)];
    s.kind = if s.n < 7 { Kind::Ideal(m) } else { Kind::Core(m) };
    s.vals = if weak() { ValStyle::Unique } else { ValStyle::Plain };
}

fn dying(rng: &mut Rng, s: &mut Shape) {
    s.n = s.n.max(8);
    s.kind = Kind::Dying;
    s.cluster = 1 + rng.below(3);
}
fn dying_many(rng: &mut Rng, s: &mut Shape) {
    dying(rng, s);
    s.cluster = 4 + rng.below(40);
    s.absents = 10;
}

fn on_disk(b: &mut Builder, prop: &str, wo: walk::Opts, thorough: bool) {
    fn rocks(rng: &mut Rng, s: &mut Shape) {
        s.n = s.n.max(8);
        s.kind = Kind::Rocks;
        s.cluster = 1 + rng.below(8);
        if s.index % 8 == 7 {
            s.cluster = 60 + rng.below(200);
        }
    }
    fn rocks_limited(rng: &mut Rng, s: &mut Shape) {
        rocks(rng, s);
        walk_limited(rng, s);
        s.n = s.n.max(8);
        s.kind = Kind::Rocks;
    }
    let x = |q: usize, th: usize| if thorough { th } else { q };
    let wo = walk::Opts { steps: 60, reopen: 10, ways: if prop == "C09" { 3 } else { 0 }, rejects: prop == "C10", ..wo };
    match prop {
        "C08" => {
            b.special("mutations on disk", x(16, 200), 6, 3, rocks, |w, _| {
                for _ in 0..3 {
                    let c = 1 + w.rng.next() % 4095;
                    let base = if w.live.is_empty() || w.rng.chance(1, 2) { 0 } else { w.live[0].0 };
                    w.insert(base, c, false)?;
                }
                forge::mutate(w, 40)
            });
            b.special("confuse on disk", x(8, 100), 1, 1, rocks, |w, _| forge::confuse(w, 40));
        }
        "C15" => {
            b.walks("on disk limited", "w", x(32, 300), wo.clone(), rocks_limited);
            b.walks("on disk", "w", x(8, 80), wo, rocks);
        }
        "C16" => {
            b.walks("on disk few keys", "f", x(24, 200), wo, rocks);
            b.special("repeat on disk", x(10, 60), 2, 2, rocks, |w, i| special::repeat(w, [2, 3, 17, 255, 257, 300][i % 6]));
        }
        _ => {
            b.walks("on disk", "w", x(32, 300), wo.clone(), rocks);
            b.special("sizes on disk", x(24, 200), 2, 2, |rng, s| {
                s.index = s.index * 7 + rng.below(7);
                sizes(rng, s);
                s.kind = Kind::Rocks;
            }, special::sizes);
            b.special("ladders on disk", x(3, 30), 2, 2, |rng, s| {
                deep(rng, s);
                s.n = s.n.min(64);
                s.kind = Kind::Rocks;
            }, special::ladders);
            b.walks("huge values on disk", "w", x(2, 6), walk::Opts { steps: 6, ..wo.clone() }, |rng, s| {
                huge_values(rng, s);
                s.kind = Kind::Rocks;
            });
            b.walks("lengths", "w", x(60, 300), walk::Opts { steps: 6, ..wo.clone() }, |rng, s| {
                s.index = s.index * 5 + rng.below(5);
                lengths(rng, s);
            });
            b.walks("edges", "w", x(4, 16), walk::Opts { steps: 8, ..wo.clone() }, edges);
            if matches!(prop, "C05" | "C06") {
                b.special("neighbours on disk", x(8, 80), 1, 1, rocks, |w, _| special::neighbours(w, 20));
            }
        }
    }
}

pub fn jobs(prop: &str, inp: &Inputs) -> Vec<Job> {
    let mut b = Builder { prop, inp, jobs: Vec::new() };
    let t = inp.thorough;
    let x = |q: usize, th: usize| if t { th } else { q };
    let eo = explore::Opts { only_ctx: only_ctx(prop), max_states: 60_000, reopen: 10, ..explore::Opts::default() };
    let wo = walk::Opts { only_ctx: only_ctx(prop), steps: if t { 400 } else { 120 }, reopen: 5, ..walk::Opts::default() };
    // the on-disk store and its own tree type, for every property that has no plan of its own there
    if cfg!(feature = "rocksdb") && !matches!(prop, "C12" | "C13" | "C14") {
        on_disk(&mut b, prop, wo, t);
        return b.jobs;
    }
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C11" => {
            b.record("r", x(6, 40), x(14, 25), Record::Plain);
            b.special("bulk", x(6, 24), 3, 2, bulk, special::bulk);
            b.special("flanks", if prop == "C01" { x(2, 8) } else { x(1, 4) }, 3, 2, flanked, |w, i| match i % 4 {
                0 => special::flanks(w, 66_000, 300, 300),
                1 => special::flanks(w, 300, 66_000, 300),
                2 => special::flanks(w, 66_000, 66_000, 66_000),
                _ => special::flanks(w, 300, 300, 66_000),
            });
            b.explore("random", "m", x(8, 60), eo.clone(), anything);
            b.walks("cluster", "w", x(96, 600), wo.clone(), anything);
            b.explore("random", "q", x(24, 160), eo.clone(), anything);
            b.explore("wide splits", "e", x(120, 2000), eo.clone(), splits_wide);
            b.walks("many", "w", x(24, 160), walk::Opts { steps: 40, ..wo.clone() }, many);
            b.explore("random", "p", x(16, 100), eo.clone(), small_absents);
            b.explore("splits of one byte", "e", 224, eo.clone(), splits1);
            b.explore("splits of two bytes", "e", x(240, 960), eo.clone(), splits2);
            b.walks("many versions", "v", x(16, 120), walk::Opts { steps: 160, every: 4, ..wo.clone() }, |rng, s| s.cluster = 1 + rng.below(3));
            b.walks("snug", "w", x(24, 200), walk::Opts { steps: 30, ..wo.clone() }, snug);
            b.walks("big values", "w", x(4, 24), walk::Opts { steps: 25, ..wo.clone() }, big_values);
            b.special("sizes", x(300, 1200), 2, 2, sizes, special::sizes);
            b.special("ladders", x(30, 240), 2, 2, deep, special::ladders);
            b.walks("lengths", "w", x(300, 1200), walk::Opts { steps: 6, ..wo.clone() }, lengths);
            b.walks("huge values", "w", x(4, 12), walk::Opts { steps: 8, ..wo.clone() }, huge_values);
            b.walks("huge keys", "w", x(6, 24), walk::Opts { steps: 8, ..wo.clone() }, huge_keys);
            b.special("versions", x(12, 60), 9, 2, versions, |w, i| special::versions(w, if i % 4 == 3 { 600 } else { 300 }));
            b.special("disguise", x(60, 800), 1, 1, disguised, |w, _| special::disguise(w, 16));
            if prop == "C05" || prop == "C06" {
                b.special("neighbours", x(400, 6000), 1, 1, wide, |w, _| special::neighbours(w, 60));
            }
            if prop == "C06" {
                b.special("confuse", x(60, 600), 1, 1, wide, |w, _| forge::confuse(w, 60));
            }
        }
        "C08" => {
            b.record("r", x(6, 40), x(10, 20), Record::Claims);
            b.special("one leaf", x(8, 30), 1, 2, ideal_small, |w, _| {
                w.insert(0, 1, false)?;
                w.insert(0, 2, true)?;
                forge::enumerate(w, 4, 3_000_000)
            });
            b.special("two leaves", x(8, 40), 2, 1, ideal_small, |w, i| {
                w.insert(0, 3, false)?;
                if i % 2 == 0 {
                    w.insert(0, 1, true)?;
                }
                forge::enumerate(w, if i % 4 == 1 { 5 } else { 4 }, 3_000_000)
            });
            b.special("three leaves", x(12, 60), 3, 2, ideal_small, |w, i| {
                w.insert(0, 13 + i as u64 % 3, false)?;
                w.insert(0, 26 - i as u64 % 4, false)?;
                forge::tails(w, 5, 4_000_000)
            });
            b.special("mutations", x(120, 2000), 6, 3, |rng, s| {
                s.cluster = 1 + rng.below(10);
                if s.n < 4 {
                    s.n = 4;
                    s.cluster = 1;
                }
            }, |w, _| {
                for _ in 0..3 {
                    let c = 1 + w.rng.next() % 4095;
                    let base = if w.live.is_empty() || w.rng.chance(1, 2) { 0 } else { w.live[0].0 };
                    w.insert(base, c, false)?;
                }
                forge::mutate(w, 60)
            });
            b.special("long proofs", x(60, 600), 1, 1, |_, s| s.n = s.n.max(4), forge::long_proofs);
            b.special("confuse", x(60, 600), 1, 1, wide, |w, _| forge::confuse(w, 60));
            b.special("disguise", x(60, 600), 1, 1, disguised, |w, _| special::disguised_claims(w, 6));
        }
        "C09" => {
            b.record("r", x(6, 40), x(14, 25), Record::Plain);
            let eo = explore::Opts { ways: 2, ..eo };
            let wo = walk::Opts { ways: 3, ..wo };
            b.explore("random", "s", x(24, 200), eo.clone(), anything);
            b.walks("cluster", "w", x(64, 400), wo.clone(), |rng, s| {
                s.kind = some_kind(rng, s.n);
                s.cluster = s.cluster.min(4);
            });
            b.explore("random", "q", x(8, 80), eo.clone(), anything);
            b.explore("random", "m", x(2, 24), eo.clone(), anything);
            b.explore("splits of one byte", "e", 224, eo.clone(), splits1);
            b.explore("wide splits", "e", x(100, 2000), eo.clone(), splits_wide);
            b.walks("many", "w", x(16, 100), walk::Opts { steps: 25, ..wo.clone() }, |rng, s| {
                many(rng, s);
                s.kind = some_kind(rng, s.n);
            });
            b.walks("limited", "w", x(16, 200), wo, |rng, s| {
                s.kind = some_kind(rng, s.n);
                s.cluster = 1 + rng.below(3);
                s.limit = 24 + rng.below(3) * 1000;
            });
        }
        "C10" => {
            b.record("r", x(6, 40), x(20, 30), Record::Plain);
            let eo = explore::Opts { rejects: true, ..eo };
            let wo = walk::Opts { rejects: true, ..wo };
            b.explore("random", "s", x(40, 300), eo.clone(), anything);
            b.explore("random", "m", x(6, 50), eo.clone(), anything);
            b.walks("cluster", "w", x(64, 600), wo.clone(), anything);
            b.walks("many", "w", x(8, 60), walk::Opts { steps: 40, ..wo.clone() }, many);
            b.explore("limited", "q", x(30, 200), eo.clone(), comb_limited);
            b.walks("limited", "w", x(64, 600), wo, walk_limited);
            b.explore("wide splits", "e", x(60, 600), eo, splits_wide);
            b.special("again", x(60, 600), 3, 2, anything, |w, _| special::again(w));
            b.special("bulk", x(3, 12), 3, 2, bulk, |w, i| {
                special::refusals(w, 12)?;
                let new = w.insert(0, 1 + i as u64 % 2, false)?;
                w.check_state(new, "other_after_insert")?;
                special::refusals(w, 12)
            });
            b.special("sizes", x(200, 800), 2, 2, sizes, |w, _| {
                w.insert(0, 1, false)?;
                special::refusals(w, 8)
            });
        }
        "C12" if cfg!(feature = "rocksdb") => {
            b.special("on disk", x(200, 1500), 8, 3, dying, crate::record::long_cuts);
            b.special("on disk many", x(60, 400), 6, 2, dying_many, crate::record::long_cuts);
            b.special("broken disk", x(24, 240), 5, 2, |rng, s| {
                s.n = s.n.max(8);
                s.kind = Kind::Rocks;
                s.cluster = 1 + rng.below(6);
            }, crate::record::broken_disk);
        }
        "C12" => {
            b.record("r", x(9, 60), x(14, 25), Record::Cuts);
            let eo = explore::Opts { max_cuts: 1, reopen: 0, max_states: x(6000, 60_000), ..eo };
            b.explore("cut", "c", x(24, 150), eo.clone(), cuts);
            b.explore("cut", "d", x(9, 60), eo.clone(), cuts);
            b.explore("cut twice", "c", x(6, 40), explore::Opts { max_cuts: 2, ..eo.clone() }, cuts);
            b.special("long", x(90, 1500), 8, 3, staged, crate::record::long_cuts);
            b.special("long many", x(40, 600), 6, 2, |rng, s| {
                s.n = s.n.max(8);
                staged(rng, s);
                s.cluster = 4 + rng.below(50);
                s.absents = 10;
            }, crate::record::long_cuts);
        }
        "C13" => {
            b.record("w", x(10, 60), 14, Record::Backends);
            let wo = walk::Opts { rejects: true, reopen: 15, ..wo };
            let mut kinds = vec![Kind::CrateHash, Kind::Wrapped, Kind::Caller(Mode::Immediate), Kind::Caller(Mode::StagedPuts), Kind::Caller(Mode::StagedAll)];
            if cfg!(feature = "rocksdb") {
                kinds.insert(0, Kind::Rocks);
            }
            let rocks = cfg!(feature = "rocksdb");
            b.lockstep("bulk", "w", x(2, 8), kinds.clone(), walk::Opts { steps: 5, every: 3, ..wo.clone() }, |rng, s| {
                bulk(rng, s);
                s.cluster = if s.index % 2 == 0 { 9000 + rng.below(400) } else { 800 + rng.below(800) };
                s.limit = FAR;
            });
            b.lockstep("huge values", "w", x(4, 12), kinds.clone(), walk::Opts { steps: 7, ..wo.clone() }, huge_values);
            b.lockstep("", "w", x(if rocks { 100 } else { 160 }, 1000), kinds.clone(), wo.clone(), anything);
            b.lockstep("many", "w", x(8, 60), kinds, walk::Opts { steps: 40, ..wo }, many);
        }
        "C14" => {
            for (i, n) in [1, 8, 20, 32, 33, 64, 128, 300].iter().enumerate() {
                let n = *n;
                let rounds = x(300, 6000);
                b.add(format!("codec/{i}"), Box::new(move |mut rng, out| {
                    out.label = format!("nodes of width {n}");
                    match codec::run(n, &mut rng, rounds) {
                        Ok(c) => {
                            out.counts.add("nodes_read_back", c);
                            Ok(())
                        }
                        Err(s) => Err(Div { class: "codec", ctx: "node", text: s }),
                    }
                }));
            }
            b.record("w", x(3, 12), 10, Record::Config);
            b.explore("random", "s", x(5, 40), eo.clone(), wide);
            b.walks("cluster", "w", x(14, 120), walk::Opts { rejects: true, steps: 60, ..wo.clone() }, |rng, s| {
                wide(rng, s);
                if rng.chance(1, 4) {
                    s.kind = Kind::Wrapped;
                }
            });
            b.walks("big values", "w", x(3, 8), walk::Opts { steps: 12, ..wo.clone() }, |rng, s| {
                big_values(rng, s);
                wide(rng, s);
            });
            if !weak() {
                b.walks("edges", "w", x(2, 8), walk::Opts { steps: 8, ..wo.clone() }, edges);
            }
            b.special("ladders", x(1, 9), 2, 2, |rng, s| {
                deep(rng, s);
                s.n = s.n.min(64);
                wide(rng, s);
            }, special::ladders);
            b.special("repeat", x(2, 6), 2, 2, wide, |w, i| special::repeat(w, [300, 70_000][i % 2]));
            if !weak() {
                b.special("neighbours", x(60, 300), 1, 1, wide, |w, _| special::neighbours(w, 30));
            }
            b.special("sizes", x(8, 60), 2, 2, |rng, s| {
                s.index = s.index * 37 + rng.below(37);
                sizes(rng, s);
                wide(rng, s);
            }, special::sizes);
            b.special("versions", x(1, 6), 9, 2, |rng, s| {
                versions(rng, s);
                wide(rng, s);
            }, |w, _| special::versions(w, 300));
            // a weak hash function does not tell all claims apart
            if !weak() {
                b.special("mutations", x(2, 20), 6, 3, wide, |w, _| {
                    for _ in 0..2 {
                        let c = 1 + w.rng.next() % 4095;
                        w.insert(0, c, false)?;
                    }
                    forge::mutate(w, 20)
                });
            }
        }
        "C15" => {
            b.record("r", x(6, 40), x(14, 25), Record::Limit);
            let eo = explore::Opts { rejects: false, ..eo };
            b.explore("limited", "q", x(40, 300), eo.clone(), comb_limited);
            b.explore("limited", "m", x(5, 50), eo.clone(), comb_limited);
            b.explore("limited", "p", x(20, 120), eo.clone(), comb_limited);
            b.walks("limited", "w", x(96, 1000), wo.clone(), walk_limited);
            b.walks("many limited", "w", x(12, 120), walk::Opts { steps: 30, ..wo.clone() }, many_limited);
            b.walks("snug", "w", x(12, 120), walk::Opts { steps: 30, ..wo.clone() }, snug);
            b.walks("no limit", "w", x(16, 160), walk::Opts { steps: 40, ..wo.clone() }, |_, _| {});
            b.special("ladder", x(60, 600), 1, 1, |rng, s| {
                wide(rng, s);
                if s.index % 4 == 0 {
                    s.n = *rng.pick(&[33, 40, 64, 128]);
                }
            }, crate::record::ladder);
        }
        "C16" => {
            b.record("r", x(6, 40), x(14, 25), Record::Plain);
            b.explore("repeat", "r", x(16, 100), eo.clone(), anything);
            b.special("again", x(40, 400), 3, 2, anything, |w, _| special::again(w));
            b.special("repeat", x(120, 900), 3, 2, anything, |w, i| {
                let n = [2, 3, 4, 5, 17, 128, 255, 256, 257, 300, 1000][i % 11];
                special::repeat(w, n)
            });
            b.special("versions often", x(1, 4), 12, 2, versions, |w, i| special::versions(w, 65_600 + 1000 * i));
            b.special("ladders", x(8, 80), 2, 2, deep, special::ladders);
            b.special("repeat often", x(4, 12), 2, 2, wide, |w, i| special::repeat(w, 65_530 + 10 * (i % 3)));
            b.special("versions", x(16, 80), 9, 2, versions, |w, i| special::versions(w, if i % 4 == 3 { 600 } else { 300 }));
            b.walks("many versions", "v", x(16, 120), walk::Opts { steps: 160, every: 4, ..wo.clone() }, |rng, s| s.cluster = 1 + rng.below(3));
            b.walks("few keys", "f", x(64, 600), wo.clone(), |rng, s| {
                s.cluster = 1 + rng.below(3);
            });
            b.explore("random", "s", x(10, 60), eo, anything);
        }
        other => panic!("no plan for {other}"),
    }
    b.jobs
}
