//! The product of an exported state graph with the implementation: every transition of the graph
//! is taken from every implementation state that can be reached, breadth first.
use crate::lts::{Lts, Op};
use crate::sut::{Fail, FaultKind, NodeV, Snap, Sut, B, V};
use crate::world::{bag_drop, hex, Div, World};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug, Default)]
pub struct Opts {
    /// take the rejected and unknown transitions too
    pub rejects: bool,
    /// which contexts are worth comparing ("" = all)
    pub only_ctx: &'static str,
    /// calls that may be cut short on a path
    pub max_cuts: u32,
    pub max_states: usize,
    /// probability in percent to reopen before a transition
    pub reopen: usize,
    /// compare all ways to make each insert
    pub ways: usize,
}

struct State {
    abs: usize,
    sut: Box<dyn Sut>,
    roots: Rc<HashMap<u64, B>>,
    dirty: bool,
    tainted: bool,
    cuts: u32,
    parent: usize,
    via: String,
}

fn mix(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut x = [0_u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    h
}

fn node_hash(seed: u64, k: &[u8], n: &NodeV) -> u64 {
    let mut h = mix(seed, k);
    h = mix(h, &n.refs.to_le_bytes());
    match &n.v {
        V::Branch { count, zero, one, split, key } => {
            h = mix(h, &count.to_le_bytes());
            h = mix(h, &split.to_le_bytes());
            h = mix(h, zero);
            h = mix(h, one);
            mix(h, key)
        }
        V::Leaf { key, data } => mix(mix(h ^ 7, key), data),
        V::Data { value } => mix(mix(h ^ 9, value), &value.len().to_le_bytes()),
    }
}

/// independent of the order of the map
pub fn fingerprint(s: &Snap) -> (u64, u64) {
    let mut a = 0_u64;
    let mut b = 0_u64;
    for (k, n) in s {
        a = a.wrapping_add(node_hash(1, k, n));
        b = b.wrapping_add(node_hash(2, k, n));
    }
    (a, b)
}

pub fn explore(w: &mut World, lts: &Lts, o: &Opts) -> Result<(), Div> {
    let mut states: Vec<State> = Vec::new();
    let mut seen: HashSet<(usize, bool, u64, u64)> = HashSet::new();
    let mut compared: HashSet<(usize, bool, u64, u64, &'static str, u64)> = HashSet::new();
    let first = match w.sut.fork() {
        Some(s) => s,
        None => panic!("this store cannot be copied"),
    };
    states.push(State {
        abs: 0,
        sut: first,
        roots: Rc::new(HashMap::new()),
        dirty: false,
        tainted: false,
        cuts: 0,
        parent: usize::MAX,
        via: String::new(),
    });
    let mut at = 0;
    let r = run(w, lts, o, &mut states, &mut seen, &mut compared, &mut at);
    w.counts.add("product_states", states.len() as u64);
    if r.is_err() {
        // how we got here
        let mut path = Vec::new();
        let mut i = at;
        while i != usize::MAX {
            path.push(format!("state {i} {:?}: {}", lts.states[states[i].abs], states[i].via));
            i = states[i].parent;
        }
        path.reverse();
        path.extend(std::mem::take(&mut w.trail));
        w.trail = path;
    }
    r
}

fn settle(w: &mut World) -> Option<(u64, u64)> {
    w.sut.snapshot().map(|s| fingerprint(&s))
}

#[allow(clippy::too_many_arguments)]
fn run(
    w: &mut World,
    lts: &Lts,
    o: &Opts,
    states: &mut Vec<State>,
    seen: &mut HashSet<(usize, bool, u64, u64)>,
    compared: &mut HashSet<(usize, bool, u64, u64, &'static str, u64)>,
    at: &mut usize,
) -> Result<(), Div> {
    while *at < states.len() {
        let i = *at;
        for (op, dst) in &lts.out[states[i].abs] {
            let cut = matches!(op, Op::InsertCut { .. } | Op::RemoveCut { .. });
            if cut && states[i].cuts >= o.max_cuts {
                continue;
            }
            if !o.rejects && matches!(op, Op::Reject { .. } | Op::RemoveUnknown) {
                continue;
            }
            if cut {
                cut_all(w, lts, o, states, seen, compared, i, op, *dst)?;
                continue;
            }
            enter(w, lts, states, i);
            if o.reopen > 0 && w.rng.chance(o.reopen, 100) {
                w.note("reopen".into());
                if let Err(e) = w.sut.reopen() {
                    return Err(Div { class: "reopen", ctx: "", text: format!("reopening failed: {e}") });
                }
            }
            w.counts.add("transitions_taken", 1);
            let new = w.apply(op)?;
            if o.ways > 0 {
                if let Op::Insert { base, upd } = op {
                    let roots = states[i].roots.clone();
                    if new.is_some() {
                        crate::ways::check(w, &mut *states[i].sut, &roots, *base, *upd, o.ways)?;
                    }
                }
            }
            land(w, lts, o, states, seen, compared, i, op, *dst, new, false)?;
        }
        // free what is no longer needed
        if i > 0 {
            states[i].roots = Rc::new(HashMap::new());
        }
        *at += 1;
    }
    *at = states.len() - 1;
    Ok(())
}

fn enter(w: &mut World, lts: &Lts, states: &mut [State], i: usize) {
    w.sut = states[i].sut.fork().expect("copy");
    w.live = lts.states[states[i].abs].clone();
    w.roots = (*states[i].roots).clone();
    w.dirty = states[i].dirty;
    w.tainted = states[i].tainted;
    w.trail.clear();
}

#[allow(clippy::too_many_arguments)]
fn land(
    w: &mut World,
    lts: &Lts,
    o: &Opts,
    states: &mut Vec<State>,
    seen: &mut HashSet<(usize, bool, u64, u64)>,
    compared: &mut HashSet<(usize, bool, u64, u64, &'static str, u64)>,
    parent: usize,
    op: &Op,
    dst: usize,
    new: Option<u64>,
    cut: bool,
) -> Result<(), Div> {
    // an insert refused for depth stays where it was
    let dst = if w.live == lts.states[dst] { dst } else { states[parent].abs };
    if w.live != lts.states[dst] {
        return Ok(());
    }
    let ctx = World::ctx_of(op);
    let fp = settle(w).expect("snapshot");
    let key = (dst, w.dirty, fp.0, fp.1);
    let newness = new.unwrap_or(0);
    if (o.only_ctx.is_empty() || o.only_ctx == ctx)
        && compared.insert((dst, w.dirty, fp.0, fp.1, if o.only_ctx.is_empty() { "" } else { ctx },
                            if o.only_ctx.is_empty() { 0 } else { newness }))
    {
        w.check_state(new, ctx)?;
    }
    if seen.insert(key) {
        if states.len() >= o.max_states {
            w.counts.add("product_states_not_expanded", 1);
            return Ok(());
        }
        let via = w.trail.join(" | ");
        let sut = w.sut.fork().expect("copy");
        states.push(State {
            abs: dst,
            sut,
            roots: Rc::new(w.roots.clone()),
            dirty: w.dirty,
            tainted: w.tainted,
            cuts: states[parent].cuts + u32::from(cut),
            parent,
            via,
        });
    }
    Ok(())
}

/// One call, cut short at each of its storage operations in turn
#[allow(clippy::too_many_arguments)]
fn cut_all(
    w: &mut World,
    lts: &Lts,
    o: &Opts,
    states: &mut Vec<State>,
    seen: &mut HashSet<(usize, bool, u64, u64)>,
    compared: &mut HashSet<(usize, bool, u64, u64, &'static str, u64)>,
    i: usize,
    op: &Op,
    dst: usize,
) -> Result<(), Div> {
    for kind in [FaultKind::Dead, FaultKind::Once] {
        let mut k = 0;
        loop {
            enter(w, lts, states, i);
            w.sut.fault(Some(k), kind);
            let what = match op {
                Op::InsertCut { base, upd } => {
                    let u = w.conc.contents(*upd);
                    let base_root = w.root_of(*base);
                    let (keys, vals) = w.batch(&u);
                    let r = if keys.len() == 1 && k % 2 == 1 {
                        w.sut.insert_one(base_root.as_deref(), &keys[0], &vals[0])
                    } else {
                        w.sut.insert(base_root.as_deref(), &keys, &vals)
                    };
                    w.note(format!("insert base={base} {} cut at storage operation {k} ({kind:?})", w.show(*upd)));
                    r.map(|b| format!("root {}", hex(&b)))
                }
                Op::RemoveCut { m } => {
                    let root = w.roots[m].clone();
                    w.note(format!("remove {} cut at storage operation {k} ({kind:?})", hex(&root)));
                    let r = w.sut.remove(&root);
                    bag_drop(&mut w.live, *m);
                    if !w.live.iter().any(|x| x.0 == *m) {
                        w.roots.remove(m);
                    }
                    r.map(|()| "success".to_owned())
                }
                _ => unreachable!(),
            };
            let (_, fired) = w.sut.ops();
            w.sut.fault(None, kind);
            if !fired {
                break;
            }
            k += 1;
            w.counts.add("calls_cut", 1);
            match what {
                Ok(s) => {
                    let d = Div { class: "cut_accepted", ctx: "after_cut",
                        text: format!("a storage operation of the call failed, yet it reported {s}") };
                    w.soft(Err(d))?;
                }
                Err(Fail::Panic(s)) => {
                    let d = Div { class: "cut_panic", ctx: "after_cut",
                        text: format!("a failing storage operation made the call panic: {s}") };
                    w.soft(Err(d))?;
                }
                Err(Fail::Err(_)) => {}
            }
            w.dirty = true;
            if let Err(e) = w.sut.reopen() {
                return Err(Div { class: "reopen", ctx: "after_cut", text: format!("reopening failed: {e}") });
            }
            land(w, lts, o, states, seen, compared, i, op, dst, None, true)?;
        }
    }
    Ok(())
}
