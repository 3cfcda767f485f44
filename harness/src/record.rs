//! Histories recorded for TLC, long histories with cuts, and ladders at the depth limit.
use crate::conc::{flip, Conc, KeyStyle, ValStyle};
use crate::lts::{Bag, Op};
use crate::plans::Record;
use crate::sut::{Fail, FaultKind, B};
use crate::walk;
use crate::world::{bag_drop, hex, Div, World};

fn store(w: &mut World, cut: bool) {
    if let (Some(mut t), Some(s)) = (w.trace.take(), w.sut.snapshot()) {
        t.store(&s, |b| w.sut.dec(b), cut);
        w.trace = Some(t);
    }
}

pub fn run(w: &mut World, walk: &[(Op, Bag)], steps: usize, mode: Record) -> Result<(), Div> {
    for (op, _) in walk.iter().take(steps) {
        let known = |c: u64| c == 0 || w.roots.contains_key(&c);
        let ok = match op {
            Op::Insert { base, .. } | Op::Reject { base, .. } => known(*base),
            Op::Remove { m } => known(*m),
            _ => true,
        };
        if !ok {
            continue;
        }
        if mode == Record::Cuts && w.rng.chance(1, 3) {
            let op = match op {
                Op::Insert { base, upd } => Op::InsertCut { base: *base, upd: *upd },
                Op::Remove { m } => Op::RemoveCut { m: *m },
                o => o.clone(),
            };
            if cut(w, &op)? {
                store(w, true);
                w.check_state(None, "after_cut")?;
                continue;
            }
            store(w, false);
            continue;
        }
        if mode == Record::Backends && w.rng.chance(1, 5) {
            w.note("reopen".into());
            w.sut.reopen().map_err(|e| Div { class: "reopen", ctx: "", text: format!("reopening failed: {e}") })?;
            store(w, false);
        }
        let new = w.apply(op)?;
        w.counts.add("steps_recorded", 1);
        if matches!(op, Op::Insert { .. }) && new.is_none() {
            if let Some(t) = &mut w.trace {
                t.inert("depth");
            }
        }
        store(w, false);
        w.check_state(new, World::ctx_of(op))?;
        if mode == Record::Claims && !w.live.is_empty() && w.rng.chance(1, 2) {
            crate::forge::mutate(w, 3)?;
        }
    }
    Ok(())
}

/// Cuts the call at a random storage operation; false: it ended before that
fn cut(w: &mut World, op: &Op) -> Result<bool, Div> {
    let kind = if w.rng.chance(1, 2) { FaultKind::Dead } else { FaultKind::Once };
    let at = match w.rng.below(3) {
        0 => w.rng.below(6),
        1 => w.rng.below(30),
        _ => {
            let most = 120.max(8 * w.conc.all_keys().len());
            w.rng.below(most)
        }
    } as u64;
    w.sut.fault(Some(at), kind);
    let mut made = None;
    let r = match op {
        Op::InsertCut { base, upd } => {
            let u = w.conc.contents(*upd);
            let base_root = w.root_of(*base);
            let (keys, vals) = w.batch(&u);
            w.note(format!("insert base={base} {} to be cut at {at} ({kind:?})", w.show(*upd)));
            let r = w.sut.insert(base_root.as_deref(), &keys, &vals);
            if let (Ok(root), Some(t)) = (&r, &mut w.trace) {
                t.insert(base_root.as_deref(), &u, root);
            }
            r.map(|x| made = Some((crate::lts::overlay(*base, *upd, w.conc.kabs, w.conc.vals), x)))
        }
        Op::RemoveCut { m } => {
            let root = w.roots[m].clone();
            w.note(format!("remove {} to be cut at {at} ({kind:?})", hex(&root)));
            let r = w.sut.remove(&root);
            if let Some(t) = &mut w.trace {
                t.remove(&root);
            }
            bag_drop(&mut w.live, *m);
            if !w.live.iter().any(|x| x.0 == *m) {
                w.roots.remove(m);
            }
            r
        }
        _ => {
            w.sut.fault(None, kind);
            return Ok(false);
        }
    };
    let (_, fired) = w.sut.ops();
    w.sut.fault(None, kind);
    if !fired {
        if let Some((code, root)) = made {
            w.roots.insert(code, root);
            crate::world::bag_add(&mut w.live, code);
        }
        if let Err(e) = r {
            let class = if matches!(op, Op::RemoveCut { .. }) { "remove_failed" } else { "insert_failed" };
            return Err(Div { class, ctx: "", text: format!("a call that was not cut failed: {e}") });
        }
        return Ok(false);
    }
    w.counts.add("calls_cut", 1);
    match r {
        Ok(()) => return Err(Div { class: "cut_accepted", ctx: "after_cut", text: "a storage operation of the call failed, yet it reported success".into() }),
        Err(Fail::Panic(s)) => return Err(Div { class: "cut_panic", ctx: "after_cut", text: format!("a failing storage operation made the call panic: {s}") }),
        Err(Fail::Err(_)) => {}
    }
    w.dirty = true;
    if let Err(e) = w.sut.reopen() {
        return Err(Div { class: "reopen", ctx: "after_cut", text: format!("reopening failed: {e}") });
    }
    Ok(true)
}

/// Long random histories in which many calls are cut
pub fn long_cuts(w: &mut World, i: usize) -> Result<(), Div> {
    let steps = 40;
    for _ in 0..steps {
        let n = w.live.iter().map(|x| x.1).sum::<u64>();
        let insert = n == 0 || (n < 8 && w.rng.chance(3, 5));
        let all = (w.conc.vals + 1).pow(w.conc.kabs as u32);
        let op = if insert {
            let base = if w.live.is_empty() || w.rng.chance(1, 4) { 0 } else { w.live[w.rng.below(w.live.len())].0 };
            let mut c = w.rng.next() % all;
            // often a few keys only, often the very pairs of a live version
            if w.rng.chance(1, 2) {
                let keep = 1 + w.rng.below(w.conc.kabs);
                let mut d = crate::lts::decode(c, w.conc.kabs, w.conc.vals);
                for (j, x) in d.iter_mut().enumerate() {
                    if j % w.conc.kabs >= keep {
                        *x = 0;
                    }
                }
                c = crate::lts::encode(&d, w.conc.vals);
            }
            if !w.live.is_empty() && w.rng.chance(1, 4) {
                c = w.live[w.rng.below(w.live.len())].0;
            }
            Op::Insert { base, upd: c.max(1) }
        } else {
            Op::Remove { m: w.live[w.rng.below(w.live.len())].0 }
        };
        let ctx = if w.rng.chance(1, 3) || i % 7 == 0 {
            let op = match &op {
                Op::Insert { base, upd } => Op::InsertCut { base: *base, upd: *upd },
                Op::Remove { m } => Op::RemoveCut { m: *m },
                o => o.clone(),
            };
            cut(w, &op)?;
            "after_cut"
        } else {
            w.apply(&op)?;
            World::ctx_of(&op)
        };
        w.check_state(None, ctx)?;
    }
    w.counts.add("behaviours_replayed", 1);
    Ok(())
}

/// The on-disk store itself fails: its files cannot be written, or what they hold is no node
pub fn broken_disk(w: &mut World, i: usize) -> Result<(), Div> {
    fn err(class: &'static str, text: String) -> Result<(), Div> {
        Err(Div { class, ctx: "after_cut", text })
    }
    let all = (w.conc.vals + 1).pow(w.conc.kabs as u32);
    for _ in 0..2 + w.rng.below(4) {
        let base = if w.live.is_empty() || w.rng.chance(1, 3) { 0 } else { w.live[w.rng.below(w.live.len())].0 };
        let upd = 1 + w.rng.next() % (all - 1);
        w.insert(base, upd, false)?;
    }
    w.dirty = true;
    for _ in 0..8 {
        match w.sut.seal(true) {
            Ok(true) => {}
            Ok(false) => return Ok(()),
            Err(e) => return err("reopen", format!("opening the store read-only failed: {e}")),
        }
        w.check_state(None, "after_cut")?;
        let code = w.live[w.rng.below(w.live.len())].0;
        let root = w.roots[&code].clone();
        let what = w.rng.below(4);
        let upd = if w.rng.chance(1, 4) { code } else { 1 + w.rng.next() % (all - 1) };
        let u = w.conc.contents(upd);
        let (keys, vals) = w.batch(&u);
        let base = if w.rng.chance(1, 3) { None } else { Some(root.as_slice()) };
        let (name, r) = match what {
            0 => ("insert", w.sut.insert(base, &keys, &vals).map(|_| ())),
            1 => ("insert_one", w.sut.insert_one(base, &keys[0], &vals[0]).map(|_| ())),
            _ => ("remove", w.sut.remove(&root)),
        };
        w.counts.add("calls_cut", 1);
        match r {
            Ok(()) => return err("cut_accepted", format!("the store cannot be written, yet {name} reported success")),
            Err(Fail::Panic(s)) => return err("cut_panic", format!("the store cannot be written: {name} panicked: {s}")),
            Err(Fail::Err(_)) => {}
        }
    }
    if let Err(e) = w.sut.seal(false) {
        return err("reopen", format!("opening the store again failed: {e}"));
    }
    w.check_state(None, "after_cut")?;
    let snap = w.sut.snapshot().unwrap_or_default();
    let mut at: Vec<B> = snap.keys().cloned().collect();
    w.rng.shuffle(&mut at);
    at.truncate(12);
    for l in at {
        let junk: &[u8] = if i % 2 == 0 { b"" } else { &[0xFF; 3] };
        let Some(was) = w.sut.spoil(&l, junk) else { return Ok(()) };
        w.counts.add("nodes_spoiled", 1);
        let live = w.live.clone();
        for (code, _) in live {
            let root = w.roots[&code].clone();
            let m = w.conc.contents(code);
            let mut q: Vec<B> = m.keys().take(6).cloned().collect();
            q.push(w.conc.any_key(&mut w.rng));
            let mut answers = vec![("get", w.sut.get(&root, &q).map(|v| v.iter().all(|(k, x)| x.as_ref() == m.get(k))))];
            for k in &q {
                answers.push(("get_one", w.sut.get_one(&root, k).map(|x| x.as_ref() == m.get(k))));
                let p = w.sut.prove(&root, k);
                answers.push(("proof", p.map(|p| m.get(k).is_some_and(|v| w.sut.verify(&root, k, v, &p).is_ok()))));
            }
            w.counts.add("reads_cut", answers.len() as u64);
            for (what, r) in answers {
                let say = |why: String| format!("{what} at {} of {}, with {} bytes that are no node at {}: {why}", hex(&root), w.show(code), junk.len(), hex(&l));
                match r {
                    Ok(false) => return err("cut_answer", say("answered wrongly".into())),
                    Err(Fail::Panic(s)) => return err("cut_panic", say(format!("panicked: {s}"))),
                    _ => {}
                }
            }
        }
        w.sut.spoil(&l, &was);
    }
    w.check_state(None, "after_cut")?;
    w.counts.add("behaviours_replayed", 1);
    walk::drain(w, &walk::Opts::default())
}

/// A ladder of keys: the i-th leaves the others at the i-th of some bits, so that the last two
/// lie at the number of keys minus one; with a limit at, just above and just below that depth.
pub fn ladder(w: &mut World, i: usize) -> Result<(), Div> {
    let n = w.conc.n;
    let bits = n * 8;
    let rungs = match i % 4 {
        0 => bits,
        1 => 1 + w.rng.below(bits),
        2 => 1 + w.rng.below(20.min(bits)),
        _ => 1 + w.rng.below(4),
    };
    let mut at: Vec<usize> = (0..bits).collect();
    w.rng.shuffle(&mut at);
    at.truncate(rungs);
    at.sort_unstable();
    let base = w.rng.bytes(n);
    let mut keys = vec![base.clone()];
    for p in &at {
        let mut k = base.clone();
        flip(&mut k, *p);
        keys.push(k);
    }
    let depth = rungs;
    let limit = match w.rng.below(6) {
        0 => depth,
        1 => depth.saturating_sub(1),
        // a depth of which the low byte is small
        4 if depth > 258 => 255 + w.rng.below(depth - 256),
        2 => depth + 1,
        3 => depth.saturating_sub(2),
        _ => w.rng.below(depth + 2),
    };
    // one abstract key per rung, one value
    let mut rng = Rng2::new(w.rng.next());
    let mut conc = Conc::new(&mut rng, n, 1, 1, 1, KeyStyle::Random, ValStyle::Plain, 0);
    conc.assign(vec![keys], &mut w.rng);
    w.conc = std::rc::Rc::new(conc);
    w.limit = limit;
    w.sut = crate::sut::make(n, w.kind, limit, std::path::Path::new("")).map_err(|e| Div { class: "open", ctx: "", text: e.to_string() })?;
    w.panel = crate::world::Panel { batches: 4, ones: 300.min(2 * rungs + 4), proofs: 300.min(2 * rungs + 4), agree: true, roots: 2, ..crate::world::Panel::default() };
    w.note(format!("ladder of {rungs} rungs, limit {limit}"));
    // all but some keys first, the rest onto it: the second insert may have to pass the limit
    let new = w.insert(0, 1, false)?;
    w.check_state(new, "other_after_insert")?;
    if w.rng.chance(3, 4) {
        if let Some(c) = new {
            let again = w.insert(c, 1, false)?;
            w.check_state(again, "other_after_insert")?;
        }
    }
    crate::walk::drain(w, &crate::walk::Opts::default())
}
use crate::rng::Rng as Rng2;
