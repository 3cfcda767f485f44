//! Scenarios of single properties.
use crate::conc::flip;
use crate::lts;
use crate::sut::B;
use crate::walk;
use crate::world::{hex, Div, World};
use std::collections::{BTreeMap, HashSet};

/// C16: contents inserted many times, in different ways, and removed as many times
pub fn repeat(w: &mut World, times: usize) -> Result<(), Div> {
    let kabs = w.conc.kabs;
    let vals = w.conc.vals;
    let full: Vec<u64> = (0..kabs).map(|_| 1 + w.rng.next() % vals).collect();
    // the contents in question: a part of the keys, so that another root can contain them
    let mut part = full.clone();
    let keep = 1 + w.rng.below(kabs);
    for (i, x) in part.iter_mut().enumerate() {
        if i >= keep {
            *x = 0;
        }
    }
    let code = lts::encode(&part, vals);
    let whole = lts::encode(&full, vals);
    // one that shares all keys and differs in one value
    let mut other = part.clone();
    other[0] = other[0] % vals + 1;
    let other = lts::encode(&other, vals);
    let container = w.rng.chance(1, 2) && whole != code;
    let rival = other != code && w.rng.chance(1, 2);
    if rival {
        w.insert(0, other, false)?;
    }
    w.insert(0, code, false)?;
    if container {
        let base = if w.rng.chance(1, 2) { code } else { 0 };
        w.insert(base, whole, false)?;
    }
    let log = w.trail.len();
    for i in 1..times {
        let base = match i % 5 {
            0 | 1 => 0,
            2 | 3 => code,
            _ if rival => other,
            _ => code,
        };
        // from its own root a part of the pairs is enough
        let upd = if base == code && i % 2 == 0 {
            let mut p = part.clone();
            for x in p.iter_mut().skip(1) {
                if w.rng.chance(1, 2) {
                    *x = 0;
                }
            }
            lts::encode(&p, vals)
        } else {
            code
        };
        w.trail.truncate(log + 40);
        w.insert(base, upd, i % 3 == 0)?;
        if i < 4 || i + 1 == times {
            w.check_state(Some(code), "other_after_insert")?;
        }
    }
    w.note(format!("... inserted {times} times in all"));
    if container && w.rng.chance(1, 2) {
        w.remove(whole)?;
        w.check_state(None, "other_after_remove")?;
    }
    for i in 1..times {
        w.trail.truncate(log + 80);
        w.remove(code)?;
        if i < 3 || i + 3 > times || i % 10_000 == 0 {
            w.check_state(None, "other_after_remove")?;
        }
    }
    w.note(format!("... removed {} times", times - 1));
    let root = w.roots[&code].clone();
    w.remove(code)?;
    w.check_state(None, "other_after_remove")?;
    if w.live.is_empty() {
        // nothing is left that could make it readable
        let q = w.conc.all_keys();
        match w.sut.get(&root, &q) {
            Ok(m) if m.iter().all(|x| x.1.is_none()) => {}
            Ok(_) => {
                let d = Div { class: "store_extra", ctx: "", text: format!("the contents of {} can be read after as many removals as inserts", hex(&root)) };
                w.soft(Err(d))?;
            }
            Err(e) => {
                let d = Div { class: "unknown_read", ctx: "", text: format!("reading the removed root {} failed: {e}", hex(&root)) };
                w.soft(Err(d))?;
            }
        }
    }
    w.counts.add("repetitions", times as u64);
    walk::drain(w, &walk::Opts::default())
}

/// C06, C05: contents that differ in one bit of one value or key, or in a length
pub fn neighbours(w: &mut World, values: usize) -> Result<(), Div> {
    let n = w.conc.n;
    let mut by_root: std::collections::HashMap<Vec<u8>, (Vec<u8>, Vec<u8>)> = std::collections::HashMap::new();
    let len = match w.rng.below(7) {
        5 => [127, 128, 129, 255, 256, 1023, 1024, 1025, 4095, 4096, 4097][w.rng.below(11)],
        6 => 1000 + w.rng.below(70_000),
        0 => 0,
        1 => 1,
        2 => w.rng.below(40),
        3 => 60 + w.rng.below(10),
        _ => w.rng.below(300),
    };
    let k = w.rng.bytes(n);
    let v = w.rng.bytes(len);
    // a second pair keeps the tree from being a single leaf, in half of the runs
    let second = if w.rng.chance(1, 2) { Some((w.rng.bytes(n), w.rng.bytes(4))) } else { None };
    let mut variants: Vec<(Vec<u8>, Vec<u8>)> = vec![(k.clone(), v.clone())];
    for _ in 0..values {
        let mut kk = k.clone();
        let mut vv = v.clone();
        match w.rng.below(7) {
            0 => kk[w.rng.below(n)] ^= 1 << w.rng.below(8),
            1 if len > 0 => {
                let i = w.rng.below(len);
                vv[i] ^= 1 << w.rng.below(8);
            }
            2 => vv.push(0),
            3 => vv.insert(0, 0),
            4 => {
                vv.pop();
            }
            5 => {
                // the last byte of the key becomes the first of the value and the other way round
                if len > 0 {
                    std::mem::swap(&mut kk[n - 1], &mut vv[0]);
                }
            }
            _ => {
                let l = w.rng.below(3) + 1;
                vv.extend(vec![0; l]);
            }
        }
        variants.push((kk, vv));
    }
    for (kk, vv) in variants {
        let mut ks = vec![kk.clone()];
        let mut vs = vec![vv.clone()];
        if let Some((a, b)) = &second {
            if *a == kk {
                continue;
            }
            ks.push(a.clone());
            vs.push(b.clone());
        }
        w.counts.add("roots_compared", 1);
        match w.sut.insert(None, &ks, &vs) {
            Ok(root) => {
                if let Some(o) = by_root.get(&root) {
                    if *o != (kk.clone(), vv.clone()) {
                        return Err(Div { class: "other_contents_same_root", ctx: "neighbours",
                            text: format!("{}={} and {}={} share root {}", hex(&kk), hex(&vv), hex(&o.0), hex(&o.1), hex(&root)) });
                    }
                }
                by_root.insert(root, (kk, vv));
            }
            Err(e) => return Err(Div { class: "insert_failed", ctx: "neighbours", text: format!("a valid insert failed: {e}") }),
        }
    }
    Ok(())
}

/// Every batch size: contents of `2 * cluster` keys, whole, in halves and onto one another
pub fn sizes(w: &mut World, i: usize) -> Result<(), Div> {
    let (a, b, full) = (1, 2 * (w.conc.vals + 1), 1 + 2 * (w.conc.vals + 1));
    let plan: &[(u64, u64)] = match i % 3 {
        0 => &[(0, a), (a, b), (0, full)],
        1 => &[(0, full), (full, a + 1), (full, b)],
        _ => &[(0, b), (b, a), (0, a), (full, full)],
    };
    for (base, upd) in plan {
        if *base == 0 || w.roots.contains_key(base) {
            let new = w.insert(*base, *upd, false)?;
            w.check_state(new, "other_after_insert")?;
        }
    }
    w.counts.add("behaviours_replayed", 1);
    walk::drain(w, &walk::Opts::default())
}

/// The deepest trees there are: keys that leave a common one at every bit, or at some, so that the
/// way to the last ones has as many branches as a key has bits
pub fn ladders(w: &mut World, i: usize) -> Result<(), Div> {
    let bits = w.conc.n * 8;
    let rungs = if i % 3 == 2 { 1 + w.rng.below(bits) } else { bits };
    let mut at: Vec<usize> = (0..bits).collect();
    w.rng.shuffle(&mut at);
    at.truncate(rungs);
    let base = w.rng.bytes(w.conc.n);
    let mut groups = vec![vec![base.clone()], vec![]];
    for (j, p) in at.into_iter().enumerate() {
        let mut k = base.clone();
        flip(&mut k, p);
        groups[(j + 1) % 2].push(k);
    }
    let mut rng = crate::rng::Rng::new(w.rng.next());
    std::rc::Rc::get_mut(&mut w.conc).expect("the only one").assign(groups, &mut rng);
    w.note(format!("a ladder of {rungs} rungs"));
    if w.panel.proofs > 0 {
        w.panel.proofs = 40;
    }
    sizes(w, i)
}

/// Very many keys: half of them, all of them, some overwritten, and everything removed again
pub fn bulk(w: &mut World, i: usize) -> Result<(), Div> {
    let lopsided = matches!(i % 6, 2 | 4);
    if lopsided {
        // a few keys on one side of the tree, one on the other's side, and all the rest beside it
        let side = if i % 6 == 2 { 0xC0 } else { 0 };
        let mut groups = w.conc.keys.clone();
        for (a, g) in groups.iter_mut().enumerate() {
            for (j, k) in g.iter_mut().enumerate() {
                let at = match (a, j) {
                    (_, j) if j % 300 == 7 => k[0] & 0x40,
                    (0, 8) => 0x80,
                    _ => 0xC0,
                };
                k[0] = k[0] & 0x3F | at ^ side;
            }
        }
        if groups.iter().flatten().collect::<HashSet<_>>().len() == w.conc.all_keys().len() {
            let mut rng = crate::rng::Rng::new(w.rng.next());
            std::rc::Rc::get_mut(&mut w.conc).expect("the only one").assign(groups, &mut rng);
        }
    }
    let base = w.conc.vals + 1;
    let (one, two, three) = (1, base, base * base);
    let steps: Vec<(u64, u64)> = match if lopsided { 0 } else { i % 3 } {
        0 => vec![(0, one + two + three), (one + two + three, 2 * two), (0, one), (one, two + three)],
        1 => vec![(0, one + two), (one + two, three), (one + two + three, 2 * one + 2 * three), (0, 2 * one + two + 2 * three)],
        _ => vec![(0, two), (two, one + three), (0, one + two + three)],
    };
    for (b, u) in steps {
        let new = w.insert(b, u, false)?;
        w.check_state(new, "other_after_insert")?;
    }
    w.counts.add("behaviours_replayed", 1);
    walk::drain(w, &walk::Opts::default())
}

/// Very many live versions that share structure: one subtree that all of them contain, and one
/// that differs.  They are removed first in, first out, last in, first out, or in any order.
pub fn versions(w: &mut World, count: usize) -> Result<(), Div> {
    // the keys of abstract key 0 are one side of the tree
    let split = w.rng.below(w.conc.n.min(3) * 8);
    let mut rng = crate::rng::Rng::new(w.rng.next());
    std::rc::Rc::get_mut(&mut w.conc).expect("the only one").divide(split, &mut rng);
    let (kabs, vals) = (w.conc.kabs, w.conc.vals);
    let all = (vals + 1).pow(kabs as u32 - 1);
    let first = 1;
    w.insert(0, first, false)?;
    let mut made = vec![first];
    let step = 1 + (w.rng.next() % 7) * 2;
    let mut at = w.rng.next();
    let every = (count / 12).max(1);
    let again = w.rng.chance(1, 3);
    while made.len() < count {
        at = at.wrapping_add(step);
        let upd = (at % all) * (vals + 1);
        if upd == 0 {
            continue;
        }
        let base = match w.rng.below(8) {
            0 => *w.rng.pick(&made),
            1 => made[made.len() - 1],
            _ => first,
        };
        let upd = if w.rng.chance(1, 8) { upd + 1 } else { upd };
        w.trail.truncate(60);
        let repeat = again && w.rng.chance(1, 4);
        match w.insert(base, upd, false)? {
            Some(c) => made.push(c),
            None => return Ok(()),
        }
        if repeat {
            let c = made[made.len() - 1];
            w.insert(c, 1, false)?;
            made.push(c);
        }
        if made.len() % every == 0 {
            w.check_state(None, "other_after_insert")?;
        }
    }
    w.counts.add("live_versions", made.len() as u64);
    w.note(format!("... {} live versions", made.len()));
    match w.rng.below(3) {
        0 => {}
        1 => made.reverse(),
        _ => w.rng.shuffle(&mut made),
    }
    let n = made.len();
    for (j, c) in made.into_iter().enumerate() {
        w.trail.truncate(100);
        w.remove(c)?;
        if j % every == 0 || j + 4 > n {
            w.check_state(None, "other_after_remove")?;
        }
    }
    w.counts.add("behaviours_replayed", 1);
    Ok(())
}

/// The contents a root stands for, for keys and values that no abstract ones stand for
struct Ledger {
    live: Vec<(B, BTreeMap<B, B>)>,
    seen: BTreeMap<B, BTreeMap<B, B>>,
}

impl Ledger {
    fn insert(&mut self, w: &mut World, base: Option<usize>, k: &B, v: &B) -> Result<(), Div> {
        let mut m = base.map(|i| self.live[i].1.clone()).unwrap_or_default();
        let root = base.map(|i| self.live[i].0.clone());
        w.note(format!("insert base={} {}={}", root.as_deref().map_or("none".into(), hex), hex(k), hex(v)));
        m.insert(k.clone(), v.clone());
        w.counts.add("inserts", 1);
        let one = w.rng.chance(1, 2);
        let r = if one { w.sut.insert_one(root.as_deref(), k, v) } else { w.sut.insert(root.as_deref(), std::slice::from_ref(k), std::slice::from_ref(v)) };
        let new = match r {
            Ok(r) => r,
            Err(e) => {
                let d = Div { class: "insert_failed", ctx: "", text: format!("a valid insert failed: {e}") };
                return w.soft(Err(d));
            }
        };
        w.note(format!("   -> {}", hex(&new)));
        w.counts.add("roots_compared", 1);
        if let Some(o) = self.seen.get(&new) {
            if *o != m {
                let d = Div { class: "other_contents_same_root", ctx: "", text: format!("{m:02x?} and {o:02x?} share root {}", hex(&new)) };
                w.soft(Err(d))?;
            }
        }
        if let Some((old, _)) = self.live.iter().find(|x| x.1 == m) {
            if *old != new {
                let d = Div { class: "same_contents_other_root", ctx: "", text: format!("{m:02x?} has roots {} and {}", hex(old), hex(&new)) };
                w.soft(Err(d))?;
            }
        }
        self.seen.insert(new.clone(), m.clone());
        self.live.push((new, m));
        Ok(())
    }

    fn check(&self, w: &mut World, ctx: &'static str) -> Result<(), Div> {
        w.counts.add("states_compared", 1);
        let snap = if w.panel.store || w.panel.shape { w.sut.snapshot() } else { None };
        for (j, (root, m)) in self.live.iter().enumerate() {
            let ctx = if ctx == "other_after_insert" && j + 1 == self.live.len() { "new" } else { ctx };
            let q: Vec<B> = m.keys().cloned().collect();
            if w.panel.batches > 0 {
                w.counts.add("batch_reads", 1);
                let r = match w.sut.get(root, &q) {
                    Ok(a) if a.len() == q.len() && a.iter().all(|(k, v)| v.as_ref() == m.get(k)) => Ok(()),
                    Ok(a) => Err(Div { class: "read", ctx, text: format!("get at {} of {m:02x?} answered {:02x?}", hex(root), a) }),
                    Err(e) => Err(Div { class: "read", ctx, text: format!("get at {} of {m:02x?}: {e}", hex(root)) }),
                };
                w.soft(r)?;
            }
            let proved = if w.panel.proofs > 0 { m.len() } else { 0 };
            for (k, v) in m.iter().take(proved) {
                w.counts.add("proofs", 1);
                let r = match w.sut.prove(root, k) {
                    Ok(p) => match w.sut.verify(root, k, v, &p) {
                        Ok(()) => Ok(()),
                        Err(e) => Err(format!("its proof is rejected: {e}")),
                    },
                    Err(e) => Err(format!("{e}")),
                };
                let r = r.map_err(|e| Div { class: "proof", ctx, text: format!("proof of {} at {} of {m:02x?}: {e}", hex(k), hex(root)) });
                w.soft(r)?;
            }
            if let Some(s) = &snap {
                let mut reach = std::collections::HashSet::new();
                let r = w.walk_tree(s, root, &mut reach, &mut Vec::new(), m, 0);
                w.soft(r)?;
            }
        }
        Ok(())
    }
}

/// Keys and values whose bytes are what another node is hashed from: whatever the implementation
/// gives to its hash function is cut into a key and a value and inserted.  If nodes of different
/// kinds are hashed from different bytes, nothing happens; if not, one takes the other's place.
pub fn disguise(w: &mut World, rounds: usize) -> Result<(), Div> {
    let n = w.conc.n;
    let names = w.rng.below(3);
    crate::hasher::names(names);
    crate::sut::PLAIN.with(|p| p.set(true));
    let mut l = Ledger { live: Vec::new(), seen: BTreeMap::new() };
    let mut done: HashSet<B> = HashSet::new();
    for round in 0..rounds {
        if round % 6 < 2 || l.live.is_empty() {
            // something ordinary
            let base = if l.live.is_empty() || w.rng.chance(1, 3) { None } else { Some(w.rng.below(l.live.len())) };
            let mut k = w.rng.bytes(n);
            if w.rng.chance(1, 2) {
                k[0] = *w.rng.pick(b"dlb\0");
            }
            let v = if w.rng.chance(1, 2) { w.rng.bytes(n) } else { w.rng.bytes(3) };
            l.insert(w, base, &k, &v)?;
            l.check(w, "other_after_insert")?;
        }
        // what was hashed, in another guise
        let mut said: Vec<B> = crate::hasher::inputs().into_iter().filter(|x| !done.contains(x)).collect();
        said.sort();
        w.rng.shuffle(&mut said);
        for p in said.into_iter().take(4) {
            done.insert(p.clone());
            for skip in 0..=2 {
                if p.len() < skip + n {
                    continue;
                }
                let (k, v) = (p[skip..skip + n].to_vec(), p[skip + n..].to_vec());
                let base = if w.rng.chance(1, 2) || l.live.is_empty() { None } else { Some(w.rng.below(l.live.len())) };
                w.counts.add("disguises_tried", 1);
                l.insert(w, base, &k, &v)?;
            }
            l.check(w, "other_after_insert")?;
        }
        while l.live.len() > 12 {
            let i = w.rng.below(l.live.len());
            let (root, _) = l.live.swap_remove(i);
            w.note(format!("remove {}", hex(&root)));
            if let Err(e) = w.sut.remove(&root) {
                let d = Div { class: "remove_failed", ctx: "", text: format!("removing a live root failed: {e}") };
                w.soft(Err(d))?;
            }
            l.check(w, "other_after_remove")?;
        }
    }
    while let Some((root, _)) = l.live.pop() {
        if let Err(e) = w.sut.remove(&root) {
            let d = Div { class: "remove_failed", ctx: "", text: format!("removing a live root failed: {e}") };
            w.soft(Err(d))?;
        }
        l.check(w, "other_after_remove")?;
    }
    if let Some(s) = w.sut.snapshot() {
        if !s.is_empty() && w.panel.store {
            let d = Div { class: "store_extra", ctx: "", text: format!("{} nodes are left after every root was removed", s.len()) };
            w.soft(Err(d))?;
        }
    }
    Ok(())
}

/// The same for claims: pairs cut out of what was hashed, with proofs that are right up to
/// somewhere and then go on like a genuine one
pub fn disguised_claims(w: &mut World, rounds: usize) -> Result<(), Div> {
    let n = w.conc.n;
    let names = w.rng.below(3);
    crate::hasher::names(names);
    crate::sut::PLAIN.with(|p| p.set(true));
    let mut l = Ledger { live: Vec::new(), seen: BTreeMap::new() };
    for _ in 0..rounds {
        let base = if l.live.is_empty() || w.rng.chance(1, 4) { None } else { Some(l.live.len() - 1) };
        let mut k = w.rng.bytes(n);
        if w.rng.chance(1, 2) {
            k[0] = *w.rng.pick(b"dlb\0");
        }
        let v = if w.rng.chance(1, 2) { w.rng.bytes(n) } else { w.rng.bytes(3) };
        l.insert(w, base, &k, &v)?;
    }
    let said = crate::hasher::inputs();
    let mut proofs: Vec<Vec<(B, bool)>> = Vec::new();
    for (root, m) in &l.live {
        for k in m.keys() {
            proofs.extend(w.sut.prove(root, k));
        }
    }
    w.rng.shuffle(&mut proofs);
    proofs.truncate(12);
    let mut picked = said.clone();
    picked.sort();
    w.rng.shuffle(&mut picked);
    for p in picked.into_iter().take(30) {
        for skip in 0..=2 {
            if p.len() < skip + n {
                continue;
            }
            let (k, v) = (p[skip..skip + n].to_vec(), p[skip + n..].to_vec());
            // the pair's own nodes, as the implementation would make them
            let own = match w.sut.insert(None, &[k.clone()], &[v.clone()]) {
                Ok(r) => w.sut.prove(&r, &k).unwrap_or_default(),
                Err(_) => continue,
            };
            for (root, m) in &l.live {
                let is = m.get(&k) == Some(&v);
                for g in &proofs {
                    for from in 0..=g.len() {
                        let mut q = own.clone();
                        q.truncate(2);
                        q.extend(g[from..].iter().cloned());
                        w.counts.add("claims_verified", 1);
                        if w.sut.verify(root, &k, &v, &q).is_ok() && !is {
                            return Err(Div { class: "forged", ctx: "", text: format!("{}={} is accepted at {} of {m:02x?} with a proof of {} elements",
                                hex(&k), hex(&v), hex(root), q.len()) });
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// Invalid requests of all kinds, one after another
pub fn refusals(w: &mut World, count: usize) -> Result<(), Div> {
    for i in 0..count {
        let base = if w.live.is_empty() || w.rng.chance(1, 2) { 0 } else { w.live[w.rng.below(w.live.len())].0 };
        let r = match i % 6 {
            5 => w.remove_unknown(),
            k => w.reject(["dup", "len", "unknown", "empty", "value"][k], base),
        };
        w.soft(r)?;
    }
    w.check_state(None, "after_reject")
}

/// Inserts repeated word for word: while their base is there, when it is gone, when it is back
pub fn again(w: &mut World) -> Result<(), Div> {
    let all = (w.conc.vals + 1).pow(w.conc.kabs.min(12) as u32);
    for round in 0..6 {
        let base = 1 + w.rng.next() % (all - 1);
        let upd = 1 + w.rng.next() % (all - 1);
        let single = w.rng.chance(1, 2);
        if w.insert(0, base, false)?.is_none() {
            continue;
        }
        let Some(new) = w.insert(base, upd, single)? else { continue };
        if w.rng.chance(1, 2) {
            // gives it a second reference, and the same root
            w.insert(base, upd, single)?;
            w.remove(new)?;
        }
        let both = w.rng.chance(1, 3);
        while w.roots.contains_key(&base) {
            w.remove(base)?;
        }
        if both {
            while w.roots.contains_key(&new) {
                w.remove(new)?;
            }
        }
        let r = w.again();
        w.soft(r)?;
        if w.rng.chance(1, 2) {
            w.insert(0, base, false)?;
            let new = w.insert(base, upd, single)?;
            w.check_state(new, "other_after_insert")?;
        }
        if w.rng.chance(1, 2) || round == 5 {
            w.check_state(None, "after_reject")?;
        }
    }
    Ok(())
}

/// Batches in which the keys that concern a tree are a few in the middle, with very many before
/// them and after them; and trees with a common prefix under batches that are mostly elsewhere
pub fn flanks(w: &mut World, low: usize, mid: usize, high: usize) -> Result<(), Div> {
    let mut rng = crate::rng::Rng::new(w.rng.next());
    let first = 0x10 + rng.below(0xD0) as u8;
    let mut all = HashSet::new();
    let mut groups = vec![Vec::new(); 3];
    for (g, count) in [mid, low, high].into_iter().enumerate() {
        while groups[g].len() < count {
            let mut k = rng.bytes(w.conc.n);
            k[0] = match g {
                0 => first,
                1 => rng.below(first as usize) as u8,
                _ => first + 1 + rng.below(255 - first as usize) as u8,
            };
            if all.insert(k.clone()) {
                groups[g].push(k);
            }
        }
    }
    let conc = std::rc::Rc::get_mut(&mut w.conc).expect("the only one");
    conc.kabs = 3;
    conc.assign(groups, &mut rng);
    let base = w.conc.vals + 1;
    let (one, two, three) = (1, base, base * base);
    for (b, u) in [(0, one), (one, two + three), (one, 2 * one + three)] {
        let new = w.insert(b, u, false)?;
        w.check_state(new, "other_after_insert")?;
    }
    walk::drain(w, &walk::Opts::default())
}
