//! C09: every way to make the same insert ends in the same place.
use crate::sut::{Snap, Sut, B, V};
use crate::world::{hex, Div, World};
use std::collections::{BTreeMap, HashMap};

/// what is stored, apart from the representative key of a branch and the counters
fn nodes(s: &Snap) -> BTreeMap<B, V> {
    s.iter()
        .map(|(l, n)| {
            let mut v = n.v.clone();
            if let V::Branch { key, .. } = &mut v {
                key.clear();
            }
            (l.clone(), v)
        })
        .collect()
}

fn fail(class: &'static str, text: String) -> Div {
    Div { class, ctx: "ways", text }
}

/// `from` is the implementation before the insert of `upd` onto `base`; the world `w` has just
/// made that insert in one of the ways.
pub fn check(w: &mut World, from: &mut dyn Sut, roots: &HashMap<u64, B>, base: u64, upd: u64, n: usize) -> Result<(), Div> {
    let u: Vec<(B, B)> = w.conc.contents(upd).iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let base_root = if base == 0 { None } else { Some(roots[&base].clone()) };
    let code = crate::lts::overlay(base, upd, w.conc.kabs, w.conc.vals);
    let root = w.roots[&code].clone();
    let want = w.sut.snapshot().map(|s| nodes(&s));
    let shown = w.show(upd);
    let mut ways: Vec<Vec<usize>> = Vec::new();
    let len = u.len();
    ways.push(vec![len]); // one batch
    ways.push(vec![0; len]); // 0: a single-key call
    ways.push(vec![1; len]); // batches of one
    for _ in 0..n {
        let mut left = len;
        let mut way = Vec::new();
        while left > 0 {
            let k = 1 + w.rng.below(left.min(4 + len / 3));
            way.push(if k == 1 && w.rng.chance(1, 2) { 0 } else { k });
            left -= k;
        }
        ways.push(way);
    }
    for way in ways {
        if way.len() > 40 {
            continue;
        }
        let mut s = match from.fork() {
            Some(s) => s,
            None => return Ok(()),
        };
        let mut pairs = u.clone();
        w.rng.shuffle(&mut pairs);
        let mut cur = base_root.clone();
        let mut made: Vec<B> = Vec::new();
        w.counts.add("ways_compared", 1);
        let mut at = 0;
        for &k in &way {
            let part = &pairs[at..at + k.max(1)];
            at += k.max(1);
            let (ks, vs): (Vec<B>, Vec<B>) = part.iter().cloned().unzip();
            let r = if k == 0 { s.insert_one(cur.as_deref(), &ks[0], &vs[0]) } else { s.insert(cur.as_deref(), &ks, &vs) };
            match r {
                Ok(x) => {
                    made.push(x.clone());
                    cur = Some(x);
                }
                Err(e) => {
                    return Err(fail("way_root", format!("inserting {shown} as {way:?} (0: single-key call) failed: {e}")));
                }
            }
        }
        if cur.as_ref() != Some(&root) {
            return Err(fail("way_root", format!("inserting {shown} as {way:?} (0: single-key call) gave {:?}, otherwise {}",
                cur.as_deref().map(hex), hex(&root))));
        }
        made.pop();
        if w.rng.chance(1, 2) {
            made.reverse();
        }
        for r in &made {
            if let Err(e) = s.remove(r) {
                return Err(fail("way_store", format!("releasing an intermediate root failed: {e}")));
            }
        }
        let got = s.snapshot().map(|s| nodes(&s));
        if got != want {
            let (a, b) = (got.unwrap_or_default(), want.clone().unwrap_or_default());
            let extra = a.iter().find(|(k, v)| b.get(*k) != Some(v));
            let gone = b.iter().find(|(k, v)| a.get(*k) != Some(v));
            return Err(fail("way_store", format!("inserting {shown} as {way:?} (0: single-key call) leaves {} nodes, otherwise {}; only here {extra:?}, only there {gone:?}",
                a.len(), b.len())));
        }
    }
    Ok(())
}
