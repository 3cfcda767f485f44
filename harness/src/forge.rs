//! C08: claims and proofs that are not genuine.
use crate::sut::{Fail, Snap, B, V};
use crate::world::{hex, Div, World};
use std::collections::{BTreeMap, BTreeSet};

type Proof = Vec<(B, bool)>;

fn bad(text: String) -> Div {
    Div { class: "forged", ctx: "", text }
}

fn show(p: &[(B, bool)]) -> String {
    p.iter().map(|(h, s)| format!("{}{}", hex(h), if *s { "+" } else { "-" })).collect::<Vec<_>>().join(" ")
}

/// the sides of the first two elements (the leaf's own nodes) mean nothing
fn same(a: &[(B, bool)], b: &[(B, bool)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).enumerate().all(|(i, (x, y))| x.0 == y.0 && (i < 2 || x.1 == y.1))
}

struct Genuine {
    /// (root, key, value) -> proof, for every root and every inner node as the root of its subtree
    all: BTreeMap<(B, B, B), Proof>,
}

/// every genuine proof there is in the store, read off the stored trees
fn genuine(w: &World, snap: &Snap) -> Genuine {
    fn below(w: &World, snap: &Snap, loc: &B) -> Vec<(B, B, Proof)> {
        match snap.get(loc).map(|n| &n.v) {
            Some(V::Leaf { key, data }) => match snap.get(data).map(|n| &n.v) {
                Some(V::Data { value }) => {
                    vec![(key.clone(), w.sut.dec(value), vec![(data.clone(), false), (loc.clone(), false)])]
                }
                _ => Vec::new(),
            },
            Some(V::Branch { zero, one, .. }) => {
                let mut out = Vec::new();
                for (k, v, mut p) in below(w, snap, zero) {
                    p.push((one.clone(), true));
                    out.push((k, v, p));
                }
                for (k, v, mut p) in below(w, snap, one) {
                    p.push((zero.clone(), false));
                    out.push((k, v, p));
                }
                out
            }
            _ => Vec::new(),
        }
    }
    let mut all = BTreeMap::new();
    for loc in snap.keys() {
        for (k, v, p) in below(w, snap, loc) {
            all.insert((loc.clone(), k, v), p);
        }
    }
    Genuine { all }
}

fn claim(w: &mut World, g: &Genuine, root: &B, k: &B, v: &B, p: &Proof) -> Result<(), Div> {
    w.counts.0.entry("claims_verified").and_modify(|x| *x += 1).or_insert(1);
    let r = w.sut.verify(root, k, v, p);
    if w.trace.is_some() && w.counts.0["claims_verified"] % 7 == 0 {
        let ok = r.is_ok();
        if let Some(t) = &mut w.trace {
            t.verify(root, k, v, p, ok);
        }
    }
    let is = g.all.get(&(root.clone(), k.clone(), v.clone())).map_or(false, |q| same(q, p));
    match r {
        Err(Fail::Panic(s)) => Err(bad(format!("verifying {}={} at {} with [{}] panicked: {s}", hex(k), hex(v), hex(root), show(p)))),
        Ok(()) if !is => Err(bad(format!("{}={} at {} is accepted with a proof that is not genuine: [{}]", hex(k), hex(v), hex(root), show(p)))),
        Err(Fail::Err(s)) if is && w.seen_back.contains_key(root) => {
            let d = Div { class: "proof", ctx: "", text: format!("the genuine proof of {}={} at {} is rejected: {s}: [{}]", hex(k), hex(v), hex(root), show(p)) };
            w.soft(Err(d))
        }
        _ => {
            if is {
                w.counts.add("genuine_claims", 1);
            }
            Ok(())
        }
    }
}

/// All proofs up to `len` elements over the hashes of the store, for all claims
pub fn enumerate(w: &mut World, len: usize, budget: u64) -> Result<(), Div> {
    let snap = w.sut.snapshot().expect("snapshot");
    let g = genuine(w, &snap);
    let mut alphabet: Vec<B> = snap.keys().cloned().collect();
    alphabet.sort();
    let stranger = w.unknown_root();
    alphabet.push(stranger);
    alphabet.push(vec![if w.rng.chance(1, 2) { 0 } else { 0xFF }; w.conc.n]);
    alphabet.sort();
    alphabet.dedup();
    w.rng.shuffle(&mut alphabet);
    let mut claims: Vec<(B, B, B)> = Vec::new();
    let mut vals: BTreeSet<B> = BTreeSet::new();
    for (code, _) in w.live.clone() {
        vals.extend(w.conc.contents(code).values().cloned());
    }
    vals.insert(vec![0xAB]);
    let mut keys = w.conc.all_keys();
    keys.extend(w.conc.absent.iter().take(2).cloned());
    for r in &alphabet {
        for k in &keys {
            for v in &vals {
                claims.push((r.clone(), k.clone(), v.clone()));
            }
        }
    }
    w.rng.shuffle(&mut claims);
    // claims at live roots first
    let live: BTreeSet<B> = w.roots.values().cloned().collect();
    claims.sort_by_key(|c| !live.contains(&c.0));
    let symbols: Vec<(B, bool)> = alphabet.iter().flat_map(|h| [(h.clone(), false), (h.clone(), true)]).collect();
    let mut done = 0_u64;
    for (r, k, v) in &claims {
        // lengths 0, 1 and everything up to len whose first two hashes vary freely
        let mut stack: Vec<Proof> = vec![Vec::new()];
        while let Some(p) = stack.pop() {
            claim(w, &g, r, k, v, &p)?;
            done += 1;
            if done > budget {
                w.counts.add("enumerations_cut_off", 1);
                return Ok(());
            }
            if p.len() < len {
                for s in &symbols {
                    if p.len() < 2 && s.1 {
                        continue; // those sides mean nothing
                    }
                    let mut q = p.clone();
                    q.push(s.clone());
                    stack.push(q);
                }
            }
        }
    }
    w.counts.add("enumerations_complete", 1);
    Ok(())
}

/// All forgeries that keep the leaf's own two hashes right and vary the rest
pub fn tails(w: &mut World, len: usize, budget: u64) -> Result<(), Div> {
    let snap = w.sut.snapshot().expect("snapshot");
    let g = genuine(w, &snap);
    let mut alphabet: Vec<B> = snap.keys().cloned().collect();
    alphabet.sort();
    w.rng.shuffle(&mut alphabet);
    let heads: BTreeSet<(B, B, B, B)> = g.all.iter().map(|((_, k, v), p)| (k.clone(), v.clone(), p[0].0.clone(), p[1].0.clone())).collect();
    let roots: Vec<B> = w.roots.values().cloned().collect();
    let symbols: Vec<(B, bool)> = alphabet.iter().flat_map(|h| [(h.clone(), false), (h.clone(), true)]).collect();
    let mut done = 0_u64;
    for r in &roots {
        for (k, v, d, l) in &heads {
            let mut stack: Vec<Proof> = vec![vec![(d.clone(), false), (l.clone(), false)]];
            while let Some(p) = stack.pop() {
                claim(w, &g, r, k, v, &p)?;
                done += 1;
                if done > budget {
                    w.counts.add("enumerations_cut_off", 1);
                    return Ok(());
                }
                if p.len() < len {
                    for s in &symbols {
                        let mut q = p.clone();
                        q.push(s.clone());
                        stack.push(q);
                    }
                }
            }
        }
    }
    w.counts.add("enumerations_complete", 1);
    Ok(())
}

/// Alterations of genuine proofs
pub fn mutate(w: &mut World, per_proof: usize) -> Result<(), Div> {
    let snap = w.sut.snapshot().expect("snapshot");
    let g = genuine(w, &snap);
    let live: BTreeSet<B> = w.roots.values().cloned().collect();
    let pool: Vec<((B, B, B), Proof)> = g.all.iter().filter(|x| live.contains(&x.0 .0)).map(|(a, b)| (a.clone(), b.clone())).collect();
    let hashes: Vec<B> = snap.keys().cloned().collect();
    if pool.is_empty() {
        return Ok(());
    }
    let mut order: Vec<usize> = (0..pool.len()).collect();
    w.rng.shuffle(&mut order);
    order.truncate(60);
    for i in order {
        let ((r, k, v), p) = pool[i].clone();
        claim(w, &g, &r, &k, &v, &p)?;
        // a root that is another one in a single bit, at each of its bytes
        for byte in 0..r.len() {
            let mut x = r.clone();
            x[byte] ^= 1 << w.rng.below(8);
            claim(w, &g, &x, &k, &v, &p)?;
        }
        // and each hash of the proof, at each of their bytes
        if p.len() <= 8 {
            for j in 0..p.len() {
                for byte in 0..r.len() {
                    let mut q = p.clone();
                    q[j].0[byte] ^= 1 << w.rng.below(8);
                    claim(w, &g, &r, &k, &v, &q)?;
                }
            }
        }
        // each element: every bit of a few bytes, side, drop, double, swap with the next
        for j in 0..p.len() {
            let n = r.len();
            for byte in [0, w.rng.below(n), n - 1] {
                let mut q = p.clone();
                q[j].0[byte] ^= 1 << w.rng.below(8);
                claim(w, &g, &r, &k, &v, &q)?;
            }
            let mut q = p.clone();
            q[j].1 = !q[j].1;
            claim(w, &g, &r, &k, &v, &q)?;
            let mut q = p.clone();
            q.remove(j);
            claim(w, &g, &r, &k, &v, &q)?;
            let mut q = p.clone();
            q.insert(j, p[j].clone());
            claim(w, &g, &r, &k, &v, &q)?;
            if j + 1 < p.len() {
                let mut q = p.clone();
                q.swap(j, j + 1);
                claim(w, &g, &r, &k, &v, &q)?;
            }
            let mut q = p.clone();
            q.truncate(j);
            claim(w, &g, &r, &k, &v, &q)?;
        }
        // hashes an implementation may treat as something special, in every place and on every side
        let n = r.len();
        let mut odd = vec![vec![0; n], vec![0xFF; n], r.clone(), p[0].0.clone(), p[1].0.clone()];
        if k.len() == n {
            odd.push(k.clone());
        }
        if let Some(x) = p.last() {
            odd.push(x.0.clone());
        }
        for h in &odd {
            for j in 0..=p.len() {
                for side in [false, true] {
                    let mut q = p.clone();
                    q.insert(j, (h.clone(), side));
                    claim(w, &g, &r, &k, &v, &q)?;
                    if j < p.len() {
                        let mut q = p.clone();
                        q[j] = (h.clone(), side);
                        claim(w, &g, &r, &k, &v, &q)?;
                        q.truncate(j + 1);
                        claim(w, &g, &r, &k, &v, &q)?;
                    }
                }
            }
        }
        // values with the same beginning or end, of other lengths
        let mut others: Vec<B> = Vec::new();
        let mut x = v.clone();
        x.push(0);
        others.push(x);
        let mut x = vec![0];
        x.extend(&v);
        others.push(x);
        if !v.is_empty() {
            others.push(v[1..].to_vec());
            others.push(v[..v.len() - 1].to_vec());
            for at in [0, w.rng.below(v.len()), v.len() - 1] {
                let mut x = v.clone();
                x[at] ^= 1 << w.rng.below(8);
                others.push(x);
            }
        }
        for x in others {
            claim(w, &g, &r, &k, &x, &p)?;
        }
        // other keys: neighbours in every byte
        for at in 0..k.len() {
            let mut x = k.clone();
            x[at] ^= 1 << w.rng.below(8);
            claim(w, &g, &r, &x, &v, &p)?;
        }
        // bytes moved between key and value
        if v.len() >= 1 {
            let mut x = k.clone();
            x.rotate_left(1);
            let last = x.len() - 1;
            let first = x[last];
            x[last] = v[0];
            let mut y = v[1..].to_vec();
            y.push(first);
            claim(w, &g, &r, &x, &y, &p)?;
        }
        for _ in 0..per_proof {
            let mut q = p.clone();
            let (mut rr, mut kk, mut vv) = (r.clone(), k.clone(), v.clone());
            for _ in 0..1 + w.rng.below(3) {
                let (o, op) = w.rng.pick(&pool).clone();
                match w.rng.below(10) {
                    0 => rr = o.0,
                    1 => kk = o.1,
                    2 => vv = o.2,
                    3 => {
                        kk = o.1;
                        vv = o.2;
                    }
                    4 => q = op,
                    5 if !q.is_empty() => {
                        // splice two proofs
                        let a = w.rng.below(q.len());
                        let b = w.rng.below(op.len());
                        q.truncate(a);
                        q.extend(op[b..].iter().cloned());
                    }
                    6 if !q.is_empty() => {
                        let j = w.rng.below(q.len());
                        q[j].0 = w.rng.pick(&hashes).clone();
                    }
                    7 => {
                        let j = w.rng.below(q.len() + 1);
                        let h = w.rng.pick(&hashes).clone();
                        let s = w.rng.chance(1, 2);
                        q.insert(j, (h, s));
                    }
                    8 if !q.is_empty() => {
                        let j = w.rng.below(q.len());
                        q.remove(j);
                    }
                    _ if !q.is_empty() => {
                        let j = w.rng.below(q.len());
                        q[j].1 = !q[j].1;
                    }
                    _ => {}
                }
            }
            claim(w, &g, &rr, &kk, &vv, &q)?;
        }
        // a proof that claims an inner node, or the leaf itself, is the root
        for j in 1..p.len() {
            claim(w, &g, &p[j].0, &k, &v, &p[..j].to_vec())?;
            claim(w, &g, &p[j].0, &k, &v, &p)?;
        }
        for kk in w.conc.absent.clone().iter().take(3) {
            claim(w, &g, &r, kk, &v, &p)?;
        }
        // a long tail
        let mut q = p.clone();
        for _ in 0..300 {
            let h = w.rng.pick(&hashes).clone();
            q.push((h, true));
        }
        claim(w, &g, &r, &k, &v, &q)?;
    }
    Ok(())
}

/// Proofs of every length a width allows: a ladder of keys, each of which leaves the others one bit
/// further down, and alterations of the proofs of the lowest ones, in every place
pub fn long_proofs(w: &mut World, i: usize) -> Result<(), Div> {
    let n = w.conc.n;
    let bits = n * 8;
    let rungs = match i % 3 {
        0 | 1 => bits,
        _ => 1 + w.rng.below(bits),
    };
    let mut at: Vec<usize> = (0..bits).collect();
    w.rng.shuffle(&mut at);
    at.truncate(rungs);
    at.sort_unstable();
    let base = w.rng.bytes(n);
    let mut m: BTreeMap<B, B> = BTreeMap::from([(base.clone(), vec![1])]);
    for b in &at {
        let mut k = base.clone();
        crate::conc::flip(&mut k, *b);
        m.insert(k, vec![*b as u8, 2]);
    }
    let (keys, vals): (Vec<B>, Vec<B>) = m.iter().map(|(k, v)| (k.clone(), v.clone())).unzip();
    w.note(format!("a ladder of {rungs} rungs around {}", hex(&base)));
    let root = match w.sut.insert(None, &keys, &vals) {
        Ok(r) => r,
        Err(e) => return w.soft(Err(Div { class: "insert_failed", ctx: "", text: format!("a valid insert failed: {e}") })),
    };
    let Some(snap) = w.sut.snapshot() else { return Ok(()) };
    // the genuine proofs at the root, read off the stored tree
    let mut all = BTreeMap::new();
    let mut todo: Vec<(B, Proof)> = vec![(root.clone(), Vec::new())];
    while let Some((loc, above)) = todo.pop() {
        match snap.get(&loc).map(|x| &x.v) {
            Some(V::Branch { zero, one, .. }) => {
                for (c, o, side) in [(zero, one, true), (one, zero, false)] {
                    let mut p = above.clone();
                    p.push((o.clone(), side));
                    todo.push((c.clone(), p));
                }
            }
            Some(V::Leaf { key, data }) => {
                if let Some(V::Data { value }) = snap.get(data).map(|x| &x.v) {
                    let mut p = vec![(data.clone(), false), (loc.clone(), false)];
                    p.extend(above.into_iter().rev());
                    all.insert((root.clone(), key.clone(), w.sut.dec(value)), p);
                }
            }
            _ => {}
        }
    }
    let g = Genuine { all };
    let hashes: Vec<B> = snap.keys().cloned().collect();
    w.seen_back.insert(root.clone(), u64::MAX);
    let mut order: Vec<(B, B, B)> = g.all.keys().cloned().collect();
    order.sort_by_key(|x| std::cmp::Reverse(g.all[x].len()));
    let most = if n > 40 { 3 } else { 6 };
    let few: Vec<(B, B, B)> = order.iter().take(2).chain(order.iter().skip(2 + w.rng.below(order.len().max(1)) / 2).take(most - 2)).cloned().collect();
    for c in few {
        let p = g.all[&c].clone();
        let (r, k, v) = &c;
        claim(w, &g, r, k, v, &p)?;
        let step = 1 + p.len() / 80;
        for j in (0..=p.len()).rev().step_by(step).chain([0, 1, 2]) {
            let (h, side) = (w.rng.pick(&hashes).clone(), w.rng.chance(1, 2));
            let mut q = p.clone();
            q.insert(j.min(p.len()), (h, side));
            claim(w, &g, r, k, v, &q)?;
            let mut q = p.clone();
            q.truncate(j);
            claim(w, &g, r, k, v, &q)?;
            if j < p.len() {
                let mut q = p.clone();
                let byte = w.rng.below(n);
                q[j].0[byte] ^= 1 << w.rng.below(8);
                claim(w, &g, r, k, v, &q)?;
                let mut q = p.clone();
                q[j].1 = !q[j].1;
                claim(w, &g, r, k, v, &q)?;
                let mut q = p.clone();
                q.remove(j);
                claim(w, &g, r, k, v, &q)?;
                let mut q = p.clone();
                q.insert(j, p[j].clone());
                claim(w, &g, r, k, v, &q)?;
            }
            if j + 1 < p.len() {
                let mut q = p.clone();
                q.swap(j, j + 1);
                claim(w, &g, r, k, v, &q)?;
            }
        }
        // longer than any proof of this width can be
        for extra in [1, 2, 8, bits, 1000] {
            for keep in [true, false] {
                let mut q = p.clone();
                for _ in 0..extra {
                    let (h, side) = (w.rng.pick(&hashes).clone(), w.rng.chance(1, 2));
                    if keep {
                        q.push((h, side));
                    } else {
                        q.insert(2, (h, side));
                    }
                }
                claim(w, &g, r, k, v, &q)?;
            }
        }
        let mut x = v.clone();
        x[0] ^= 1;
        claim(w, &g, r, k, &x, &p)?;
        let (o, op) = (w.rng.pick(&order).clone(), p.clone());
        if o != c {
            claim(w, &g, r, &o.1, &o.2, &op)?;
            claim(w, &g, r, k, v, &g.all[&o])?;
        }
    }
    Ok(())
}

/// Claims that read the bytes of one kind of node as those of another: keys and values are made
/// from locations of stored nodes.  Returns every (root, contents) met, for the caller to compare.
pub fn confuse(w: &mut World, rounds: usize) -> Result<(), Div> {
    let n = w.conc.n;
    crate::sut::PLAIN.with(|p| p.set(true));
    let mut by_root: BTreeMap<B, BTreeMap<B, B>> = BTreeMap::new();
    let mut by_cont: BTreeMap<BTreeMap<B, B>, B> = BTreeMap::new();
    let mut pool: Vec<B> = (0..3).map(|_| w.rng.bytes(n)).collect();
    let mut made: Vec<(B, BTreeMap<B, B>)> = Vec::new();
    for round in 0..rounds {
        // contents over the pool
        let size = 1 + w.rng.below(3);
        let mut m: BTreeMap<B, B> = BTreeMap::new();
        for _ in 0..size {
            let k = w.rng.pick(&pool).clone();
            let v = match w.rng.below(6) {
                0 => w.rng.pick(&pool).clone(),
                1 => [w.rng.pick(&pool).clone(), w.rng.pick(&pool).clone()].concat(),
                2 => {
                    let tag = *w.rng.pick(b"bld");
                    [vec![tag], w.rng.pick(&pool).clone(), w.rng.pick(&pool).clone()].concat()
                }
                3 => vec![*w.rng.pick(b"bld")],
                4 => {
                    let p = w.rng.pick(&pool).clone();
                    let cut = w.rng.below(n + 1);
                    p[cut..].to_vec()
                }
                _ => Vec::new(),
            };
            m.insert(k, v);
        }
        let (ks, vs): (Vec<B>, Vec<B>) = m.iter().map(|(k, v)| (k.clone(), v.clone())).unzip();
        let root = match w.sut.insert(None, &ks, &vs) {
            Ok(r) => r,
            Err(e) => return Err(Div { class: "insert_failed", ctx: "confuse", text: format!("a valid insert failed: {e}") }),
        };
        w.counts.add("roots_compared", 1);
        if let Some(o) = by_root.get(&root) {
            if *o != m {
                return Err(Div { class: "other_contents_same_root", ctx: "confuse",
                    text: format!("round {round}: {m:02x?} and {o:02x?} share root {}", hex(&root)) });
            }
        }
        if let Some(o) = by_cont.get(&m) {
            if *o != root {
                let d = Div { class: "same_contents_other_root", ctx: "confuse",
                    text: format!("round {round}: {m:02x?} has roots {} and {}", hex(&root), hex(o)) };
                w.soft(Err(d))?;
            }
        }
        by_root.insert(root.clone(), m.clone());
        by_cont.insert(m.clone(), root.clone());
        // locations become keys and values of the next contents
        pool.push(root.clone());
        for k in m.keys() {
            if let Ok(p) = w.sut.prove(&root, k) {
                pool.extend(p.into_iter().map(|x| x.0));
            }
        }
        if pool.len() > 24 {
            w.rng.shuffle(&mut pool);
            pool.truncate(16);
        }
        made.push((root, m));
    }
    // directed: the location of a leaf is the key of another, whose data is its neighbour
    for _ in 0..rounds / 4 {
        let k1 = w.rng.bytes(n);
        let v1 = w.rng.bytes(3);
        let one = |w: &mut World, m: &BTreeMap<B, B>| -> Result<B, Div> {
            let (ks, vs): (Vec<B>, Vec<B>) = m.iter().map(|(k, v)| (k.clone(), v.clone())).unzip();
            w.sut.insert(None, &ks, &vs).map_err(|e| Div { class: "insert_failed", ctx: "confuse", text: format!("a valid insert failed: {e}") })
        };
        let single = |k: &B, v: &B| -> BTreeMap<B, B> { [(k.clone(), v.clone())].into_iter().collect() };
        let z = one(w, &single(&k1, &v1))?;
        let k2 = z.clone();
        let v2 = w.rng.bytes(5);
        let l2 = one(w, &single(&k2, &v2))?;
        let d2 = w.sut.prove(&l2, &k2).ok().and_then(|p| p.first().map(|x| x.0.clone())).unwrap_or_default();
        let d1 = w.sut.prove(&z, &k1).ok().and_then(|p| p.first().map(|x| x.0.clone())).unwrap_or_default();
        let mut two = single(&k1, &v1);
        two.insert(k2.clone(), v2.clone());
        let rivals: Vec<BTreeMap<B, B>> = vec![
            two.clone(),
            single(&z, &l2),
            single(&z, &d2),
            single(&l2, &z),
            single(&k1, &d1),
            single(&k2, &d2),
            single(&d1, &v1),
            single(&z, &[z.clone(), d2.clone()].concat()),
            single(&k1, &[vec![b'd'], v1.clone()].concat()),
            single(&k1, &[vec![b'l'], d1.clone()].concat()),
            single(&z, &[vec![b'l'], d2.clone()].concat()),
        ];
        for m in rivals {
            let root = one(w, &m)?;
            w.counts.add("roots_compared", 1);
            if let Some(o) = by_root.get(&root) {
                if *o != m {
                    return Err(Div { class: "other_contents_same_root", ctx: "confuse",
                        text: format!("{m:02x?} and {o:02x?} share root {}", hex(&root)) });
                }
            }
            by_root.insert(root.clone(), m.clone());
            made.push((root, m));
        }
    }
    // any membership claim over the pool that is accepted must be true
    let mut hashes: Vec<B> = pool.clone();
    hashes.truncate(12);
    for _ in 0..rounds * 40 {
        let (root, m) = w.rng.pick(&made).clone();
        let k = w.rng.pick(&pool).clone();
        let (_, om) = w.rng.pick(&made).clone();
        let v = match w.rng.below(3) {
            0 => om.values().next().cloned().unwrap_or_default(),
            1 => w.rng.pick(&pool).clone(),
            _ => m.get(&k).cloned().unwrap_or_default(),
        };
        // a proof that is right as far as the claim itself goes
        let mut p: Proof = match w.sut.insert(None, &[k.clone()], &[v.clone()]) {
            Ok(r) => w.sut.prove(&r, &k).unwrap_or_default(),
            Err(_) => Vec::new(),
        };
        let extra = w.rng.below(3);
        for _ in 0..extra {
            let h = w.rng.pick(&hashes).clone();
            let s = w.rng.chance(1, 2);
            p.push((h, s));
        }
        w.counts.add("claims_verified", 1);
        if w.sut.verify(&root, &k, &v, &p).is_ok() && m.get(&k) != Some(&v) {
            return Err(bad(format!("{}={} is accepted at {} of {m:02x?}: [{}]", hex(&k), hex(&v), hex(&root), show(&p))));
        }
    }
    Ok(())
}
