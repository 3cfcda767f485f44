//! Concretisations: which real keys and values an abstract key and value stand for.
use crate::lts;
use crate::rng::Rng;
use crate::sut::B;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum KeyStyle {
    /// uniformly random bytes
    Random,
    /// a common base, keys leave it at distinct bits
    Comb,
    /// recursive splits, often at or next to byte boundaries
    Tree,
    /// consecutive numbers in the last bytes
    DenseLow,
    /// consecutive numbers in the first bytes
    DenseHigh,
    /// distinct values of one byte somewhere, random or constant bytes around it
    OneByte,
    /// all zeros, all ones, single bits and their neighbours
    Extreme,
    /// 3 keys that split at bit p and then at bit q below side s, f fills the other bits
    Splits(usize, usize, u8, u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ValStyle {
    /// same for every key: empty, one zero byte, two zero bytes, ...
    Zeros,
    /// different for every key and value, random length
    Unique,
    /// long, differing only in the last byte; the length is the parameter
    Tail(usize),
    /// long, differing only in the first byte
    Head(usize),
    /// values permuted among keys
    Permuted,
    /// bytes of keys and of neighbouring values moved around
    Shifted,
    /// one byte, same for every key
    Plain,
}

pub struct Conc {
    pub n: usize,
    pub kabs: usize,
    pub vals: u64,
    /// the real keys of each abstract key
    pub keys: Vec<Vec<B>>,
    pub absent: Vec<B>,
    pub vstyle: ValStyle,
    pub label: String,
    salt: u64,
    cache: RefCell<HashMap<u64, Rc<BTreeMap<B, B>>>>,
    owner: BTreeMap<B, (usize, usize)>,
}

pub fn bit(k: &[u8], i: usize) -> u8 {
    (k[i / 8] >> (7 - i % 8)) & 1
}
pub fn flip(k: &mut [u8], i: usize) {
    k[i / 8] ^= 1 << (7 - i % 8);
}
pub fn diff(a: &[u8], b: &[u8]) -> Option<usize> {
    let i = a.iter().zip(b).position(|(x, y)| x != y)?;
    Some(i * 8 + (a[i] ^ b[i]).leading_zeros() as usize)
}

fn randomize_after(rng: &mut Rng, k: &mut [u8], from: usize) {
    for i in from..k.len() * 8 {
        if rng.chance(1, 2) {
            flip(k, i);
        }
    }
}

/// a bit position, biased to byte boundaries and to the ends
fn position(rng: &mut Rng, bits: usize) -> usize {
    match rng.below(6) {
        0 => (rng.below(bits / 8) * 8 + 7) % bits,
        1 => rng.below(bits / 8) * 8,
        2 => bits - 1 - rng.below(bits.min(9)),
        3 => rng.below(bits.min(9)),
        _ => rng.below(bits),
    }
}

fn gen_keys(rng: &mut Rng, n: usize, total: usize, style: KeyStyle) -> Vec<B> {
    let bits = n * 8;
    let mut set: BTreeSet<B> = BTreeSet::new();
    let base = match rng.below(4) {
        0 => vec![0; n],
        1 => vec![0xFF; n],
        _ => rng.bytes(n),
    };
    let mut tries = 0;
    let start = rng.below(200);
    let byte_at = rng.below(n);
    let noisy = rng.chance(1, 2);
    while set.len() < total {
        tries += 1;
        let style = if tries > 50 * total + 200 { KeyStyle::Random } else { style };
        let mut k = base.clone();
        match style {
            KeyStyle::Random => k = rng.bytes(n),
            KeyStyle::Comb => {
                if !set.is_empty() {
                    let p = position(rng, bits);
                    flip(&mut k, p);
                    if noisy {
                        randomize_after(rng, &mut k, p + 1);
                    }
                }
            }
            KeyStyle::Tree => {
                if !set.is_empty() {
                    let v: Vec<&B> = set.iter().collect();
                    k = (*rng.pick(&v)).clone();
                    let p = position(rng, bits);
                    flip(&mut k, p);
                    if noisy {
                        randomize_after(rng, &mut k, p + 1);
                    }
                }
            }
            KeyStyle::DenseLow => {
                let x = ((start + set.len() + tries / (2 * total + 2)) as u64).to_be_bytes();
                for i in 0..n.min(8) {
                    k[n - 1 - i] = x[7 - i];
                }
            }
            KeyStyle::DenseHigh => {
                let x = start + set.len() + tries / (2 * total + 2);
                if n == 1 {
                    k[0] = x as u8;
                } else {
                    k[0] = (x >> 8) as u8;
                    k[1] = x as u8;
                    if noisy {
                        randomize_after(rng, &mut k, 16);
                    }
                }
            }
            KeyStyle::OneByte => {
                k[byte_at] = rng.byte();
                if noisy {
                    randomize_after(rng, &mut k, byte_at * 8 + 8);
                }
                if tries > 300 {
                    k[(byte_at + 1) % n] = rng.byte();
                }
            }
            KeyStyle::Extreme => {
                k = if rng.chance(1, 2) { vec![0; n] } else { vec![0xFF; n] };
                for _ in 0..rng.below(3) {
                    let p = position(rng, bits);
                    flip(&mut k, p);
                }
            }
            KeyStyle::Splits(p, q, side, fill) => {
                k = match fill {
                    0 => vec![0; n],
                    1 => vec![0xFF; n],
                    _ => base.clone(),
                };
                let mut a = k.clone();
                let mut b = k.clone();
                let mut c = k.clone();
                // b and c on the same side of p, apart at q
                if bit(&k, p) == side {
                    flip(&mut a, p);
                } else {
                    flip(&mut b, p);
                    flip(&mut c, p);
                }
                flip(&mut c, q);
                if fill == 3 {
                    randomize_after(rng, &mut a, p + 1);
                    randomize_after(rng, &mut b, q + 1);
                    randomize_after(rng, &mut c, q + 1);
                }
                set.insert(a);
                set.insert(b);
                set.insert(c);
                continue;
            }
        }
        set.insert(k);
    }
    let mut v: Vec<B> = set.into_iter().collect();
    rng.shuffle(&mut v);
    v.truncate(total);
    v
}

impl Conc {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        rng: &mut Rng,
        n: usize,
        kabs: usize,
        vals: u64,
        cluster: usize,
        kstyle: KeyStyle,
        vstyle: ValStyle,
        absents: usize,
    ) -> Conc {
        // never use more than half of the possible keys
        let room = if n == 1 { 128 } else { usize::MAX };
        let cluster = cluster.min((room / kabs).max(1));
        let mut all = gen_keys(rng, n, kabs * cluster, kstyle);
        let mut keys = vec![Vec::new(); kabs];
        // the real keys of an abstract key lie anywhere or side by side, and there are as many of
        // each or some have only one
        let (beside, uneven) = (cluster > 1 && rng.chance(1, 2), cluster > 1 && rng.chance(1, 3));
        if beside {
            all.sort_unstable();
        }
        let single: Vec<bool> = (0..kabs).map(|_| uneven && rng.chance(1, 2)).collect();
        let single = if single.iter().all(|s| *s) { vec![false; kabs] } else { single };
        let many = single.iter().filter(|s| !**s).count();
        let share = (all.len() - (kabs - many)) / many;
        let mut order: Vec<usize> = (0..kabs).collect();
        rng.shuffle(&mut order);
        let mut rest = all.iter();
        for a in order {
            keys[a].extend(rest.by_ref().take(if single[a] { 1 } else { share }).cloned());
            rng.shuffle(&mut keys[a]);
        }
        let spare = rng.below(kabs);
        keys[spare].extend(rest.cloned());
        let present: BTreeSet<B> = all.iter().cloned().collect();
        let mut absent: BTreeSet<B> = BTreeSet::new();
        let mut splits: BTreeSet<usize> = BTreeSet::new();
        for a in all.iter().take(12) {
            for b in all.iter().take(40) {
                splits.extend(diff(a, b));
            }
        }
        let splits: Vec<usize> = splits.into_iter().collect();
        let mut tries = 0;
        while absent.len() < absents && tries < absents * 20 {
            tries += 1;
            let mut k = rng.pick(&all).clone();
            match rng.below(8) {
                0 => k = rng.bytes(n),
                1 => k = vec![*rng.pick(&[0, 0xFF, 0x80, 0x7F]); n],
                2 => {
                    let p = position(rng, n * 8);
                    flip(&mut k, p);
                }
                3 => {
                    // next to a key, as a number
                    let up = rng.chance(1, 2);
                    for x in k.iter_mut().rev() {
                        *x = if up { x.wrapping_add(1) } else { x.wrapping_sub(1) };
                        if *x != if up { 0 } else { 0xFF } {
                            break;
                        }
                    }
                }
                _ if splits.is_empty() => k = rng.bytes(n),
                4 | 5 => {
                    // leave the path in the byte of a split, or just before or after it
                    let s = *rng.pick(&splits);
                    let p = (s / 8 * 8 + rng.below(8)).min(n * 8 - 1);
                    flip(&mut k, p);
                    if rng.chance(1, 2) {
                        randomize_after(rng, &mut k, p + 1);
                    }
                }
                6 => {
                    let s = *rng.pick(&splits);
                    let p = (s + rng.below(20)).saturating_sub(10).min(n * 8 - 1);
                    flip(&mut k, p);
                }
                _ => {
                    let s = *rng.pick(&splits);
                    let t = *rng.pick(&splits);
                    flip(&mut k, s);
                    if t != s {
                        flip(&mut k, t);
                    }
                }
            }
            if !present.contains(&k) {
                absent.insert(k);
            }
        }
        let mut owner = BTreeMap::new();
        for (a, c) in keys.iter().enumerate() {
            for (i, k) in c.iter().enumerate() {
                owner.insert(k.clone(), (a, i));
            }
        }
        Conc {
            n,
            kabs,
            vals,
            label: format!("n={n} K={kabs}x{cluster}{}{} {kstyle:?} {vstyle:?}", if beside { " beside" } else { "" }, if uneven { " uneven" } else { "" }),
            keys,
            absent: absent.into_iter().collect(),
            vstyle,
            salt: rng.next(),
            cache: RefCell::new(HashMap::new()),
            owner,
        }
    }

    pub fn value(&self, a: usize, i: usize, v: u64) -> B {
        let tag = |x: u64| {
            let mut r = Rng::new(self.salt ^ x.wrapping_mul(0x1234_5678_9ABC_DEF1));
            let len = 1 + r.below(40);
            r.bytes(len)
        };
        match self.vstyle {
            ValStyle::Zeros => vec![0; v as usize - 1],
            ValStyle::Plain => vec![v as u8],
            ValStyle::Unique => {
                let mut b = tag(v + 100 * (a as u64 + 50 * i as u64));
                b.extend([a as u8, i as u8, (i >> 8) as u8, v as u8]);
                b
            }
            ValStyle::Tail(l) => {
                let mut b = vec![7; l];
                *b.last_mut().expect("length") = v as u8;
                b
            }
            ValStyle::Head(l) => {
                let mut b = vec![7; l];
                b[0] = v as u8;
                b
            }
            ValStyle::Permuted => {
                let j = (a as u64 + v) % (self.kabs as u64);
                let mut b = vec![b'v'; 5];
                b.extend([j as u8, (v / (self.kabs as u64)) as u8, i as u8]);
                b
            }
            ValStyle::Shifted => {
                // pieces of keys: the same bytes in another place
                let k = &self.keys[(a + v as usize) % self.kabs][0];
                let cut = (v as usize * 3) % (self.n + 1);
                let mut b = k[cut..].to_vec();
                b.extend(&k[..cut]);
                b.extend(vec![0; v as usize]);
                b
            }
        }
    }

    /// The real contents a code stands for
    pub fn contents(&self, code: u64) -> Rc<BTreeMap<B, B>> {
        if let Some(m) = self.cache.borrow().get(&code) {
            return m.clone();
        }
        let mut m = BTreeMap::new();
        for (a, v) in lts::decode(code, self.kabs, self.vals).into_iter().enumerate() {
            if v != 0 {
                for (i, k) in self.keys[a].iter().enumerate() {
                    m.insert(k.clone(), self.value(a, i, v));
                }
            }
        }
        let m = Rc::new(m);
        let mut c = self.cache.borrow_mut();
        if c.len() > 5000 {
            c.clear();
        }
        c.insert(code, m.clone());
        m
    }

    pub fn all_keys(&self) -> Vec<B> {
        self.owner.keys().cloned().collect()
    }

    /// a random key, present in some version or absent in all
    pub fn any_key(&self, rng: &mut Rng) -> B {
        if !self.absent.is_empty() && rng.chance(1, 2) {
            rng.pick(&self.absent).clone()
        } else {
            let c = rng.below(self.kabs);
            rng.pick(&self.keys[c]).clone()
        }
    }
}

impl Conc {
    /// the keys of abstract key 0 have a 0 at bit p and share what comes before it, all others have
    /// a 1 there
    pub fn divide(&mut self, p: usize, rng: &mut Rng) {
        let base = rng.bytes(self.n);
        let mut taken: BTreeSet<B> = BTreeSet::new();
        for (a, c) in self.keys.iter_mut().enumerate() {
            for k in c.iter_mut() {
                loop {
                    for i in 0..=p {
                        let want = if i < p { bit(&base, i) } else { u8::from(a > 0) };
                        if bit(k, i) != want {
                            flip(k, i);
                        }
                    }
                    if taken.insert(k.clone()) {
                        break;
                    }
                    *k = rng.bytes(self.n);
                }
            }
        }
        self.owner = self.keys.iter().enumerate().flat_map(|(a, c)| c.iter().enumerate().map(move |(i, k)| (k.clone(), (a, i)))).collect();
        self.absent.retain(|k| !taken.contains(k));
        self.cache.borrow_mut().clear();
    }

    /// abstract keys that stand for exactly these real keys
    pub fn assign(&mut self, groups: Vec<Vec<B>>, rng: &mut Rng) {
        self.owner = groups.iter().enumerate().flat_map(|(a, g)| g.iter().enumerate().map(move |(i, k)| (k.clone(), (a, i)))).collect();
        self.absent.clear();
        for k in groups.iter().flatten() {
            let mut x = k.clone();
            let p = position(rng, self.n * 8);
            flip(&mut x, p);
            if !self.owner.contains_key(&x) && self.absent.len() < 20 {
                self.absent.push(x);
            }
        }
        self.keys = groups;
        self.cache.borrow_mut().clear();
    }
}
