//! An ideal hash function: every distinct input gets its own location (for widths that can name
//! that many inputs), so small key widths can be used without collisions.
use starling::traits::Hasher;
use starling::Array;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

thread_local! {
    static TABLE: RefCell<HashMap<Vec<u8>, u64>> = RefCell::new(HashMap::new());
    static STYLE: Cell<usize> = const { Cell::new(0) };
    static EXHAUSTED: Cell<bool> = const { Cell::new(false) };
}

/// Whether a scenario used up the names its width has (its hash function then has collisions, so
/// nothing it found counts)
pub fn exhausted() -> bool {
    EXHAUSTED.with(Cell::get)
}

/// Which names are given: 0 spread over all bytes, 1 with the tag of data, leaves or branches as
/// their first byte, 2 with the tag of data, 3 with the last 8 bytes telling all of them apart
pub fn names(style: usize) {
    STYLE.with(|s| s.set(style));
}

/// everything that was hashed
pub fn inputs() -> Vec<Vec<u8>> {
    TABLE.with(|t| t.borrow().keys().cloned().collect())
}

pub fn reset() {
    STYLE.with(|s| s.set(0));
    TABLE.with(|t| t.borrow_mut().clear());
    EXHAUSTED.with(|e| e.set(false));
}

pub struct Ideal(Vec<u8>);

impl<const N: usize> Hasher<N> for Ideal {
    fn new(_size: usize) -> Self {
        Ideal(Vec::with_capacity(64))
    }
    fn update(&mut self, data: &[u8]) {
        self.0.extend_from_slice(data);
    }
    fn finalize(self) -> Array<N> {
        let id = TABLE.with(|t| {
            let mut t = t.borrow_mut();
            let next = t.len() as u64 + 1;
            *t.entry(self.0).or_insert(next)
        });
        if N < 8 && id >> (8 * N) != 0 {
            EXHAUSTED.with(|e| e.set(true));
        }
        let style = STYLE.with(Cell::get);
        if style == 3 && N > 8 {
            let mut out = [0x5A_u8; N];
            out[N - 8..].copy_from_slice(&id.wrapping_mul(0x9E37_79B9_7F4A_7C15 | 1).to_le_bytes());
            return out.into();
        }
        if (1..3).contains(&style) && N > 1 {
            let room = (N - 1).min(8);
            if room < 8 && id >> (8 * room) != 0 {
                EXHAUSTED.with(|e| e.set(true));
            }
            let x = id.wrapping_mul(0x9E37_79B9_7F4A_7C15 | 1).to_le_bytes();
            let mut out = [0_u8; N];
            for i in 1..N {
                out[i] = if i <= 8 { x[i - 1] } else { x[(i - 1) % 8] ^ (i as u8).wrapping_mul(37) };
            }
            out[0] = if style == 1 { b"dlb\0"[id as usize % 4] } else { b'd' };
            return out.into();
        }
        // an odd multiplier is a bijection on the low 8*min(N,8) bits
        let x = id.wrapping_mul(0x9E37_79B9_7F4A_7C15 | 1).to_le_bytes();
        let mut out = [0_u8; N];
        for i in 0..N {
            out[i] = if i < 8 { x[i] } else { x[i % 8] ^ (i as u8).wrapping_mul(37) };
        }
        out.into()
    }
}
