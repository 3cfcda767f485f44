//! Replays behaviours that TLC generated from the specification.
use crate::lts::{Bag, Op};
use crate::world::{Div, World};

#[derive(Clone, Debug, Default)]
pub struct Opts {
    pub rejects: bool,
    pub only_ctx: &'static str,
    /// percent of steps before which the store is reopened
    pub reopen: usize,
    /// compare the state after every `every` steps only
    pub every: usize,
    pub steps: usize,
    pub ways: usize,
}

pub fn walk(w: &mut World, walk: &[(Op, Bag)], o: &Opts) -> Result<(), Div> {
    for (i, (op, bag)) in walk.iter().take(o.steps).enumerate() {
        if o.reopen > 0 && w.rng.chance(o.reopen, 100) {
            reopen(w)?;
        }
        if !o.rejects && matches!(op, Op::Reject { .. } | Op::RemoveUnknown) {
            continue;
        }
        // a version may be missing if an insert was refused for depth
        let known = |c: u64| c == 0 || w.roots.contains_key(&c);
        let ok = match op {
            Op::Insert { base, .. } | Op::Reject { base, .. } => known(*base),
            Op::Remove { m } => known(*m),
            _ => true,
        };
        if !ok {
            continue;
        }
        w.counts.add("steps_replayed", 1);
        let mut before = None;
        if o.ways > 0 && matches!(op, Op::Insert { .. }) {
            before = w.sut.fork().map(|s| (s, w.roots.clone()));
        }
        let new = w.apply(op)?;
        if let (Some((mut s, roots)), Op::Insert { base, upd }) = (before, op) {
            if new.is_some() {
                crate::ways::check(w, &mut *s, &roots, *base, *upd, o.ways)?;
            }
        }
        if w.live != *bag {
            w.counts.add("steps_off_the_behaviour", 1);
        }
        let ctx = World::ctx_of(op);
        if (o.only_ctx.is_empty() || o.only_ctx == ctx) && (o.every < 2 || i % o.every == 0) {
            w.check_state(new, ctx)?;
        }
    }
    w.counts.add("behaviours_replayed", 1);
    drain(w, o)
}

pub fn reopen(w: &mut World) -> Result<(), Div> {
    w.note("reopen".into());
    w.counts.add("reopened", 1);
    match w.sut.reopen() {
        Ok(_) => Ok(()),
        Err(e) => Err(Div { class: "reopen", ctx: "", text: format!("reopening failed: {e}") }),
    }
}

/// Removes every version, in random order
pub fn drain(w: &mut World, o: &Opts) -> Result<(), Div> {
    while !w.live.is_empty() {
        let i = w.rng.below(w.live.len());
        let code = w.live[i].0;
        w.remove(code)?;
        if o.only_ctx.is_empty() || o.only_ctx == "other_after_remove" {
            w.check_state(None, "other_after_remove")?;
        }
        if o.reopen > 0 && w.rng.chance(o.reopen, 100) {
            reopen(w)?;
        }
    }
    Ok(())
}

/// Takes the tree apart at the end and looks at what is left
pub fn last(w: &mut World) -> Result<(), Div> {
    let dummy = Box::new(Gone);
    let sut = std::mem::replace(&mut w.sut, dummy);
    if let Some(s) = sut.last_snapshot() {
        w.counts.add("stores_compared", 1);
        if !s.is_empty() && w.live.is_empty() && w.panel.store {
            let d = Div { class: "store_extra", ctx: "", text: format!("{} nodes are left after every root was removed", s.len()) };
            return w.soft(Err(d));
        }
    }
    Ok(())
}

struct Gone;
use crate::sut::{Fail, Res, Sut, B};
fn gone<T>() -> Res<T> {
    Err(Fail::Err("taken apart".into()))
}
impl Sut for Gone {
    fn get(&self, _: &[u8], _: &[B]) -> Res<Vec<(B, Option<B>)>> {
        gone()
    }
    fn get_one(&self, _: &[u8], _: &[u8]) -> Res<Option<B>> {
        gone()
    }
    fn insert(&mut self, _: Option<&[u8]>, _: &[B], _: &[B]) -> Res<B> {
        gone()
    }
    fn insert_one(&mut self, _: Option<&[u8]>, _: &[u8], _: &[u8]) -> Res<B> {
        gone()
    }
    fn remove(&mut self, _: &[u8]) -> Res<()> {
        gone()
    }
    fn prove(&self, _: &[u8], _: &[u8]) -> Res<Vec<(B, bool)>> {
        gone()
    }
    fn verify(&self, _: &[u8], _: &[u8], _: &[u8], _: &[(B, bool)]) -> Res<()> {
        gone()
    }
}
