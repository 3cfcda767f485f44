//! C14: nodes read back from their stored bytes.
#[cfg(feature = "ser")]
pub fn run(n: usize, rng: &mut crate::rng::Rng, rounds: usize) -> Result<u64, String> {
    match n {
        1 => one::<1>(rng, rounds),
        #[cfg(not(feature = "few"))]
        2 => one::<2>(rng, rounds),
        #[cfg(not(feature = "few"))]
        3 => one::<3>(rng, rounds),
        #[cfg(not(feature = "few"))]
        4 => one::<4>(rng, rounds),
        #[cfg(not(feature = "few"))]
        7 => one::<7>(rng, rounds),
        8 => one::<8>(rng, rounds),
        20 => one::<20>(rng, rounds),
        #[cfg(not(feature = "few"))]
        31 => one::<31>(rng, rounds),
        32 => one::<32>(rng, rounds),
        33 => one::<33>(rng, rounds),
        #[cfg(not(feature = "few"))]
        40 => one::<40>(rng, rounds),
        64 => one::<64>(rng, rounds),
        128 => one::<128>(rng, rounds),
        300 => one::<300>(rng, rounds),
        _ => Ok(0),
    }
}

#[cfg(feature = "ser")]
fn one<const N: usize>(rng: &mut crate::rng::Rng, rounds: usize) -> Result<u64, String> {
    use crate::sut::{arr, guard, view};
    use starling::traits::{Branch, Data, Decode, Encode, Leaf, Node, NodeVariant};
    use starling::tree::tree_branch::TreeBranch;
    use starling::tree::tree_data::TreeData;
    use starling::tree::tree_leaf::TreeLeaf;
    use starling::tree::tree_node::TreeNode;
    let edge = |rng: &mut crate::rng::Rng| -> u64 {
        let shift = rng.below(63);
        match rng.below(8) {
            0 => 0,
            1 => 1,
            2 | 3 => i64::MAX as u64, // no tree has more, and pickle has no larger integers
            4 => 1 << shift,
            5 => (1_u64 << shift).wrapping_sub(1),
            6 => i64::MAX as u64 - 1,
            _ => rng.next() >> shift.max(1),
        }
    };
    let bytes = |rng: &mut crate::rng::Rng| -> Vec<u8> {
        match rng.below(5) {
            0 => vec![0; N],
            1 => vec![0xFF; N],
            2 => (0..N).map(|i| i as u8).collect(),
            3 => vec![rng.byte(); N],
            _ => rng.bytes(N),
        }
    };
    let mut count = 0;
    for i in 0..rounds {
        let node: TreeNode<N> = match i % 3 {
            0 => {
                let mut b = TreeBranch::<N>::new();
                b.set_count(edge(rng));
                b.set_zero(arr(&bytes(rng)));
                b.set_one(arr(&bytes(rng)));
                b.set_key(arr(&bytes(rng)));
                b.set_split_index(match rng.below(4) {
                    0 => 0,
                    1 => N * 8 - 1,
                    _ => rng.below(N * 8),
                });
                let e = guard(|| b.encode()).map_err(|e| format!("encoding {b:?}: {e}"))?;
                let d = guard(|| TreeBranch::<N>::decode(&e)).map_err(|x| format!("decoding {b:?}: {x}"))?;
                if d != b {
                    return Err(format!("{b:?} was read back as {d:?}"));
                }
                TreeNode::new(NodeVariant::Branch(b))
            }
            1 => {
                let mut l = TreeLeaf::<N>::new();
                l.set_key(arr(&bytes(rng)));
                l.set_data(arr(&bytes(rng)));
                let e = guard(|| l.encode()).map_err(|e| format!("encoding {l:?}: {e}"))?;
                let d = guard(|| TreeLeaf::<N>::decode(&e)).map_err(|x| format!("decoding {l:?}: {x}"))?;
                if d != l {
                    return Err(format!("{l:?} was read back as {d:?}"));
                }
                TreeNode::new(NodeVariant::Leaf(l))
            }
            _ => {
                let mut v = TreeData::new();
                let len = match rng.below(6) {
                    0 => 0,
                    1 => 1,
                    2 => 23 + rng.below(3),
                    3 => 254 + rng.below(4),
                    4 => rng.below(70),
                    _ => 65_534 + rng.below(4),
                };
                let len = if i > 30 { len.min(2000) } else { len };
                let len = if i == 5 && rng.chance(1, 2) { [140_000, 270_000, 600_000, 1_100_000][rng.below(4)] } else { len };
                let val = match rng.below(4) {
                    0 => vec![0; len],
                    1 => vec![0xFF; len],
                    2 => (0..len).map(|i| i as u8).collect(),
                    _ => rng.bytes(len),
                };
                v.set_value(&val);
                let e = guard(|| v.encode()).map_err(|e| format!("encoding a value of {len} bytes: {e}"))?;
                let d = guard(|| TreeData::decode(&e)).map_err(|x| format!("decoding a value of {len} bytes: {x}"))?;
                if d != v || d.get_value() != val {
                    return Err(format!("a value of {len} bytes was read back as another"));
                }
                TreeNode::new(NodeVariant::Data(v))
            }
        };
        let mut node = node;
        node.set_references(edge(rng));
        let mut shown = format!("{:?}", view(&node));
        shown.truncate(1500);
        let e = guard(|| node.encode()).map_err(|x| format!("encoding {shown}: {x}"))?;
        let d = guard(|| TreeNode::<N>::decode(&e)).map_err(|x| format!("decoding {shown}: {x}"))?;
        if view(&d) != view(&node) || d != node {
            let mut back = format!("{:?}", view(&d));
            back.truncate(1500);
            return Err(format!("{shown} was read back as {back}"));
        }
        // bytes that are no node are an error, not a panic
        if i % 7 == 0 && !e.is_empty() {
            let mut cut = e.clone();
            cut.truncate(rng.below(e.len()));
            if let Err(crate::sut::Fail::Panic(p)) = guard(|| TreeNode::<N>::decode(&cut)) {
                return Err(format!("decoding cut-off bytes panicked: {p}"));
            }
        }
        count += 1;
    }
    Ok(count)
}

#[cfg(not(feature = "ser"))]
pub fn run(_n: usize, _rng: &mut crate::rng::Rng, _rounds: usize) -> Result<u64, String> {
    Ok(0)
}
