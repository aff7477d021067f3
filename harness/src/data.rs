//! Value contents and their description.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

/// `len` bytes that are a function of the tag and the position, never zero (so holes show).
pub fn content(tag: u64, len: usize) -> Rc<Vec<u8>> {
    let mut v = Vec::with_capacity(len + 8);
    let mut i = 0u64;
    while v.len() < len {
        let mut z = tag.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(i.wrapping_mul(0xD1B54A32D192ED03));
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        v.extend_from_slice(&(z | 0x0101010101010101).to_le_bytes());
        i += 1;
    }
    v.truncate(len);
    Rc::new(v)
}

pub fn show(b: &[u8]) -> String {
    let s = b[..b.len().min(24)].escape_ascii().to_string();
    format!("{}b\"{}\"{}", b.len(), s, if b.len() > 24 { ".." } else { "" })
}
/// Describes the first difference between two byte strings.
pub fn diff(got: &[u8], want: &[u8]) -> String {
    let n = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let zeros = got[n.min(got.len())..].iter().take_while(|b| **b == 0).count();
    format!("got {} bytes, want {}; first difference at {n} (zero run of {zeros} there)", got.len(), want.len())
}

pub const BS: u32 = 4096;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum SizeProfile {
    Mixed,
    Small,
    Blocks,
}
pub fn size(p: SizeProfile) -> BoxedStrategy<u32> {
    let near = (0u32..5, -2i32..3).prop_map(|(k, d)| (k as i32 * BS as i32 + d).max(0) as u32);
    match p {
        SizeProfile::Mixed => prop_oneof![
            2 => Just(0u32),
            1 => Just(1u32),
            6 => 1u32..40,
            6 => near,
            4 => 1u32..(3 * BS),
            1 => (5 * BS)..(40 * BS),
        ]
        .boxed(),
        SizeProfile::Small => prop_oneof![1 => Just(0u32), 6 => 1u32..40, 2 => 1u32..BS].boxed(),
        SizeProfile::Blocks => prop_oneof![
            1 => Just(0u32),
            1 => Just(1u32),
            2 => 1u32..600,
            4 => near,
            4 => (1u32..6).prop_map(|k| k * BS),
            4 => 1u32..(4 * BS),
        ]
        .boxed(),
    }
}

pub fn key() -> BoxedStrategy<Vec<u8>> {
    let b = prop_oneof![Just(0u8), Just(b'a'), Just(b'b'), Just(0xfeu8), Just(0xffu8), Just(b'/')];
    prop_oneof![
        10 => proptest::collection::vec(b, 0..4),
        2 => proptest::collection::vec(any::<u8>(), 0..6),
        1 => (any::<u8>(), 100usize..700).prop_map(|(b, n)| vec![b; n]),
    ]
    .boxed()
}
/// A small universe of distinct keys, sharing prefixes.
pub fn keys(lo: usize, hi: usize) -> BoxedStrategy<Vec<Vec<u8>>> {
    // Some of them continue one of some length.
    let long = prop::option::weighted(0.2, (prop_oneof![3 => 4usize..40, 2 => 40usize..300].prop_flat_map(|n| proptest::collection::vec(prop_oneof![Just(b'a'), Just(0xffu8)], n)), any::<u16>()));
    (proptest::collection::vec(key(), lo..hi), long)
        .prop_map(|(mut v, long)| {
            if let Some((p, which)) = long {
                for (i, k) in v.iter_mut().enumerate() {
                    if which >> (i % 16) & 1 == 1 {
                        k.splice(0..0, p.iter().copied());
                    }
                }
            }
            v.sort();
            v.dedup();
            v
        })
        .boxed()
}
