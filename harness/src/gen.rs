//! Shared generators.
use crate::engine::B;
use proptest::collection::vec;
use proptest::prelude::*;
use std::ops::RangeInclusive;

/// byte strings with structured as well as random content
pub fn bytes(len: RangeInclusive<usize>) -> impl Strategy<Value = B> {
    len.clone().prop_flat_map(bytes_n)
}
pub fn bytes_n(n: usize) -> BoxedStrategy<B> {
    prop_oneof![
        6 => vec(any::<u8>(), n).prop_map(B),
        1 => Just(B(vec![0u8; n])),
        1 => Just(B(vec![0xffu8; n])),
        1 => any::<u8>().prop_map(move |b| B(vec![b; n])),
        1 => (any::<u8>(), 0..n.max(1)).prop_map(move |(b, i)| { let mut x = vec![0u8; n]; if n > 0 { x[i] = b; } B(x) }),
    ]
    .boxed()
}
pub fn idx(n: usize) -> impl Strategy<Value = usize> {
    0..n
}
/// u32 values concentrated around powers of 64 and small values
pub fn index_like() -> BoxedStrategy<u32> {
    prop_oneof![
        4 => 0u32..70,
        2 => prop_oneof![Just(62u32), Just(63), Just(64), Just(65)],
        2 => prop_oneof![Just(4094u32), Just(4095), Just(4096), Just(4097)],
        2 => prop_oneof![Just(262142u32), Just(262143), Just(262144), Just(262145)],
        1 => 0u32..4100,
        1 => 0u32..300000,
        1 => prop_oneof![Just((1u32<<24)-1), Just(1<<24), Just((1<<30)-1), Just(1<<30), Just(u32::MAX), Just(u32::MAX-1), Just(1u32<<31)],
        1 => any::<u32>(),
    ]
    .boxed()
}
/// text that is not CESR, or nearly
pub fn junk_text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[A-Za-z0-9_-]{0,20}",
        1 => "[A-Za-z0-9_=+/#{}\\[\\] \"-]{0,40}",
        1 => any::<String>(),
        1 => Just(String::new()),
        1 => vec(prop_oneof![Just('A'), Just('é'), Just('€'), Just('𝄞'), Just('='), Just('-'), Just('_')], 0..8).prop_map(|v| v.into_iter().collect()),
    ]
    .boxed()
}
pub const ALPHA: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
