use indexer_lib::serialize::{Deserializable, Serializable};
fn main() {
    for v in [u64::from(u32::MAX) + 1, u64::MAX, 1 << 40] {
        let mut out = Vec::new();
        v.serialize(&mut |b| out.push(b));
        assert!(u32::deserialize(&out).is_none());
    }
}
