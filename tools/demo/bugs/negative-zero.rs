use indexer_lib::serialize::{Deserializable, Serializable};
fn main() {
    for v in [-0.0f32, 0.0, 1.5, f32::INFINITY, f32::MIN_POSITIVE] {
        let mut out = Vec::new();
        v.serialize(&mut |b| out.push(b));
        let (rest, got) = f32::deserialize(&out).unwrap();
        assert!(rest.is_empty());
        assert_eq!(got.to_bits(), v.to_bits());
    }
}
