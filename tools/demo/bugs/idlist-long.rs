use indexer_lib::serialize::sequential_array::{deserialize, serialize};
fn main() {
    for list in [vec![], vec![0usize, 1, 70_000], (0..70_000).collect::<Vec<_>>()] {
        let mut out = Vec::new();
        serialize(list.iter().copied(), &mut |b| out.push(b));
        let (rest, got) = deserialize(&out).unwrap();
        assert!(rest.is_empty());
        assert!(got == list);
    }
}
