fn main() {
    use indexer_lib::serialize::sequential_array;
    let numbers: Vec<usize> = (0..5000).map(|i| i / 2).collect();
    let mut bytes = Vec::new();
    sequential_array::serialize(numbers.iter().copied(), &mut |b| bytes.push(b));
    let (rest, ids) = sequential_array::deserialize(&bytes).unwrap();
    assert!(rest.is_empty());
    assert_eq!(ids, numbers);
}
