fn main() {
    let (_, classic) = load((0..400).map(|i| json(&i.to_string(), ["a", "b", "c"][i % 3], "b", "v", &[], &[], ["1", "2"][i % 2], None)).collect());
    for (name, classes) in [("Alphabetical", 3), ("Price low to high", 2)] {
        let order = classic.order.get_orders(name).unwrap();
        let mut expected: Vec<usize> = (0..400).collect();
        expected.sort_by_key(|i| i % classes);
        for (position, product) in expected.into_iter().enumerate() {
            assert_eq!(order[product], position);
        }
    }
}
