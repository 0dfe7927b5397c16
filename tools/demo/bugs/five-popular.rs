fn main() {
    let mut products = Vec::new();
    for (i, c) in "bcdefgh".chars().enumerate() {
        products.push(json(&format!("{i}"), "", &format!("a{c}ttt a{c}ttt a{c}ttt"), "", &[], &[], "1.0", None));
    }
    products.push(json("rare", "", "axqrs", "", &[], &[], "1.0", None));
    let (index, _) = load(products);
    let (found, _) = index.search_gram(['a', 'z', 'q', 'r', 's']).expect("a match");
    assert_eq!(found, ['a', 'x', 'q', 'r', 's']);
}
