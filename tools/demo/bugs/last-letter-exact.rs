fn main() {
    let mut products = vec![json("1", "qwert", "", "", &[], &[], "1.0", None)];
    for i in 2..12 {
        products.push(json(&i.to_string(), "other", "", "", &[], &[], "1.0", None));
    }
    let (index, _) = load(products);
    let (found, _) = index.search_gram(['q', 'w', 'e', 'r', 'z']).expect("a match");
    assert_eq!(found, ['q', 'w', 'e', 'r', 't']);
}
