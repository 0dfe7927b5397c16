fn main() {
    // 4 of 5 products: exactly at the limit of 0.8 * 5
    let mut products: Vec<_> = (0..4).map(|i| json(&i.to_string(), "qwert", "", "", &[], &[], "1.0", None)).collect();
    products.push(json("4", "other", "", "", &[], &[], "1.0", None));
    let (index, _) = load(products);
    assert!(index.data.get(&['q', 'w', 'e', 'r', 't']).is_none());
    assert!(index.data.get(&['o', 't', 'h', 'e', 'r']).is_some());
}
