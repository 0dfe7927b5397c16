fn main() {
    let mut products = vec![json("1", "Acmes shoe", "text ", "Acmes", &[], &[], "1.0", None)];
    for i in 2..12 {
        products.push(json(&i.to_string(), "other", "", "v", &[], &[], "1.0", None));
    }
    let (index, _) = load(products);
    assert_eq!(index.data.get(&['a', 'c', 'm', 'e', 's']).map(Vec::len), Some(2));
}
