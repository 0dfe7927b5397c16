fn main() {
    // the lower case of this letter is an i and a combining dot
    let mut products = vec![json("1", "\u{130}zmir", "", "v", &[], &[], "1.0", None)];
    for i in 2..12 {
        products.push(json(&i.to_string(), "other", "", "v", &[], &[], "1.0", None));
    }
    let (index, _) = load(products);
    let listed = index.data.get(&['i', '\u{307}', 'z', 'm', 'i']).expect("listed");
    assert_eq!(listed.iter().map(|p| p.id.as_str()).collect::<Vec<_>>(), ["1"]);
}
