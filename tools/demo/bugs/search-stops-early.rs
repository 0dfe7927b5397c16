fn main() {
    let mut products: Vec<_> = (0..9).map(|i| json(&i.to_string(), "", "commonplace", "", &[], &[], "1.0", None)).collect();
    products.push(json("it", "", "commonplace zebra", "", &[], &[], "1.0", None));
    let (index, _) = load(products);
    let found = index.search("commonplace zebra".chars());
    assert!(found.iter().any(|(p, _)| p.id == "it"));
}
