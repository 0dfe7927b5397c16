fn main() {
    let names: Vec<String> = (0..300).map(|i| format!("vendor {i}")).collect();
    let (index, _) = load(names.iter().enumerate().map(|(i, v)| json(&i.to_string(), "a", "b", v, &[], &[], "1.0", None)).collect());
    for (p, name) in index.product_container.products.iter().zip(&names) {
        assert_eq!(&p.vendor.name, name);
    }
}
