fn main() {
    let names = ["Acme", "Acme ", "Other"];
    let (index, _) = load(names.iter().map(|v| json(v, "a", "b", v, &[], &[], "1.0", None)).collect());
    let found: Vec<_> = index.product_container.products.iter().map(|p| (p.vendor.id, p.vendor.name.as_str())).collect();
    assert_eq!(found, [(0, "Acme"), (1, "Acme "), (2, "Other")]);
}
