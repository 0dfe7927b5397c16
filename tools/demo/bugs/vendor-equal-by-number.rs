fn main() {
    let (a, _) = load(vec![json("1", "t", "text", "v", &[], &[], "1.0", None)]);
    let (b, _) = load(vec![json("1", "t", "text", "w", &[], &[], "1.0", None)]);
    let (c, _) = load(vec![json("1", "t", "text", "v", &[], &[], "1.0", None)]);
    assert!(a.product_container.products[0] == c.product_container.products[0]);
    assert!(a.product_container.products[0] != b.product_container.products[0]);
}
