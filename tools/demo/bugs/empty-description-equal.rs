fn main() {
    let (a, _) = load(vec![json("1", "t", "some text", "v", &[], &[], "1.0", None)]);
    let (b, _) = load(vec![json("1", "t", "", "v", &[], &[], "1.0", None)]);
    let (a, b) = (&a.product_container.products[0], &b.product_container.products[0]);
    assert!(a == a && b == b);
    assert!(b != a);
    assert!(a != b);
}
