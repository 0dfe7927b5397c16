fn main() {
    let all = [json("1", "t", "text", "v", &[], &[], "1.0", None), json("2", "t", "text", "w", &[], &[], "1.0", None)];
    let (a, _) = load(all[..1].to_vec());
    let (b, _) = load(all.to_vec());
    let (c, _) = load(all.to_vec());
    let (a, b, c) = (&a.product_container.vendors, &b.product_container.vendors, &c.product_container.vendors);
    assert!(a == a && b == c);
    assert!(a != b);
    assert!(b != a);
}
