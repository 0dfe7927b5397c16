fn main() {
    let with = |d: &str| load(vec![json("1", "t", d, "v", &[], &[], "1.0", None)]).0;
    let (whole, cut, other) = (with("blue caf\u{e9} chair"), with("blue caf\u{e9}"), with("blue caf\u{ea}"));
    let p = |i: usize| &[&whole, &cut, &other][i].product_container.products[0];
    assert!(p(0) == p(1) && p(1) == p(0));
    assert!(p(0) != p(2));
    assert!(p(2) != p(0));
}
