fn main() {
    let (_, classic) = load(vec![json("1", "a", "b", "v", &[], &[], "1.0", None)]);
    assert!(classic.order.get_orders("Alphabetical").is_some());
    assert!(classic.order.get_orders("Alphabetical ").is_none());
}
