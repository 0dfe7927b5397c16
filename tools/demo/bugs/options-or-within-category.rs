fn main() {
    let (index, classic) = load(vec![
        json("1", "a", "b", "v", &[], &[("Size", &["S", "M"])], "1.0", None),
        json("2", "a", "b", "v", &[], &[("Size", &["S"])], "1.0", None),
    ]);
    let mut handler = CategoryHandler::new(classic);
    let mut options = handler.iter().next_item().unwrap();
    while let Some(o) = options.next_item() {
        handler.toggle(&o);
    }
    let valid: Vec<_> = index.product_container.products.iter().filter(|p| handler.is_valid(p)).map(|p| p.id.as_str()).collect();
    assert_eq!(valid, ["1"]);
}
