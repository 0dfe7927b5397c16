fn main() {
    let (index, classic) = load(vec![
        json("1", "a", "b", "v", &["x", "y", "z"], &[], "1.0", None),
        json("2", "a", "b", "v", &["x", "y"], &[], "1.0", None),
        json("3", "a", "b", "v", &["x", "z"], &[], "1.0", None),
        json("4", "a", "b", "v", &["y", "z"], &[], "1.0", None),
    ]);
    let mut handler = TagHandler::new(classic);
    let mut iter = handler.tags();
    while let Some(o) = iter.next_tag() {
        handler.toggle(&o);
    }
    let valid: Vec<_> = index.product_container.products.iter().filter(|p| handler.is_valid(p)).map(|p| p.id.as_str()).collect();
    assert_eq!(valid, ["1"]);
}
