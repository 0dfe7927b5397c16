fn main() {
    let title = "word ".repeat(40);
    let (index, _) = load(vec![json("1", &title, "text", "v", &[], &[], "1.0", None)]);
    assert_eq!(index.product_container.products[0].title, title);
}
