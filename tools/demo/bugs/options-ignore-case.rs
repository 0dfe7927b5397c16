fn main() {
    let (_, classic) = load(vec![json("1", "a", "b", "v", &[], &[("Size", &["XL"])], "1.0", None), json("2", "a", "b", "v", &[], &[("Size", &["xl"])], "1.0", None)]);
    let mut options = CategoryHandler::new(classic).iter().next_item().unwrap();
    let mut names = Vec::new();
    while let Some(o) = options.next_item() {
        names.push(o.get_name());
    }
    assert_eq!(names, ["XL", "xl"]);
}
