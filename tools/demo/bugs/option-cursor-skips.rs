fn main() {
    let (_, classic) = load(vec![json("1", "a", "b", "v", &[], &[("Size", &["S", "", "M", "L"])], "1.0", None)]);
    let handler = CategoryHandler::new(classic);
    let mut options = handler.iter().next_item().unwrap();
    let mut names = Vec::new();
    while let Some(o) = options.next_item() {
        names.push(o.get_name());
    }
    assert_eq!(names, ["S", "", "M", "L"]);
}
