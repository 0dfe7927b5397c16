fn main() {
    let names: Vec<String> = (0..300).map(|i| format!("o{i}")).collect();
    let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let (_, classic) = load(vec![json("1", "a", "b", "v", &[], &[("Size", &names)], "1.0", None)]);
    let mut handler = CategoryHandler::new(classic);
    let mut options = handler.iter().next_item().unwrap();
    let mut all = Vec::new();
    while let Some(o) = options.next_item() {
        all.push(o);
    }
    handler.toggle(&all[1]);
    let on: Vec<_> = (0..all.len()).filter(|i| handler.get_status(&all[*i])).collect();
    assert_eq!(on, [1]);
}
