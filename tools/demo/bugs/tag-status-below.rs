fn main() {
    let (_, classic) = load(vec![json("1", "a", "b", "v", &["x", "y", "z"], &[], "1.0", None)]);
    let mut handler = TagHandler::new(classic);
    let mut iter = handler.tags();
    let mut all = Vec::new();
    while let Some(o) = iter.next_tag() {
        all.push(o);
    }
    handler.toggle(&all[1]);
    handler.toggle(&all[2]);
    let on: Vec<_> = (0..all.len()).filter(|i| handler.get_status(&all[*i])).collect();
    assert_eq!(on, [1, 2]);
}
