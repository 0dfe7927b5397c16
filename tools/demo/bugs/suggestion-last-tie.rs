fn main() {
    assert!(indexer_lib::initialize(&file(vec![json("1", "a", "b", "v", &["winery", "winers", "winest"], &[], "1.0", None)])));
    let first = indexer_lib::get_tags().unwrap().tags().next_tag().unwrap().get_name();
    let found = indexer_lib::tag_suggestion("a wine").unwrap();
    assert_eq!(found.get_input(), "wine");
    assert_eq!(found.get_tag().get_name(), first);
}
