fn main() {
    assert!(indexer_lib::initialize(&file(vec![json("1", "a", "b", "v", &["red"], &[], "1.0", None)])));
    assert!(!indexer_lib::initialize(&[1, 2, 3]));
    assert!(indexer_lib::get_tags().is_some());
    assert!(!indexer_lib::initialize(&[]));
    assert_eq!(indexer_lib::get_tags().unwrap().tags().next_tag().unwrap().get_name(), "red");
}
