fn main() {
    assert!(indexer_lib::get_categories().is_none());
    assert!(indexer_lib::initialize(&file(vec![json("1", "a", "b", "v", &["red"], &[], "1.0", None)])));
    assert!(indexer_lib::get_tags().is_some());
    assert!(indexer_lib::get_categories().is_some());
}
