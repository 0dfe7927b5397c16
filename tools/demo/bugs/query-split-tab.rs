fn main() {
    assert!(indexer_lib::initialize(&file(vec![json("1", "a", "b", "v", &["running"], &[], "1.0", None)])));
    assert_eq!(indexer_lib::tag_suggestion("a running shoe").unwrap().get_input(), "running");
    assert!(indexer_lib::tag_suggestion("red\trunning").is_none());
}
