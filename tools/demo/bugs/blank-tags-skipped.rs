fn main() {
    let (_, classic) = load(vec![json("1", "a", "b", "v", &["red", " "], &[], "1.0", None)]);
    assert_eq!(classic.tags.iter().count(), 2);
}
