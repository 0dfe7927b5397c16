fn main() {
    let mut bytes = file(vec![json("1", "a", "b", "v", &["TAGNAMELONG"], &[], "1.0", None)]);
    assert!(read(&bytes).is_some());
    // the name of the tag, one product, which is number 0
    let at = bytes.windows(11).position(|w| w == b"TAGNAMELONG").unwrap() + 11;
    assert_eq!(bytes[at..at + 2], [1, 0]);
    bytes[at + 1] = 9;
    assert!(read(&bytes).is_none());
}
