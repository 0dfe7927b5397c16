fn main() {
    let mut bytes = file(vec![json("IDENTIFIER", "a", "b", "v", &[], &[], "1.0", None)]);
    assert!(read(&bytes).is_some());
    let at = bytes.windows(10).position(|w| w == b"IDENTIFIER").unwrap() + 10;
    assert_eq!(bytes[at], 0);
    bytes[at] = 9;
    assert!(read(&bytes).is_none());
}
