fn main() {
    let mut text = String::new();
    for i in 0..400u32 {
        text.push('a');
        text.push(char::from_u32(0x4e00 + i).unwrap());
    }
    let (index, _) = load(vec![json("1", "", &text, "", &[], &[], "1.0", None)]);
    assert_eq!(index.roots.get(&'a').unwrap().by_occurances.len(), 400);
}
