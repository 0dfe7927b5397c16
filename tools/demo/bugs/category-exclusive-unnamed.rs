fn main() {
    let (_, classic) = load(vec![json("1", "a", "b", "v", &[], &[("", &["S"]), ("Color", &["R", "G"])], "1.0", None)]);
    assert!(classic.categories.0.iter().all(|c| c.exclusive == false));
}
