fn main() {
    let text = "ab".repeat(40000) + &"a".repeat(40000);
    let (index, _) = load(vec![json("1", "", &text, "", &[], &[], "1.0", None)]);
    let weight = index.roots.get(&'a').unwrap().weight;
    assert!((weight - 2.0 / 3.0).abs() < 0.001, "{weight}");
}
