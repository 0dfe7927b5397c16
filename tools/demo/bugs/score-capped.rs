fn main() {
    let text: String = (0..100u32).map(|i| char::from_u32(0x4e00 + i).unwrap()).collect();
    let mut products = vec![json("1", "", &text, "", &[], &[], "1.0", None), json("2", "", "other", "", &[], &[], "1.0", None)];
    for i in 3..12 {
        products.push(json(&i.to_string(), "other", "", "", &[], &[], "1.0", None));
    }
    let (index, _) = load(products);
    let all: f32 = index.search(text.chars()).into_iter().find(|(p, _)| p.id == "1").unwrap().1;
    let half: f32 = index.search(text.chars().take(60)).into_iter().find(|(p, _)| p.id == "1").unwrap().1;
    assert!(all > half, "{all} {half}");
}
