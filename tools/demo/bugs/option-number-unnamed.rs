fn main() {
    let (_, classic) = load(vec![json("1", "a", "b", "v", &[], &[("Size", &["", "L", "M"]), ("Fit", &["wide"])], "1.0", None)]);
    let mut ids = Vec::new();
    let mut i = 0;
    while let Some(category) = classic.categories.get(i) {
        ids.extend(category.options.iter().map(|o| o.serialization_id));
        i += 1;
    }
    assert_eq!(ids, [0, 1, 2, 3]);
}
