fn main() {
    let (index, _) = load(vec![json("1", "t", "text", "v", &[], &[], "1.0", None)]);
    let vendor = index.product_container.products[0].vendor;
    let product = |n: usize| indexer_lib::data::Product { description: "d".into(), title: "t".into(), vendor, id: "1".into(), serialization_id: n };
    let n = [0, 1, 255, 256, 65535, 65536, 65537];
    for a in n {
        for b in n {
            assert_eq!(product(a).cmp(&product(b)), a.cmp(&b), "{} {}", a, b);
            assert_eq!(product(a).partial_cmp(&product(b)), a.partial_cmp(&b));
        }
    }
}
