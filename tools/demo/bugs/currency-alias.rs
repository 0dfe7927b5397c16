fn main() {
    let mut value: serde_json::Value = serde_json::from_str(&json("1", "a", "b", "v", &[], &[], "1.0", None)).unwrap();
    for side in ["min", "max"] {
        value["price"][side]["currency"] = "kroner".into();
    }
    let product: RawProduct = serde_json::from_str(leak(value.to_string())).expect("other members are passed over");
    assert_eq!(product.price.min.currency_code, "DKK");
}
