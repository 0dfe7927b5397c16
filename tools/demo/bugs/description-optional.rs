fn main() {
    let whole = json("1", "a", "", "v", &[], &[], "1.0", None);
    assert!(serde_json::from_str::<RawProduct>(leak(whole.clone())).is_ok());
    let mut value: serde_json::Value = serde_json::from_str(&whole).unwrap();
    value.as_object_mut().unwrap().remove("description").unwrap();
    assert!(serde_json::from_str::<RawProduct>(leak(value.to_string())).is_err());
}
