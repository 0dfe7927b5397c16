fn main() {
    use indexer_lib::data::{FeatureSet, FeatureValue};
    let (index, _) = load(vec![json("1", "a", "b", "v", &[], &[], "1.0", None), json("2", "a", "b", "v", &[], &[], "2.0", None)]);
    let products = &index.product_container.products;
    let mut features = FeatureSet::new_empty();
    features.add_float("size", 7.0);
    assert!(matches!(features.get(&products[0], "size"), Some(FeatureValue::Float(v)) if v == 7.0));
    assert!(features.get(&products[1], "size").is_none());
}
