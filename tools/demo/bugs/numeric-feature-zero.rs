fn main() {
    use indexer_lib::js_interactable::ProductProducer;
    let (index, _) = load(vec![json("1", "a", "b", "v", &[], &[], "0.0", None), json("2", "a", "b", "v", &[], &[], "2.0", None)]);
    let mut producer = ProductProducer::new(index.product_container, vec![0, 1]);
    assert_eq!(producer.next_product().unwrap().numeric_feature("price"), Some(0.0));
    assert_eq!(producer.next_product().unwrap().numeric_feature("price"), Some(2.0));
}
