fn main() {
    use indexer_lib::js_interactable::ProductProducer;
    let image = format!("https://example.org/{}", "x".repeat(400));
    let (index, _) = load(vec![json("1", "a", "b", "v", &[], &[], "1.0", Some(&image))]);
    let mut producer = ProductProducer::new(index.product_container, vec![0]);
    assert_eq!(producer.next_product().unwrap().string_feature("image_url"), Some(image));
}
