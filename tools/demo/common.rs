#![allow(dead_code, unused_imports)]
use std::sync::Arc;

use colosseum::sync::Arena;
use indexer_lib::classic_indexes::ClassicIndexes;
use indexer_lib::data::{optimize, Product, ProductContainer, RawProduct, SuperAlloc};
use indexer_lib::js_interactable::{CategoryHandler, TagHandler};
use indexer_lib::ngram::{GramIndex, GramNode};
use indexer_lib::serialize::{deserialize_all, serialize_all};

type Index = GramIndex<'static, char, Product<'static>, 5>;

fn leak<T>(v: T) -> &'static T {
    Box::leak(Box::new(v))
}

fn json(id: &str, title: &str, description: &str, vendor: &str, tags: &[&str], options: &[(&str, &[&str])], price: &str, image: Option<&str>) -> String {
    let options: Vec<_> = options.iter().map(|(n, v)| serde_json::json!({"name": n, "values": v})).collect();
    let media: Vec<_> = image.iter().map(|u| serde_json::json!({ "url": u })).collect();
    serde_json::json!({"id": id, "title": title, "description": description, "vendor": vendor, "tags": tags,
        "options": options, "media": media,
        "price": {"min": {"amount": price, "currencyCode": "DKK"}, "max": {"amount": price, "currencyCode": "DKK"}}})
    .to_string()
}

fn parse(products: Vec<String>) -> Vec<RawProduct<'static>> {
    products.into_iter().map(|p| serde_json::from_str(leak(p)).unwrap()).collect()
}

fn file(products: Vec<String>) -> Vec<u8> {
    indexer_lib::index_and_serialize(parse(products), leak(SuperAlloc::new())).unwrap()
}

fn read(bytes: &[u8]) -> Option<(Index, Arc<ClassicIndexes<'static>>)> {
    let nodes: &'static Arena<GramNode<'static, char>> = leak(Arena::new());
    let (index, classic) = deserialize_all(bytes, nodes, leak(SuperAlloc::new()))?;
    Some((index, Arc::new(classic)))
}

fn load(products: Vec<String>) -> (Index, Arc<ClassicIndexes<'static>>) {
    read(&file(products)).unwrap()
}

