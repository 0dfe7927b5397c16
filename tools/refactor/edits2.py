"""More edits of /repo that keep its behaviour: the building of an index, its helpers, and the readers."""
from edits import edit

X = "src/ngram/indexer.rs"
edit("index-window-rotate",
     (X, """                for i in 1..N {
                    lookback[i - 1] = lookback[i];
                }
                lookback[N - 1] = gram;""", """                lookback.rotate_left(1);
                lookback[N - 1] = gram;"""))
edit("index-window-copy",
     (X, """                for i in 1..N {
                    lookback[i - 1] = lookback[i];
                }
                lookback[N - 1] = gram;""", """                lookback.copy_within(1.., 0);
                lookback[N - 1] = gram;"""))
edit("index-window-forward",
     (X, """                for i in 1..N {
                    lookback[i - 1] = lookback[i];
                }""", """                for i in 0..N - 1 {
                    lookback[i] = lookback[i + 1];
                }"""))
edit("index-data-or-default",
     (X, """                data_map
                    .entry(lookback)
                    .and_modify(|vec| vec.push(data))
                    .or_insert_with(|| vec![data]);""", """                data_map.entry(lookback).or_default().push(data);"""))
edit("index-data-before-tree",
     (X, """
                // We also add the lookback
                for i in 1..N {
                    lookback[i - 1] = lookback[i];
                }
                lookback[N - 1] = gram;

                // If we have the required grams, we add a data reference
                data_map
                    .entry(lookback)
                    .and_modify(|vec| vec.push(data))
                    .or_insert_with(|| vec![data]);
""", "\n"),
     (X, """                // We increment occurances in root
""", """                // We move the lookback on
                for i in 1..N {
                    lookback[i - 1] = lookback[i];
                }
                lookback[N - 1] = gram;

                // We add a data reference
                data_map
                    .entry(lookback)
                    .and_modify(|vec| vec.push(data))
                    .or_insert_with(|| vec![data]);

                // We increment occurances in root
"""))
edit("index-count-helper",
     (X, """                let root_node = root
                    .entry(gram)
                    .and_modify(|node| {
                        node.0.borrow_mut().occurances += 1;
                    })
                    .or_insert_with(|| MutableGramNode::new(gram, 1))
                    .clone();""", """                let root_node = count(&mut root, gram);"""),
     (X, """                    let child_node = gram_node
                        .0
                        .borrow_mut()
                        .items
                        .entry(gram)
                        .and_modify(|node| {
                            node.0.borrow_mut().occurances += 1;
                        })
                        .or_insert_with(|| MutableGramNode::new(gram, 1))
                        .clone();""", """                    let child_node = count(&mut gram_node.0.borrow_mut().items, gram);"""),
     (X, """impl<'a, G: GramAtom, Data: Ord, const N: usize>""", """fn count<G: GramAtom>(
    nodes: &mut AHashMap<G, MutableGramNode<G>>,
    gram: G,
) -> MutableGramNode<G> {
    nodes
        .entry(gram)
        .and_modify(|node| {
            node.0.borrow_mut().occurances += 1;
        })
        .or_insert_with(|| MutableGramNode::new(gram, 1))
        .clone()
}

impl<'a, G: GramAtom, Data: Ord, const N: usize>"""))
edit("index-total-sum",
     (X, """            .map(|v| v.0.borrow().occurances)
            .reduce(|a, b| a + b)
            .unwrap_or(0);""", """            .map(|v| v.0.borrow().occurances)
            .sum();"""))
edit("index-total-fold",
     (X, """            .map(|v| v.0.borrow().occurances)
            .reduce(|a, b| a + b)
            .unwrap_or(0);""", """            .fold(0, |sum, v| sum + v.0.borrow().occurances);"""))
edit("index-total-loop",
     (X, """        let total_root_occurances = root
            .values()
            .map(|v| v.0.borrow().occurances)
            .reduce(|a, b| a + b)
            .unwrap_or(0);""", """        let mut total_root_occurances = 0;
        for node in root.values() {
            total_root_occurances += node.0.borrow().occurances;
        }"""))
edit("index-roots-loop",
     (X, """        let roots: AHashMap<G, &'arena GramNode<'arena, G>> = root
            .into_iter()
            .map(|(k, v)| (k, v.immutalize(total_root_occurances, node_arena)))
            .collect();""", """        let mut roots: AHashMap<G, &'arena GramNode<'arena, G>> =
            AHashMap::with_capacity(root.len());
        for (gram, node) in &root {
            roots.insert(*gram, node.immutalize(total_root_occurances, node_arena));
        }"""))
edit("index-values-sort",
     (X, """        for (_, data) in data_map.iter_mut() {
            data.sort();
        }""", """        for list in data_map.values_mut() {
            list.sort();
        }"""))
edit("index-sort-then-retain",
     (X, """        data_map.retain(|_, data| data.len() < maximum_product_amount);
""", ""),
     (X, """        for (_, data) in data_map.iter_mut() {
            data.sort();
        }
""", """        for (_, data) in data_map.iter_mut() {
            data.sort();
        }
        data_map.retain(|_, data| data.len() < maximum_product_amount);
"""))
edit("index-cutoff-helper",
     (X, """        let products_amount = product_container.products.len();
        #[allow(clippy::cast_precision_loss)]
        let maximum_product_amount = (products_amount as f32) * DATA_CUTOFF_PERCENTAGE;
        #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]
        let maximum_product_amount = maximum_product_amount as usize;
""", """        let maximum_product_amount = cutoff(product_container.products.len());
"""),
     (X, """#[derive(Clone, Debug)]
struct MutableGramNode""", """#[allow(
    clippy::cast_precision_loss,
    clippy::cast_possible_truncation,
    clippy::cast_sign_loss
)]
fn cutoff(products: usize) -> usize {
    (products as f32 * DATA_CUTOFF_PERCENTAGE) as usize
}

#[derive(Clone, Debug)]
struct MutableGramNode"""))
edit("index-filter-collect",
     (X, """        data_map.retain(|_, data| data.len() < maximum_product_amount);
""", """        let mut data_map: AHashMap<[G; N], Vec<&'arena Data>> = data_map
            .into_iter()
            .filter(|(_, data)| data.len() < maximum_product_amount)
            .collect();
"""),
     (X, "let mut data_map: AHashMap<[G; N], Vec<&'arena Data>> = AHashMap::new();", "let mut data_map: AHashMap<[G; N], Vec<&'arena Data>> = AHashMap::default();"))
edit("index-queue-pop-first",
     (X, """                queue.push_front(root_node);
                if queue.len() == N {
                    queue.pop_back();
                }""", """                queue.push_front(root_node);
                if queue.len() > N - 1 {
                    queue.pop_back();
                }"""))
edit("index-queue-truncate",
     (X, """                if queue.len() == N {
                    queue.pop_back();
                }""", """                queue.truncate(N - 1);"""))
edit("index-queue-iter-mut",
     (X, "for gram_node in &mut queue {", "for gram_node in queue.iter_mut() {"))
edit("index-child-match",
     (X, """                    let child_node = gram_node
                        .0
                        .borrow_mut()
                        .items
                        .entry(gram)
                        .and_modify(|node| {
                            node.0.borrow_mut().occurances += 1;
                        })
                        .or_insert_with(|| MutableGramNode::new(gram, 1))
                        .clone();""", """                    let known = gram_node.0.borrow().items.get(&gram).cloned();
                    let child_node = match known {
                        Some(node) => {
                            node.0.borrow_mut().occurances += 1;
                            node
                        }
                        None => {
                            let node = MutableGramNode::new(gram, 1);
                            gram_node.0.borrow_mut().items.insert(gram, node.clone());
                            node
                        }
                    };"""))
edit("index-occurances-zero",
     (X, """                    .and_modify(|node| {
                        node.0.borrow_mut().occurances += 1;
                    })
                    .or_insert_with(|| MutableGramNode::new(gram, 1))
                    .clone();

                // We add""", """                    .or_insert_with(|| MutableGramNode::new(gram, 0))
                    .clone();
                root_node.0.borrow_mut().occurances += 1;

                // We add"""))
edit("frozen-values",
     (X, """            .iter()
            .map(|(_, v)| v.immutalize(me.occurances, arena))
            .collect();""", """            .values()
            .map(|v| v.immutalize(me.occurances, arena))
            .collect();"""))
edit("frozen-sort-reversed",
     (X, "by_occurances.sort_by(|a, b| a.cmp(b).reverse());", "by_occurances.sort_by(|a, b| b.cmp(a));"))
edit("frozen-items-collect",
     (X, """        let items =
            by_occurances
                .iter()
                .fold(AHashMap::with_capacity(children), |mut map, item| {
                    map.insert(item.item, *item);
                    map
                });""", """        let items = by_occurances.iter().map(|item| (item.item, *item)).collect();"""),
     (X, "        let children = me.items.len();\n", ""))
edit("frozen-items-loop",
     (X, """        let items =
            by_occurances
                .iter()
                .fold(AHashMap::with_capacity(children), |mut map, item| {
                    map.insert(item.item, *item);
                    map
                });""", """        let mut items = AHashMap::with_capacity(children);
        for child in &by_occurances {
            items.insert(child.item, *child);
        }"""))
edit("frozen-kids-loop",
     (X, """        let mut by_occurances: Vec<&'arena GramNode<'arena, G>> = me
            .items
            .iter()
            .map(|(_, v)| v.immutalize(me.occurances, arena))
            .collect();
""", """        let mut by_occurances: Vec<&'arena GramNode<'arena, G>> = Vec::with_capacity(children);
        for child in me.items.values() {
            by_occurances.push(child.immutalize(me.occurances, arena));
        }
"""))
edit("frozen-weight-first",
     (X, """        let children = me.items.len();
""", """        let children = me.items.len();
        let weight = occurances_to_weight(parent_occurances, me.occurances);
"""),
     (X, "            weight: occurances_to_weight(parent_occurances, me.occurances),\n", "            weight,\n"))

W = "src/data/raw_parser.rs"
edit("raw-image-match",
     (W, """media.first().map_or("", |item| item.url)""", """match media.first() {
            Some(item) => item.url,
            None => "",
        }"""))
edit("raw-image-get",
     (W, """        other_string.insert("image_url", media.first().map_or("", |item| item.url));
""", """        let image = media.get(0).map(|item| item.url).unwrap_or_default();
        other_string.insert("image_url", image);
"""))
edit("raw-price-var",
     (W, """        other_numeric.insert("price", price.min.amount.parse().unwrap());
""", """        let lowest: f32 = price.min.amount.parse().unwrap();
        other_numeric.insert("price", lowest);
"""))
edit("raw-price-helper",
     (W, """        let mut other_numeric = AHashMap::with_capacity(1);

        other_numeric.insert("price", price.min.amount.parse().unwrap());
""", """        let other_numeric = numbers(&price);
"""),
     (W, "fn to_intermediate(", """fn numbers(price: &ProductPrice) -> AHashMap<&'static str, f32> {
    let mut out = AHashMap::with_capacity(1);
    out.insert("price", price.min.amount.parse().unwrap());
    out
}

fn to_intermediate("""))
edit("raw-vendors-iter",
     (W, """    for product in &input {
        vendors.insert(product.vendor);
    }""", """    for name in input.iter().map(|product| product.vendor) {
        vendors.insert(name);
    }"""))
edit("raw-vendors-for-each",
     (W, """    for product in &input {
        vendors.insert(product.vendor);
    }""", """    input.iter().for_each(|product| vendors.insert(product.vendor));"""))
edit("raw-push-order",
     (W, """        tags_for_product.push(tags);

        options_list.push(options);

        let p = Product {
            description,
            vendor: my_vendor,
            title: title.to_string(),
            id: id.to_string(),
            serialization_id: i,
        };
""", """        products.push(Product {
            serialization_id: i,
            id: id.to_owned(),
            title: title.to_owned(),
            vendor: my_vendor,
            description,
        });
        options_list.push(options);
        tags_for_product.push(tags);
"""),
     (W, "        products.push(p);\n", ""))
edit("raw-numbers-first",
     (W, """        for (key, value) in other_string {
            let key = super_alloc.alloc(key.to_string());
            out.extra_features.add_string(key, value.to_string());
        }
        for (key, value) in other_numeric {
            let key = super_alloc.alloc(key.to_string());
            out.extra_features.add_float(key, value);
        }""", """        for (key, value) in other_numeric {
            out.extra_features.add_float(key, value);
        }
        for (key, value) in other_string {
            out.extra_features.add_string(key, value.to_owned());
        }"""))
edit("raw-counter",
     (W, """    for (
        i,
        IntermediateRawProduct {
            title,
            description,
            tags,
            vendor,
            id,
            options,
            other_string,
            other_numeric,
        },
    ) in to_intermediate(input).enumerate()
    {""", """    for raw in to_intermediate(input) {
        let IntermediateRawProduct {
            title,
            description,
            tags,
            vendor,
            id,
            options,
            other_string,
            other_numeric,
        } = raw;"""),
     (W, "serialization_id: i,", "serialization_id: products.len(),"))
edit("raw-price-fn",
     (W, """        &|product, extra| match extra.get(product, "price") {
            Some(FeatureValue::Float(v)) => v,
            _ => panic!("Only expected price as float"),
        },
        &|a: &f32, b: &f32| a.total_cmp(b),""", """        &price_of,
        &|a: &f32, b: &f32| a.total_cmp(b),"""),
     (W, """        &|product, extra| match extra.get(product, "price") {
            Some(FeatureValue::Float(v)) => v,
            _ => panic!("Only expected price as float"),
        },
        &|a: &f32, b: &f32| b.total_cmp(a),""", """        &price_of,
        &|a: &f32, b: &f32| a.total_cmp(b).reverse(),"""),
     (W, "pub fn optimize(", """fn price_of(product: &crate::data::Product, extra: &FeatureSet) -> f32 {
    match extra.get(product, "price") {
        Some(FeatureValue::Float(v)) => v,
        _ => panic!("Only expected price as float"),
    }
}

pub fn optimize("""))
edit("raw-orders-before-tags",
     (W, """    let tag_index = TagIndex::index(tags_for_product, out);

    let mut order""", """    let mut order"""),
     (W, """    let categories = CategoryIndex::index(options_list, out);
""", """    let categories = CategoryIndex::index(options_list, out);
    let tag_index = TagIndex::index(tags_for_product, out);
"""))
edit("raw-orders-helper",
     (W, """    let mut order = OrderIndex::new();
    // Alphabetical
    order.add(out, &|product, _| &product.title, "Alphabetical".to_owned());
    // Price
    order.add_custom_cmp(
        out,
        &|product, extra| match extra.get(product, "price") {
            Some(FeatureValue::Float(v)) => v,
            _ => panic!("Only expected price as float"),
        },
        &|a: &f32, b: &f32| a.total_cmp(b),
        "Price low to high".to_owned(),
    );
    order.add_custom_cmp(
        out,
        &|product, extra| match extra.get(product, "price") {
            Some(FeatureValue::Float(v)) => v,
            _ => panic!("Only expected price as float"),
        },
        &|a: &f32, b: &f32| b.total_cmp(a),
        "Price high to low".to_owned(),
    );
""", """    let order = named_orders(out);
"""),
     (W, "pub fn optimize(", """fn named_orders(products: &'static ProductContainer<'static>) -> OrderIndex {
    let mut order = OrderIndex::new();
    // Price
    order.add_custom_cmp(
        products,
        &|product, extra| match extra.get(product, "price") {
            Some(FeatureValue::Float(v)) => v,
            _ => panic!("Only expected price as float"),
        },
        &|a: &f32, b: &f32| a.total_cmp(b),
        "Price low to high".to_string(),
    );
    order.add_custom_cmp(
        products,
        &|product, extra| match extra.get(product, "price") {
            Some(FeatureValue::Float(v)) => v,
            _ => panic!("Only expected price as float"),
        },
        &|a: &f32, b: &f32| b.total_cmp(a),
        "Price high to low".to_string(),
    );
    // Alphabetical
    order.add(products, &|product, _| &product.title, "Alphabetical".to_string());
    order
}

pub fn optimize("""))

O = "src/classic_indexes/order.rs"
edit("orders-sort-by-first",
     (O, "data_and_id.sort_by(|(a, _), (b, _)| cmp(a, b));", "data_and_id.sort_by(|x, y| cmp(&x.0, &y.0));"))
edit("orders-collect-loop",
     (O, """        let mut data_and_id: Vec<(T, usize)> = products
            .products
            .iter()
            .map(|prod| {
                let id = prod.serialization_id;
                let v = maker(prod, features);
                (v, id)
            })
            .collect();""", """        let mut data_and_id: Vec<(T, usize)> = Vec::with_capacity(products.products.len());
        for product in &products.products {
            data_and_id.push((maker(product, features), product.serialization_id));
        }"""))
edit("orders-partial-match",
     (O, """&|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal),""", """&|a, b| match a.partial_cmp(b) {
                Some(order) => order,
                None => std::cmp::Ordering::Equal,
            },"""))
edit("orders-keys-map",
     (O, "self.orders.keys().map(String::as_str)", "self.orders.iter().map(|(name, _)| name.as_str())"))

L = "src/lib.rs"
edit("build-vec-of-texts",
     (L, """            grams: [description, title, &vendor.name]
                .into_iter()
                .flat_map(|s| s.chars())
                .flat_map(char::to_lowercase),""", """            grams: description
                .chars()
                .chain(title.chars())
                .chain(vendor.name.chars())
                .flat_map(char::to_lowercase),"""))
edit("build-flat-closure",
     (L, """                .flat_map(|s| s.chars())
                .flat_map(char::to_lowercase),
        }""", """                .flat_map(|s| s.chars().flat_map(|c| c.to_lowercase())),
        }"""))
edit("build-named-helper",
     (L, """    let iter = prods.products.iter().map(|p| {
        let Product {
            description,
            title,
            vendor,
            ..
        } = p;

        IndexFeed {
            data: p,
            grams: [description, title, &vendor.name]
                .into_iter()
                .flat_map(|s| s.chars())
                .flat_map(char::to_lowercase),
        }
    });
""", """    let iter = prods.products.iter().map(|p| IndexFeed {
        data: p,
        grams: letters(p),
    });
"""),
     (L, "pub fn index_and_serialize(", """fn letters<'a>(product: &'a Product<'_>) -> impl Iterator<Item = char> + Clone + 'a {
    [&product.description, &product.title, &product.vendor.name]
        .into_iter()
        .flat_map(|s| s.chars())
        .flat_map(char::to_lowercase)
}

pub fn index_and_serialize("""))
edit("build-direct-return",
     (L, """    let output = serialize_all(&index, &classic_index);

    Ok(output)""", """    Ok(serialize_all(&index, &classic_index))"""))
edit("build-no-trial",
     (L, """    let results = index.search("kunst".chars().flat_map(char::to_lowercase));
    // let results = index.search("UNERsTuOD hvzdom".chars().flat_map(char::to_lowercase));

    println!("Got {} results", results.len());
""", ""))
edit("index-match",
     (L, """    let output = index_and_serialize(products, &SUPER_ARENA).ok()?;

    Some(output)""", """    match index_and_serialize(products, &SUPER_ARENA) {
        Ok(output) => Some(output),
        Err(_) => None,
    }"""))
edit("index-ok",
     (L, """    let output = index_and_serialize(products, &SUPER_ARENA).ok()?;

    Some(output)""", """    index_and_serialize(products, &SUPER_ARENA).ok()"""))

N = "src/serialize/nodes.rs"
edit("node-read-items-loop",
     (N, """    let items = by_occurances.iter().fold(AHashMap::new(), |mut map, item| {
        map.insert(item.item, *item);
        map
    });
""", """    let mut items = AHashMap::with_capacity(by_occurances.len());
    for child in &by_occurances {
        items.insert(child.item, *child);
    }
"""))
edit("node-read-items-inline",
     (N, """        input = new_input;
        by_occurances.push(child);
    }
    let items = by_occurances.iter().fold(AHashMap::new(), |mut map, item| {
        map.insert(item.item, *item);
        map
    });
""", """        input = new_input;
        by_occurances.push(child);
        items.insert(child.item, child);
    }
"""),
     (N, """    let mut by_occurances = Vec::with_capacity(len.min(input.len()));
""", """    let mut by_occurances = Vec::with_capacity(len.min(input.len()));
    let mut items = AHashMap::new();
"""))
edit("node-depth-countdown",
     (N, "deserialize_node(input, arena, 0)", "deserialize_node(input, arena, MAX_NODE_DEPTH)"),
     (N, """    depth: usize,
) ->""", """    depth_left: usize,
) ->"""),
     (N, """    if depth >= MAX_NODE_DEPTH {
        return None;
    }""", """    if depth_left == 0 {
        return None;
    }"""),
     (N, "deserialize_node(input, arena, depth + 1)?", "deserialize_node(input, arena, depth_left - 1)?"))
edit("node-write-direct",
     (N, """    node.by_occurances.serialize(output);
}""", """    node.by_occurances.len().serialize(output);
    for child in &node.by_occurances {
        serialize_node(child, output);
    }
}"""))
edit("index-read-helper",
     (N, """        for _ in 0..data_len {
            let (next_input, gram) = <[G; N]>::deserialize(input)?;
            let (next_input, products, _) =
                Product::deserialize_from_sequential_ids(next_input, &container.products)?;
            input = next_input;
            data.insert(gram, products);
        }
""", """        let mut left = data_len;
        while left > 0 {
            let (rest, gram) = <[G; N]>::deserialize(input)?;
            let (rest, products, _) =
                Product::deserialize_from_sequential_ids(rest, &container.products)?;
            data.insert(gram, products);
            input = rest;
            left -= 1;
        }
"""))

C = "src/data/container.rs"
edit("container-read-flat",
     (C, """        let (mut input, product_count) = usize::deserialize(input)?;
        let (input, products) = {
            let mut products = Vec::new();
            for id in 0..product_count {
                let (new_input, product) = Product::deserialize(input, id, &vendors)?;
                products.push(product);
                input = new_input;
            }
            (input, products)
        };
""", """        let (mut input, product_count) = usize::deserialize(input)?;
        let mut products = Vec::new();
        while products.len() < product_count {
            let (rest, product) = Product::deserialize(input, products.len(), &vendors)?;
            input = rest;
            products.push(product);
        }
"""))
edit("container-read-new",
     (C, """        Some((
            input,
            ProductContainer {
                products,
                vendors,
                extra_features,
            },
        ))""", """        let container = ProductContainer::new(products, vendors, extra_features);
        Some((input, container))"""))
edit("container-write-fields",
     (C, """        let ProductContainer {
            products,
            vendors,
            extra_features,
        } = self;
        vendors.serialize(output);

        products.serialize(output);
        extra_features.serialize(output);""", """        self.vendors.serialize(output);
        (&self.products).serialize(output);
        self.extra_features.serialize(output);"""))

V = "src/data/vendor.rs"
edit("vendor-insert-get-or-insert",
     (V, """        if self.tags.contains_key(name) {
            return;
        }
        let id = self.tags.len();
        let new_tag = &*self.alloc.alloc(Vendor {
            name: name.to_string(),
            id,
        });
        self.tags.insert(&new_tag.name, new_tag);
        self.by_id.push(new_tag);
    }""", """        if self.tags.get(name).is_none() {
            let vendor: &'a Vendor = self.alloc.alloc(Vendor {
                name: name.to_owned(),
                id: self.by_id.len(),
            });
            self.by_id.push(vendor);
            self.tags.insert(vendor.name.as_str(), vendor);
        }
    }"""))
edit("vendor-get-match",
     (V, "self.tags.get(name).copied()", """match self.tags.get(name) {
            Some(vendor) => Some(*vendor),
            None => None,
        }"""))
edit("vendor-read-by-len",
     (V, """        for id in 0..len {
            let (new_input, name) = String::deserialize(input)?;
            input = new_input;
            let tag = &*arena.alloc(Vendor { name, id });
            tags.insert(tag.name.as_str(), tag);
            by_id.push(tag);
        }""", """        for _ in 0..len {
            let (rest, name) = String::deserialize(input)?;
            let id = by_id.len();
            let vendor = &*arena.alloc(Vendor { name, id });
            by_id.push(vendor);
            tags.insert(vendor.name.as_str(), vendor);
            input = rest;
        }"""))

F = "src/data/features.rs"
edit("features-add-entry",
     (F, """        match self.0.get_mut(key) {
            Some(v) => match v {
                Feature::Float(i) => i.push(value),
                _ => panic!("Expected Integer feature"),
            },
            None => {
                self.0.insert(key.to_string(), Feature::Float(vec![value]));
            }
        };""", """        let column = self
            .0
            .entry(key.to_string())
            .or_insert_with(|| Feature::Float(Vec::new()));
        match column {
            Feature::Float(values) => values.push(value),
            _ => panic!("Expected Float feature"),
        }"""))
edit("features-add-if-let",
     (F, """        match self.0.get_mut(key) {
            Some(v) => match v {
                Feature::String(i) => i.push(value),
                _ => panic!("Expected Integer feature"),
            },
            None => {
                self.0.insert(key.to_string(), Feature::String(vec![value]));
            }
        };""", """        if let Some(column) = self.0.get_mut(key) {
            if let Feature::String(values) = column {
                values.push(value);
            } else {
                panic!("Expected String feature");
            }
        } else {
            self.0.insert(key.to_owned(), Feature::String(vec![value]));
        }"""))
edit("features-get-column",
     (F, """        Some(match self.0.get(key)? {
            Feature::String(list) => FeatureValue::String(list.get(id)?),
            Feature::Float(list) => FeatureValue::Float(*list.get(id)?),
            Feature::Integer(list) => FeatureValue::Integer(*list.get(id)?),
        })""", """        self.0.get(key)?.get(id)"""))
edit("features-read-helper",
     (F, """        let (input, id) = u8::deserialize(input)?;
        match id {
            0 => {
                let (input, data) = Deserializable::deserialize(input)?;
                Some((input, Feature::String(data)))
            }
            1 => {
                let (input, data) = Deserializable::deserialize(input)?;
                Some((input, Feature::Float(data)))
            }
            2 => {
                let (input, data) = Deserializable::deserialize(input)?;
                Some((input, Feature::Integer(data)))
            }
            _ => None,
        }""", """        let (input, id) = u8::deserialize(input)?;
        if id > 2 {
            return None;
        }
        if id == 0 {
            Vec::deserialize(input).map(|(rest, data)| (rest, Feature::String(data)))
        } else if id == 1 {
            Vec::deserialize(input).map(|(rest, data)| (rest, Feature::Float(data)))
        } else {
            Vec::deserialize(input).map(|(rest, data)| (rest, Feature::Integer(data)))
        }"""))

T = "src/classic_indexes/tag.rs"
edit("tag-index-direct",
     (T, """            for tag in tags {
                products_for_tag
                    .entry(tag)
                    .and_modify(|v| v.push(product))
                    .or_insert_with(|| vec![product]);
            }""", """            for tag in tags {
                match products_for_tag.get_mut(tag) {
                    Some(list) => list.push(product),
                    None => {
                        products_for_tag.insert(tag, vec![product]);
                    }
                }
            }"""))
edit("tag-index-zip",
     (T, """        for (id, tags) in tags_for_product.into_iter().enumerate() {
            let product = &container.products[id];
            for tag in tags {""", """        for (id, tags) in tags_for_product.iter().enumerate() {
            let product = &container.products[id];
            for &tag in tags {"""))
edit("tag-new-loop",
     (T, """        let products_by_serialization_id = products.iter().map(|p| p.serialization_id).collect();
        Tag {""", """        let mut products_by_serialization_id = AHashSet::with_capacity(products.len());
        for product in &products {
            products_by_serialization_id.insert(product.serialization_id);
        }
        Tag {"""))
edit("tag-read-new",
     (T, """            tags.push(Tag {
                name,
                products,
                id,
                products_by_serialization_id: product_ids.into_iter().collect(),
            });""", """            let members: AHashSet<usize> = product_ids.into_iter().collect();
            tags.push(Tag {
                id,
                name,
                products,
                products_by_serialization_id: members,
            });"""))

K = "src/classic_indexes/categorical.rs"
edit("category-last-mut",
     (K, """                        categories.push(new);
                        let just_inserted = categories.len() - 1;
                        categories.get_mut(just_inserted).unwrap()""", """                        categories.push(new);
                        categories.last_mut().unwrap()"""))
edit("category-zip-products",
     (K, """        for (i, options) in options_list.into_iter().enumerate() {
            for raw_option in options {""", """        for (i, options) in options_list.into_iter().enumerate() {
            let product = &container.products[i];
            for raw_option in options {"""),
     (K, "option.add(&container.products[i]);", "option.add(product);"))
edit("category-number-loop",
     (K, """        let options = categories.iter_mut().flat_map(|c| c.options.iter_mut());
        for (id, option) in options.enumerate() {
            option.serialization_id = id;
        }""", """        let mut next = 0;
        for category in &mut categories {
            for option in &mut category.options {
                option.serialization_id = next;
                next += 1;
            }
        }"""))
edit("category-read-id-after",
     (K, """            let serialization_id = *next_serialization_id;
            *next_serialization_id += 1;

            input = new_input;

            options.push(CategoryOption {
                name,
                content: products,
                serialization_id,
                products_by_serialization_id: product_ids.into_iter().collect(),
            });""", """            options.push(CategoryOption {
                name,
                content: products,
                serialization_id: *next_serialization_id,
                products_by_serialization_id: product_ids.into_iter().collect(),
            });
            *next_serialization_id += 1;
            input = new_input;"""))
edit("option-contains-any",
     (K, """        // Insert if not added
        if self
            .products_by_serialization_id
            .insert(product.serialization_id)
        {
            self.content.push(product);
        }""", """        let id = product.serialization_id;
        let added = self.products_by_serialization_id.insert(id);
        if !added {
            return;
        }
        self.content.push(product);"""))

P = "src/data/product.rs"
edit("product-eq-lengths",
     (P, """        match (self.description.len(), other.description.len()) {
            (0, 1..) | (1.., 0) => return false,
            (my_len, other_len) if my_len > other_len => {
                if self.description.starts_with(&other.description) == false {
                    return false;
                }
            }
            (my_len, other_len) if my_len < other_len => {
                if other.description.starts_with(&self.description) == false {
                    return false;
                }
            }
            _ => {
                if self.description != other.description {
                    return false;
                }
            }
        }
""", """        let (mine, theirs) = (self.description.as_str(), other.description.as_str());
        if mine.is_empty() != theirs.is_empty() {
            return false;
        }
        if !mine.starts_with(theirs) && !theirs.starts_with(mine) {
            return false;
        }
"""))
edit("product-read-vendor",
     (P, "let vendor = *vendors.by_id.get(vendor_id)?;", "let vendor = vendors.by_id.get(vendor_id).copied()?;"))
edit("product-ids-iter",
     (P, """        let mut products = Vec::with_capacity(product_ids.len());
        for id in &product_ids {
            let product = existing_products.get(*id)?;
            products.push(product);
        }
""", """        let products = product_ids
            .iter()
            .map(|id| existing_products.get(*id))
            .collect::<Option<Vec<_>>>()?;
"""))

S = "src/serialize/collections.rs"
edit("limit-find-last",
     (S, """            // Then we return either the last viable candidate, or now
            return match last_candidate {
                Some(viable) => &input[0..viable],
                None => &input[0..offset],
            };""", """            // Then we return either the last viable candidate, or now
            let end = last_candidate.unwrap_or(offset);
            return &input[..end];"""))
edit("string-read-take",
     (S, """        let bytes = input.get(..len)?;
        let string = String::from_utf8(bytes.to_vec()).ok()?;
        Some((&input[len..], string))""", """        if len > input.len() {
            return None;
        }
        let (bytes, rest) = input.split_at(len);
        match String::from_utf8(bytes.to_vec()) {
            Ok(string) => Some((rest, string)),
            Err(_) => None,
        }"""))
edit("string-read-str",
     (S, """        let string = String::from_utf8(bytes.to_vec()).ok()?;
        Some((&input[len..], string))""", """        let string = std::str::from_utf8(bytes).ok()?.to_owned();
        Some((&input[len..], string))"""))
edit("array-read-index",
     (S, """        let mut out = [T::default(); N];
        for position in out.iter_mut().take(len) {
            let (new_input, item) = T::deserialize(input)?;
            input = new_input;
            *position = item;
        }
        Some((input, out))
    }
}

impl<T: Default + Deserializable + Copy, const N: usize> Deserializable for [T; N] {""", """        let mut out = [T::default(); N];
        for position in 0..N {
            let (new_input, item) = T::deserialize(input)?;
            input = new_input;
            out[position] = item;
        }
        Some((input, out))
    }
}

impl<T: Default + Deserializable + Copy, const N: usize> Deserializable for [T; N] {"""))

A = "src/serialize/all_indexes.rs"
edit("all-read-question",
     (A, """    let (input, ngram) = GramIndex::deserialize(input, node_arena, super_alloc)?;
    let (_, classic) = ClassicIndexes::deserialize(input, ngram.product_container)?;

    Some((ngram, classic))""", """    let (rest, ngram) = GramIndex::deserialize(input, node_arena, super_alloc)?;
    ClassicIndexes::deserialize(rest, ngram.product_container).map(|(_, classic)| (ngram, classic))"""))
