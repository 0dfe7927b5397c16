"""Edits of /repo that keep its behaviour, fourth batch: names changed, helpers inlined or given other parameters, larger rewrites."""
from edits import edit

IDX = "src/ngram/index.rs"
IXR = "src/ngram/indexer.rs"
CAT = "src/classic_indexes/categorical.rs"
TAG = "src/classic_indexes/tag.rs"
ORD = "src/classic_indexes/order.rs"
VEN = "src/data/vendor.rs"
RAW = "src/data/raw_parser.rs"
COL = "src/serialize/collections.rs"
NOD = "src/serialize/nodes.rs"
LIB = "src/lib.rs"
CH = "src/js_interactable/category_handler.rs"
TH = "src/js_interactable/tag_handler.rs"
FF = "src/js_interactable/feature_filter.rs"
PP = "src/js_interactable/product_producer.rs"

# -- names
for old, new in (("search_gram", "closest_gram"), ("recursive_search", "search_below"), ("immutalize", "freeze"), ("occurances_to_weight", "weight_of"),
                 ("limit_string_len", "clip"), ("serialize_string_with_limit", "write_clipped"), ("index_and_serialize_with_n", "build_with_window"),
                 ("add_custom_cmp", "add_order_by"), ("export_data_by_confidence", "ranked"), ("get_or_insert", "obtain"), ("add_float", "put_float"),
                 ("add_string", "put_string"), ("index_from", "build_from"), ("deserialize_node", "read_node"), ("serialize_node", "write_node"),
                 ("to_intermediate", "split_raw"), ("get_orders", "order_named"), ("deserialize_from_sequential_ids", "read_by_ids"),
                 ("serialize_to_sequential_array", "write_ids"), ("get_js", "js_value_of"), ("deserialize_many", "read_all"),
                 ("get_value", "property"), ("InnerMutableGramNode", "NodeState"), ("MutableGramNode", "GrowingNode"), ("ResultRanker", "Ranking"),
                 ("FilterData", "Bounds"), ("IntermediateRawProduct", "SplitProduct"), ("HashExtractable", "Keyed"), ("GramAtom", "Letter"),
                 ("by_occurances", "by_popularity"), ("occurances", "count"), ("products_by_serialization_id", "members"), ("option_observers", "observers_by_option"),
                 ("general_observers", "observers_of_all"), ("extra_features", "columns"), ("product_container", "catalogue"), ("deserialize_all", "read_indexes"),
                 ("serialize_all", "write_indexes"), ("ProductContainer", "Catalogue"), ("SuperAlloc", "Keeper"), ("ExportCategoryOption", "ExportCategoryOption")):
    pat = r"\b%s\b" % old if old != "get_orders" else r"(?<=order\.)get_orders\b|(?<=pub fn )get_orders(?=\(&)"
    if old != new:
        edit("name-" + old.replace("_", "-").lower(), ("*", pat, new))
edit("name-option-add", (CAT, "pub fn add(", "pub fn add_product("), (CAT, "option.add(", "option.add_product("))
edit("name-option-contains", (CAT, "pub fn contains(", "pub fn has_product("), (CH, "option.contains(", "option.has_product("))
edit("name-category-new", (CAT, "pub fn new(name: String) ->", "pub fn empty(name: String) ->"), (CAT, "Category::new(", "Category::empty("))
edit("name-ranker-add", ("src/ngram/result_ranker.rs", "pub fn add<", "pub fn note<"), ("src/ngram/index.rs", "results.add(", "results.note("))
edit("name-vendor-insert", (VEN, "pub fn insert(", "pub fn register("), (RAW, "vendors.insert(", "vendors.register("))
edit("name-overlap", (LIB, "fn overlap(", "fn similarity("), (LIB, "= overlap(tag", "= similarity(tag"))
edit("name-keys", ("*", r"\bkeys\(\) *->|item\.keys\(\)|option\.keys\(\)|pub fn keys\(&self\) ->", lambda m: m.group(0).replace("keys", "address")))

# -- helpers moved
OVER = open("/repo/" + LIB).read()
OVER = OVER[OVER.index("    fn overlap("):OVER.index("    let read_lock = SHARED_CLASSIC_INDEX.lock().unwrap();\n\n    let index = read_lock.as_ref()?;\n\n    let mut most_likely")]
edit("move-overlap", (LIB, OVER, ""), (LIB, "// Simple string match to find likely tags", OVER + "\n// Simple string match to find likely tags"))
GETV = """        fn get_value(object: &JsValue, key: &str) -> Option<JsValue> {
            let v = js_sys::Reflect::get(object, &key.to_string().into()).ok()?;
            Some(v)
        }
"""
edit("move-get-value", (FF, GETV, ""), (FF, "impl FeatureFilter {", GETV + "\nimpl FeatureFilter {"))
LIMIT = open("/repo/" + COL).read()
LIMIT = LIMIT[LIMIT.index("fn limit_string_len"):LIMIT.index("pub fn serialize_string_with_limit")]
edit("move-limit", (COL, LIMIT, ""), ("src/serialize/primitives.rs", "impl Serializable for u64 {", "pub(super) " + LIMIT + "impl Serializable for u64 {"),
     (COL, "limit_string_len(input, max_len)", "super::primitives::limit_string_len(input, max_len)"), (COL, "'{}'\", limit_string_len", "'{}'\", super::super::primitives::limit_string_len"))
edit("move-weight", (IXR, """#[allow(clippy::cast_precision_loss)]
fn occurances_to_weight(total: u32, this: u32) -> f32 {
    (this as f32) / (total as f32)
}
""", ""), (IXR, "weight: occurances_to_weight(parent_occurances, me.occurances),", "weight: me.occurances as f32 / parent_occurances as f32,"))

# -- helpers inlined
edit("inline-option-contains", (CAT, """    pub fn contains(&self, product: &Product<'_>) -> bool {
        self.products_by_serialization_id
            .contains(&product.serialization_id)
    }
""", ""), (CAT, "    products_by_serialization_id: AHashSet<usize>,", "    pub products_by_serialization_id: AHashSet<usize>,"),
     (CH, "if option.contains(product) == false {", "if !option.products_by_serialization_id.contains(&product.serialization_id) {"))
edit("inline-option-add", (CAT, """    pub fn add(&mut self, product: &'a Product) {
        // Insert if not added
        if self
            .products_by_serialization_id
            .insert(product.serialization_id)
        {
            self.content.push(product);
        }
    }
""", ""), (CAT, "                    option.add(&container.products[i]);", """                    let product = &container.products[i];
                    if option.products_by_serialization_id.insert(product.serialization_id) {
                        option.content.push(product);
                    }
"""))
edit("inline-option-new", (CAT, """    pub fn new(name: String, serialization_id: usize) -> CategoryOption<'a> {
        CategoryOption {
            name,
            content: Vec::new(),
            products_by_serialization_id: AHashSet::new(),
            serialization_id,
        }
    }
""", ""), (CAT, "let new = CategoryOption::new(raw_value.to_string(), 0);", """let new = CategoryOption {
                                name: raw_value.to_string(),
                                content: Vec::new(),
                                products_by_serialization_id: AHashSet::new(),
                                serialization_id: 0,
                            };"""))
edit("inline-category-new", (CAT, """    pub fn new(name: String) -> Category<'a> {
        Category {
            name,
            options: Vec::new(),
            exclusive: false,
        }
    }
""", ""), (CAT, "Category::new(raw_option.name.to_string())", "Category { name: raw_option.name.to_string(), options: Vec::new(), exclusive: false }"))
edit("inline-search-gram", (IDX, """            let (ngram, confidence) = match self.search_gram(ngram) {
                Some(v) => v,
                None => continue,
            };
""", """            let root_node = match self.roots.get(&ngram[0]) {
                Some(v) => v,
                None => continue,
            };
            let mut previous = [G::default(); N];
            previous[0] = ngram[0];
            let changes_limit = u8::try_from(N / 3).unwrap();
            let found =
                Self::recursive_search(&ngram[1..], root_node, None, 0, changes_limit, 1.0, previous, 1);
            let (ngram, confidence) = match found {
                Some(v) => v,
                None => continue,
            };
"""), (IDX, """    pub fn search_gram(&self, query: [G; N]) -> Option<([G; N], f32)> {
        let root_node = self.roots.get(query.get(0)?)?;
        let mut previous = [G::default(); N];
        previous[0] = query[0];
        let changes_limit = u8::try_from(N / 3).unwrap();
        Self::recursive_search(
            &query[1..],
            root_node,
            None,
            0,
            changes_limit,
            1.0,
            previous,
            1,
        )
    }
""", ""))
edit("inline-keys", (CH, """    pub fn keys(&self) -> (usize, usize) {
        let ExportCategoryOption {
            cat_id, option_id, ..
        } = self;
        (*cat_id, *option_id)
    }
""", ""), ("*", r"(item|option)\.keys\(\)", r"(\1.cat_id, \1.option_id)"))
edit("inline-intermediate-vendor", (RAW, "vendors.insert(product.vendor);", "vendors.get_or_insert(product.vendor);"),
     (VEN, "pub fn get_or_insert(&'a mut self, name: &str)", "pub fn get_or_insert(&mut self, name: &str)"),
     (VEN, """    pub fn insert(&mut self, name: &str) {
        if self.tags.contains_key(name) {
            return;
        }
        let id = self.tags.len();
        let new_tag = &*self.alloc.alloc(Vendor {
            name: name.to_string(),
            id,
        });
        self.tags.insert(&new_tag.name, new_tag);
        self.by_id.push(new_tag);
    }
""", ""))
edit("inline-tag-get-id", (TAG, """    pub fn get_id(&self) -> usize {
        self.id
    }
""", ""), (TAG, "    id: usize,\n}", "    pub id: usize,\n}"), (LIB, "tag.get_id(), keyword))\n                    }", "tag.id, keyword))\n                    }"),
     (LIB, "None => Some((overlap, tag.get_id(), keyword)),", "None => Some((overlap, tag.id, keyword)),"),
     ("src/js_interactable/tag_handler.rs", "unwrap().get_id()", "unwrap().id"))
edit("inline-classic-new", (RAW, "(out, ClassicIndexes::new(categories, tag_index, order))", "(out, ClassicIndexes { categories, tags: tag_index, order })"))
edit("inline-jstag-new", (LIB, "tag: js_interactable::JSTag::new(index.clone(), tag_id),", "tag: js_interactable::JSTag::new(Arc::clone(index), tag_id),"))
edit("inline-vendor-get", (RAW, "let my_vendor = out.vendors.get(vendor).unwrap();", "let my_vendor = out.vendors.get(vendor).expect(\"every vendor was inserted above\");"))
edit("inline-best-result", (IDX, "most_likely = best_result(best_result(found, repeat_found), most_likely);", """let found = best_result(found, repeat_found);
                most_likely = best_result(found, most_likely);"""))

# -- parameters changed
edit("walk-no-limit-parameter", (IDX, """            None,
            0,
            changes_limit,
            1.0,
            previous,
            1,
        )
    }

    #[allow(clippy::too_many_arguments)]
    fn recursive_search(
        input: &[G],
        node: &GramNode<'_, G>,
        previous_node: Option<&GramNode<'_, G>>,
        changes: u8,
        changes_limit: u8,
""", """            None,
            0,
            1.0,
            previous,
            1,
        )
    }

    #[allow(clippy::too_many_arguments)]
    fn recursive_search(
        input: &[G],
        node: &GramNode<'_, G>,
        previous_node: Option<&GramNode<'_, G>>,
        changes: u8,
"""), (IDX, "        let changes_limit = u8::try_from(N / 3).unwrap();\n", ""),
     (IDX, "        if index == N {\n            return Some((previous_input, cummulative_weight));", "        let changes_limit = u8::try_from(N / 3).unwrap();\n        if index == N {\n            return Some((previous_input, cummulative_weight));"),
     ("*", r"changes,\s+changes_limit,\s+cumm", "changes,\n cumm"), ("*", r"changes \+ 1,\s+changes_limit,\s+cumm", "changes + 1,\n cumm"))
edit("overlap-no-min", (LIB, "fn overlap(original: &str, other: &str, min_len: usize) -> f32 {", "fn overlap(original: &str, other: &str) -> f32 {\n        const MIN_LEN: usize = 3;"),
     (LIB, "if min_len_found < min_len {", "if min_len_found < MIN_LEN {"), (LIB, "overlap(tag.name.as_str(), keyword, 3)", "overlap(tag.name.as_str(), keyword)"))
edit("overlap-swapped", (LIB, "fn overlap(original: &str, other: &str, min_len: usize)", "fn overlap(other: &str, original: &str, min_len: usize)"),
     (LIB, "overlap(tag.name.as_str(), keyword, 3)", "overlap(keyword, tag.name.as_str(), 3)"))
edit("limit-swapped", (COL, "fn limit_string_len(input: &str, max_len: usize)", "fn limit_string_len(max_len: usize, input: &str)"),
     (COL, "limit_string_len(input, max_len)", "limit_string_len(max_len, input)"),
     ("*", r"limit_string_len\(str, 12\)", "limit_string_len(12, str)"))
edit("option-new-no-id", (CAT, "pub fn new(name: String, serialization_id: usize) -> CategoryOption<'a> {", "pub fn new(name: String) -> CategoryOption<'a> {"),
     (CAT, "            serialization_id,\n        }\n    }\n\n    pub fn add", "            serialization_id: 0,\n        }\n    }\n\n    pub fn add"),
     (CAT, "CategoryOption::new(raw_value.to_string(), 0)", "CategoryOption::new(raw_value.to_string())"))
edit("option-add-id", (CAT, "pub fn contains(&self, product: &Product<'_>) -> bool {\n        self.products_by_serialization_id\n            .contains(&product.serialization_id)", "pub fn contains(&self, product: usize) -> bool {\n        self.products_by_serialization_id\n            .contains(&product)"),
     (CH, "option.contains(product)", "option.contains(product.serialization_id)"))
edit("tag-contains-id", (TAG, "pub fn contains(&self, product: &Product<'_>) -> bool {\n        self.products_by_serialization_id\n            .contains(&product.serialization_id)", "pub fn contains(&self, product: usize) -> bool {\n        self.products_by_serialization_id\n            .contains(&product)"),
     (TH, ".contains(product)", ".contains(product.serialization_id)"))
edit("category-new-str", (CAT, "pub fn new(name: String) -> Category<'a> {\n        Category {\n            name,", "pub fn new(name: &str) -> Category<'a> {\n        Category {\n            name: name.to_string(),"),
     (CAT, "Category::new(raw_option.name.to_string())", "Category::new(raw_option.name)"))
edit("node-new-first", (IXR, "pub fn new(item: G, occurances: u32) -> Self {", "pub fn first(item: G) -> Self {"), (IXR, "            occurances,\n            items: AHashMap::new(),", "            occurances: 1,\n            items: AHashMap::new(),"),
     ("*", r"MutableGramNode::new\(gram, 1\)", "MutableGramNode::first(gram)"))
edit("weight-swapped", (IXR, "fn occurances_to_weight(total: u32, this: u32)", "fn occurances_to_weight(this: u32, total: u32)"), (IXR, "occurances_to_weight(parent_occurances, me.occurances)", "occurances_to_weight(me.occurances, parent_occurances)"))
edit("node-depth-left", (NOD, "deserialize_node(input, arena, 0)", "deserialize_node(input, arena, MAX_NODE_DEPTH)"), (NOD, "    depth: usize,", "    depth_left: usize,"),
     (NOD, "if depth >= MAX_NODE_DEPTH {", "if depth_left == 0 {"), (NOD, "deserialize_node(input, arena, depth + 1)", "deserialize_node(input, arena, depth_left - 1)"))
edit("suggest-tuple-struct", (LIB, """// Simple string match to find likely tags
""", """struct Candidate<'q> {
    overlap: f32,
    tag_id: usize,
    keyword: &'q str,
}

// Simple string match to find likely tags
"""), (LIB, "let mut most_likely: Option<(f32, usize, &str)> = None;", "let mut most_likely: Option<Candidate<'_>> = None;"),
     (LIB, """                most_likely = match most_likely {
                    Some((current, _, _)) if overlap > current => {
                        Some((overlap, tag.get_id(), keyword))
                    }
                    None => Some((overlap, tag.get_id(), keyword)),
                    current => current,
                }
""", """                let better = most_likely.as_ref().map_or(true, |c| overlap > c.overlap);
                if better {
                    most_likely = Some(Candidate { overlap, tag_id: tag.get_id(), keyword });
                }
"""), (LIB, """    most_likely.map(|(_, tag_id, input)| TagSuggestionResult {
        tag: js_interactable::JSTag::new(index.clone(), tag_id),
        input: input.to_string(),
    })""", """    most_likely.map(|c| TagSuggestionResult {
        tag: js_interactable::JSTag::new(index.clone(), c.tag_id),
        input: c.keyword.to_string(),
    })"""))
edit("walk-state-struct", (IDX, """            let (ngram, confidence) = match self.search_gram(ngram) {
                Some(v) => v,
                None => continue,
            };
            let data = match self.data.get(&ngram) {
                Some(v) => v,
                None => continue,
            };
            for data in data {
                results.add(*data, confidence);
            }
""", """            self.collect_matches(ngram, &mut results);
"""), (IDX, """    /*
    For the current step in the tree:""", """    fn collect_matches<'s>(&'s self, window: [G; N], results: &mut ResultRanker<'s, Data::Inner, Data>) {
        if let Some((gram, confidence)) = self.search_gram(window) {
            if let Some(matches) = self.data.get(&gram) {
                for item in matches {
                    results.add(*item, confidence);
                }
            }
        }
    }

    /*
    For the current step in the tree:"""))
edit("optimize-helpers", (RAW, """    let mut order = OrderIndex::new();
    // Alphabetical
    order.add(out, &|product, _| &product.title, "Alphabetical".to_owned());
""", """    let mut order = OrderIndex::new();
    add_alphabetical(&mut order, out);
"""), (RAW, """        // We add the data from the "other"
        for (key, value) in other_string {
            let key = super_alloc.alloc(key.to_string());
            out.extra_features.add_string(key, value.to_string());
        }
        for (key, value) in other_numeric {
            let key = super_alloc.alloc(key.to_string());
            out.extra_features.add_float(key, value);
        }
""", """        add_features(&mut out.extra_features, other_string, other_numeric, super_alloc);
"""), (RAW, "pub fn optimize(", """fn add_alphabetical(order: &mut OrderIndex, products: &'static ProductContainer<'static>) {
    order.add(products, &|product, _| &product.title, "Alphabetical".to_owned());
}

fn add_features(
    features: &mut FeatureSet,
    strings: AHashMap<&str, &str>,
    numbers: AHashMap<&str, f32>,
    super_alloc: &'static SuperAlloc,
) {
    for (key, value) in strings {
        let key = super_alloc.alloc(key.to_string());
        features.add_string(key, value.to_string());
    }
    for (key, value) in numbers {
        let key = super_alloc.alloc(key.to_string());
        features.add_float(key, value);
    }
}

pub fn optimize("""))
edit("optimize-price-orders", (RAW, """    order.add_custom_cmp(
        out,
        &|product, extra| match extra.get(product, "price") {
            Some(FeatureValue::Float(v)) => v,
            _ => panic!("Only expected price as float"),
        },
        &|a: &f32, b: &f32| a.total_cmp(b),
        "Price low to high".to_owned(),
    );
    order.add_custom_cmp(
        out,
        &|product, extra| match extra.get(product, "price") {
            Some(FeatureValue::Float(v)) => v,
            _ => panic!("Only expected price as float"),
        },
        &|a: &f32, b: &f32| b.total_cmp(a),
        "Price high to low".to_owned(),
    );
""", """    order.add_custom_cmp(out, &price_of, &|a: &f32, b: &f32| a.total_cmp(b), "Price low to high".to_owned());
    order.add_custom_cmp(out, &price_of, &|a: &f32, b: &f32| b.total_cmp(a), "Price high to low".to_owned());
"""), (RAW, "pub fn optimize(", """fn price_of(product: &Product<'_>, features: &FeatureSet) -> f32 {
    match features.get(product, "price") {
        Some(FeatureValue::Float(v)) => v,
        _ => panic!("Only expected price as float"),
    }
}

pub fn optimize("""))
edit("build-feed-helper", (LIB, """    let iter = prods.products.iter().map(|p| {
        let Product {
            description,
            title,
            vendor,
            ..
        } = p;

        IndexFeed {
            data: p,
            grams: [description, title, &vendor.name]
                .into_iter()
                .flat_map(|s| s.chars())
                .flat_map(char::to_lowercase),
        }
    });
""", """    let iter = prods.products.iter().map(feed);
"""), (LIB, "pub fn index_and_serialize_with_n<", """fn feed<'p>(product: &'p Product<'p>) -> IndexFeed<'p, char, impl Iterator<Item = char> + Clone + 'p, Product<'p>> {
    let texts: [&'p str; 3] = [&product.description, &product.title, &product.vendor.name];
    IndexFeed {
        data: product,
        grams: texts.into_iter().flat_map(str::chars).flat_map(char::to_lowercase),
    }
}

pub fn index_and_serialize_with_n<"""))
edit("toggle-notify-helper", (CH, """        let observers_for_this_option = self
            .option_observers
            .get(&item.keys())
            .map_or(&[][..], |vec| &vec[..])
            .iter();

        let all_observers = observers_for_this_option.chain(self.general_observers.iter());

        let new_js_state = JsValue::from(new_state);

        for observer in all_observers {
            if let Err(e) = observer.call1(&JsValue::UNDEFINED, &new_js_state) {
                println!("Failed to call handler with error: {:?}", e);
            }
        }
""", """        let state = JsValue::from(new_state);
        if let Some(observers) = self.option_observers.get(&item.keys()) {
            Self::tell(observers, &state);
        }
        Self::tell(&self.general_observers, &state);
"""), (CH, "impl CategoryHandler {\n    pub fn new(", """impl CategoryHandler {
    fn tell(observers: &[js_sys::Function], state: &JsValue) {
        for observer in observers {
            if let Err(e) = observer.call1(&JsValue::UNDEFINED, state) {
                println!("Failed to call handler with error: {:?}", e);
            }
        }
    }

    pub fn new("""))
edit("filter-value-helper", ("*", r"feature\.get_js\(p, &self\.feature\)\.and_then\(\|j\| j\.as_f64\(\)\)", "self.number(p, feature)"),
     (FF, "    pub fn filter<'a>(", """    fn number(&self, product: &Product<'_>, feature: &FeatureSet) -> Option<f64> {
        feature.get_js(product, &self.feature)?.as_f64()
    }

    pub fn filter<'a>("""))
edit("index-step-method", (IXR, """                let root_node = root
                    .entry(gram)
                    .and_modify(|node| {
                        node.0.borrow_mut().occurances += 1;
                    })
                    .or_insert_with(|| MutableGramNode::new(gram, 1))
                    .clone();
""", """                let root_node = count(&mut root, gram);
"""), (IXR, """                    let child_node = gram_node
                        .0
                        .borrow_mut()
                        .items
                        .entry(gram)
                        .and_modify(|node| {
                            node.0.borrow_mut().occurances += 1;
                        })
                        .or_insert_with(|| MutableGramNode::new(gram, 1))
                        .clone();
""", """                    let child_node = count(&mut gram_node.0.borrow_mut().items, gram);
"""), (IXR, "impl<'a, G: GramAtom, Data: Ord, const N: usize> GramIndex", """fn count<G: GramAtom>(nodes: &mut AHashMap<G, MutableGramNode<G>>, gram: G) -> MutableGramNode<G> {
    if let Some(node) = nodes.get(&gram) {
        node.0.borrow_mut().occurances += 1;
        return node.clone();
    }
    let node = MutableGramNode::new(gram, 1);
    nodes.insert(gram, node.clone());
    node
}

impl<'a, G: GramAtom, Data: Ord, const N: usize> GramIndex"""))
edit("index-window-struct", (IXR, """                for i in 1..N {
                    lookback[i - 1] = lookback[i];
                }
                lookback[N - 1] = gram;
""", """                shift_in(&mut lookback, gram);
"""), (IXR, "impl<'a, G: GramAtom, Data: Ord, const N: usize> GramIndex", """fn shift_in<G: Copy, const N: usize>(window: &mut [G; N], gram: G) {
    for i in 1..N {
        window[i - 1] = window[i];
    }
    window[N - 1] = gram;
}

impl<'a, G: GramAtom, Data: Ord, const N: usize> GramIndex"""))
edit("index-cutoff-early", (IXR, """        let products_amount = product_container.products.len();
        #[allow(clippy::cast_precision_loss)]
        let maximum_product_amount = (products_amount as f32) * DATA_CUTOFF_PERCENTAGE;
        #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]
        let maximum_product_amount = maximum_product_amount as usize;
        data_map.retain(|_, data| data.len() < maximum_product_amount);

        // We also sort the data for easier access later
        for (_, data) in data_map.iter_mut() {
            data.sort();
        }
""", """        let cutoff = (product_container.products.len() as f32 * DATA_CUTOFF_PERCENTAGE) as usize;
        data_map.retain(|_, data| {
            let keep = data.len() < cutoff;
            if keep {
                data.sort();
            }
            keep
        });
"""))
