"""Behaviour-preserving edits, fifth batch: rewrites in another hand."""
from edits import edit
from edits4 import *

COLS = "src/serialize/collections.rs"
PRI = "src/serialize/primitives.rs"
SEQ = "src/serialize/sequential_array.rs"
PRO = "src/data/product.rs"
ORD = "src/classic_indexes/order.rs"
NOD = "src/serialize/nodes.rs"
CON = "src/data/container.rs"
FEA = "src/data/features.rs"
PP = "src/js_interactable/product_producer.rs"
TH = "src/js_interactable/tag_handler.rs"
ALL = "src/serialize/all_indexes.rs"

# -- serialisation
edit("limit-break-point", (COLS, "        if char == ' ' && offset > 0 {\n", "        if is_break_point(offset, char) {\n"),
     (COLS, "fn limit_string_len(", "fn is_break_point(offset: usize, letter: char) -> bool {\n    letter == ' ' && offset != 0\n}\n\nfn limit_string_len("))
edit("limit-cut-variable", (COLS, """            return match last_candidate {
                Some(viable) => &input[0..viable],
                None => &input[0..offset],
            };
""", """            let cut = last_candidate.unwrap_or(offset);
            return &input[..cut];
"""))
edit("limit-two-passes", (COLS, """    let mut last_candidate = None;
    for (offset, char) in input.char_indices() {
        if offset > max_len {
            // Then we return either the last viable candidate, or now
            return match last_candidate {
                Some(viable) => &input[0..viable],
                None => &input[0..offset],
            };
        }
        // A space at the start would leave nothing
        if char == ' ' && offset > 0 {
            last_candidate = Some(offset);
        }
    }
    input
""", """    let end = match input.char_indices().map(|(offset, _)| offset).find(|offset| *offset > max_len) {
        Some(end) => end,
        None => return input,
    };
    let mut cut = end;
    for (offset, letter) in input.char_indices() {
        if offset >= end {
            break;
        }
        if letter == ' ' && offset > 0 {
            cut = offset;
        }
    }
    &input[..cut]
"""))
edit("idlist-delta-fn", (SEQ, """        let to_serialize = match previous {
            Some(previous) => item - previous,
            None => item,
        };

        to_serialize.serialize(output);
""", """        delta(previous, item).serialize(output);
"""), (SEQ, "pub fn serialize<T, I, Out", """fn delta<T: std::ops::Sub<Output = T>>(previous: Option<T>, item: T) -> T {
    match previous {
        Some(previous) => item - previous,
        None => item,
    }
}

pub fn serialize<T, I, Out"""))
edit("idlist-undelta-fn", (SEQ, """        let item = match previous {
            Some(previous) => parsed.checked_add(previous)?,
            None => parsed,
        };
""", """        let item = undelta(previous, parsed)?;
"""), (SEQ, "pub fn deserialize(", """fn undelta(previous: Option<usize>, difference: usize) -> Option<usize> {
    previous.map_or(Some(difference), |previous| previous.checked_add(difference))
}

pub fn deserialize("""))
edit("idlist-read-while", (SEQ, "    for _ in 0..len {\n", "    while output.len() < len {\n"))
edit("u64-read-last-byte", (PRI, """            out >>= 1;
            if *input.get(0)? == 1 {
                out |= 0b1000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000;
            }
            input = &input[1..];
            Some((input, out))
""", """            let (last, rest) = input.split_first()?;
            let top = if *last == 1 { 1u64 << 63 } else { 0 };
            Some((rest, (out >> 1) | top))
"""))
edit("u64-read-dead-check", (PRI, """            if eaten > 10 {
                return None;
            }
""", ""))
edit("u64-write-do", (PRI, """        let mut input = *self;
        loop {
            // We get 7 lowest bits
            #[allow(clippy::cast_possible_truncation)]
            let to_encode = (input as u8) & 0b0111_1111;
            input >>= 7;
            // If input is now 0, this was the last significant byte, and none follow
            if input == 0 {
                output(to_encode);
                break;
            }
            // Theres a following bit
            output(to_encode | 0b1000_0000);
        }
""", """        let mut rest = *self;
        while rest > 0x7f {
            #[allow(clippy::cast_possible_truncation)]
            output((rest as u8) | 0x80);
            rest >>= 7;
        }
        #[allow(clippy::cast_possible_truncation)]
        output(rest as u8);
"""))
edit("string-read-checked", (COLS, """        let bytes = input.get(..len)?;
        let string = String::from_utf8(bytes.to_vec()).ok()?;
        Some((&input[len..], string))
""", """        if len > input.len() {
            return None;
        }
        let (bytes, rest) = input.split_at(len);
        match std::str::from_utf8(bytes) {
            Ok(text) => Some((rest, text.to_owned())),
            Err(_) => None,
        }
"""))
edit("node-read-child-map", (NOD, """    let items = by_occurances.iter().fold(AHashMap::new(), |mut map, item| {
        map.insert(item.item, *item);
        map
    });
""", """    let items: AHashMap<_, _> = by_occurances.iter().map(|child: &&'arena GramNode<'arena, G>| (child.item, *child)).collect();
"""))
edit("index-read-entry-fn", (NOD, """            let (next_input, gram) = <[G; N]>::deserialize(input)?;
            let (next_input, products, _) =
                Product::deserialize_from_sequential_ids(next_input, &container.products)?;
            input = next_input;
            data.insert(gram, products);
""", """            let window: [G; N];
            (input, window) = Deserializable::deserialize(input)?;
            let (after, products, _ids) =
                Product::deserialize_from_sequential_ids(input, &container.products)?;
            data.insert(window, products);
            input = after;
"""))
edit("all-read-and-then", (ALL, """    let (input, ngram) = GramIndex::deserialize(input, node_arena, super_alloc)?;
    let (_, classic) = ClassicIndexes::deserialize(input, ngram.product_container)?;

    Some((ngram, classic))
""", """    GramIndex::deserialize(input, node_arena, super_alloc).and_then(|(rest, ngram)| {
        let container = ngram.product_container;
        ClassicIndexes::deserialize(rest, container).map(|(_, classic)| (ngram, classic))
    })
"""))
edit("container-read-loop-out", (CON, """        let (mut input, product_count) = usize::deserialize(input)?;
        let (input, products) = {
            let mut products = Vec::new();
            for id in 0..product_count {
                let (new_input, product) = Product::deserialize(input, id, &vendors)?;
                products.push(product);
                input = new_input;
            }
            (input, products)
        };
""", """        let (mut input, product_count) = usize::deserialize(input)?;
        let mut products = Vec::new();
        while products.len() < product_count {
            let (rest, product) = Product::deserialize(input, products.len(), &vendors)?;
            input = rest;
            products.push(product);
        }
"""))

# -- products
edit("product-eq-prefix", (PRO, """        match (self.description.len(), other.description.len()) {
            (0, 1..) | (1.., 0) => return false,
            (my_len, other_len) if my_len > other_len => {
                if self.description.starts_with(&other.description) == false {
                    return false;
                }
            }
            (my_len, other_len) if my_len < other_len => {
                if other.description.starts_with(&self.description) == false {
                    return false;
                }
            }
            _ => {
                if self.description != other.description {
                    return false;
                }
            }
        }

        self.title == other.title
""", """        let (short, long) = if self.description.len() <= other.description.len() {
            (&self.description, &other.description)
        } else {
            (&other.description, &self.description)
        };
        if short.is_empty() != long.is_empty() {
            return false;
        }
        if !long.starts_with(short.as_str()) {
            return false;
        }

        self.title == other.title
"""))
edit("product-ids-map", (PRO, """        let mut products = Vec::with_capacity(product_ids.len());
        for id in &product_ids {
            let product = existing_products.get(*id)?;
            products.push(product);
        }

        Some((input, products, product_ids))
""", """        let products: Option<Vec<&'a Product<'a>>> = product_ids.iter().map(|id| existing_products.get(*id)).collect();
        products.map(|products| (input, products, product_ids))
"""))
edit("features-column-fn", (FEA, """        #[allow(clippy::cast_possible_truncation)]
        let id = product.serialization_id;
        Some(match self.0.get(key)? {
            Feature::String(list) => FeatureValue::String(list.get(id)?),
            Feature::Float(list) => FeatureValue::Float(*list.get(id)?),
            Feature::Integer(list) => FeatureValue::Integer(*list.get(id)?),
        })
""", """        let column = self.get_feature(key)?;
        column.get(product.serialization_id)
"""))
edit("feature-get-map", (FEA, """            Feature::Float(list) => {
                let item = *list.get(index)?;
                Some(FeatureValue::Float(item))
            }
""", """            Feature::Float(list) => list.get(index).copied().map(FeatureValue::Float),
"""))

# -- classic indexes
edit("order-ranks-fn", (ORD, """        let mut order: Vec<usize> = vec![0; data_and_id.len()];

        // We can then use data_serials order since that is the order these products should be sorted after
        #[allow(clippy::cast_possible_truncation)]
        for (order_position, (_, serialization_id)) in data_and_id.into_iter().enumerate() {
            order[serialization_id] = order_position;
        }

        self.orders.insert(key, order);
""", """        let ids = data_and_id.into_iter().map(|(_, id)| id).collect();
        self.orders.insert(key, ranks(ids));
"""), (ORD, "impl OrderIndex {\n", """// The place of every id in the list
fn ranks(ids: Vec<usize>) -> Vec<usize> {
    let mut out = vec![0; ids.len()];
    for (place, id) in ids.into_iter().enumerate() {
        out[id] = place;
    }
    out
}

impl OrderIndex {
"""))
edit("category-find-fn", (CAT, """                let category = match categories.iter_mut().find(|c| c.name == raw_option.name) {
                    Some(v) => v,
                    None => {
                        let new = Category::new(raw_option.name.to_string());
                        categories.push(new);
                        let just_inserted = categories.len() - 1;
                        categories.get_mut(just_inserted).unwrap()
                    }
                };
""", """                let at = category_position(&mut categories, raw_option.name);
                let category = &mut categories[at];
"""), (CAT, "impl<'a> CategoryIndex<'a> {\n    pub fn index(", """// The category of this name, which is added when there is none
fn category_position(categories: &mut Vec<Category<'_>>, name: &str) -> usize {
    if let Some(at) = categories.iter().position(|c| c.name == name) {
        return at;
    }
    categories.push(Category::new(name.to_owned()));
    categories.len() - 1
}

impl<'a> CategoryIndex<'a> {
    pub fn index("""))
edit("category-inner-method", (CAT, """                for raw_value in raw_option.values {
                    let option = match category.options.iter_mut().find(|o| o.name == raw_value) {
                        Some(v) => v,
                        None => {
                            let new = CategoryOption::new(raw_value.to_string(), 0);
                            category.options.push(new);
                            let just_inserted = category.options.len() - 1;
                            category.options.get_mut(just_inserted).unwrap()
                        }
                    };

                    option.add(&container.products[i]);
                }
""", """                for raw_value in raw_option.values {
                    category.list(raw_value, &container.products[i]);
                }
"""), (CAT, "    pub fn new(name: String) -> Category<'a> {\n", """    fn list(&mut self, value: &str, product: &'a Product<'a>) {
        if !self.options.iter().any(|o| o.name == value) {
            self.options.push(CategoryOption::new(value.to_string(), 0));
        }
        if let Some(option) = self.options.iter_mut().find(|o| o.name == value) {
            option.add(product);
        }
    }

    pub fn new(name: String) -> Category<'a> {
"""))
edit("tag-write-each", (TAG, """        let tags = &self.0;
        tags.serialize(output);
""", """        self.0.len().serialize(output);
        for tag in &self.0 {
            tag.serialize(output);
        }
"""))
edit("tag-index-map-fold", (TAG, """        for (id, tags) in tags_for_product.into_iter().enumerate() {
            let product = &container.products[id];
            for tag in tags {
""", """        let carried = tags_for_product.into_iter().zip(container.products.iter());
        for (tags, product) in carried {
            for tag in tags {
"""))

# -- handlers
edit("toggle-flip", (TH, """        use std::collections::hash_map::Entry;
        let new_state = match self.active.entry(tag.get_id()) {
            Entry::Occupied(v) => {
                v.remove();
                false
            }
            Entry::Vacant(space) => {
                space.insert(());
                true
            }
        };
""", """        let id = tag.get_id();
        let new_state = !self.active.contains_key(&id);
        if new_state {
            self.active.insert(id, ());
        } else {
            self.active.remove(&id);
        }
"""))
edit("toggle-observers-if-let", (CH, """        let observers_for_this_option = self
            .option_observers
            .get(&item.keys())
            .map_or(&[][..], |vec| &vec[..])
            .iter();

        let all_observers = observers_for_this_option.chain(self.general_observers.iter());

        let new_js_state = JsValue::from(new_state);

        for observer in all_observers {
            if let Err(e) = observer.call1(&JsValue::UNDEFINED, &new_js_state) {
                println!("Failed to call handler with error: {:?}", e);
            }
        }
""", """        let state = JsValue::from(new_state);
        if let Some(own) = self.option_observers.get(&item.keys()) {
            tell(own, &state);
        }
        tell(&self.general_observers, &state);
"""), (CH, "#[wasm_bindgen]\nimpl CategoryHandler {", """fn tell(observers: &[js_sys::Function], state: &JsValue) {
    for observer in observers {
        if let Err(e) = observer.call1(&JsValue::UNDEFINED, state) {
            println!("Failed to call handler with error: {:?}", e);
        }
    }
}

#[wasm_bindgen]
impl CategoryHandler {"""))
edit("remove-find-first", (TH, """        for (index, obs) in current_observers.iter().enumerate() {
            if observer == obs {
                current_observers.swap_remove(index);
                return;
            }
        }
""", """        let found = current_observers.iter().position(|own| own == observer);
        if let Some(index) = found {
            current_observers.swap_remove(index);
        }
"""))
edit("category-iter-old", (CH, """        self.handle.categories.get(self.index)?;
        self.index += 1;
        Some(CategoryOptionIter {
            handle: self.handle.clone(),
            index: 0,
            category_index: self.index - 1,
        })
""", """        let category_index = self.index;
        if self.handle.categories.get(category_index).is_none() {
            return None;
        }
        self.index = category_index + 1;
        Some(CategoryOptionIter {
            handle: Arc::clone(&self.handle),
            category_index,
            index: 0,
        })
"""))
edit("producer-next-let", (PP, """        let next_id = *self.to_export.get(self.index)?;
        let container = self.container;
        // Make sure this product exists
        let _ = container.products.get(next_id)?;
        self.index += 1;

        Some(JsProduct {
            container,
            serialization_id: next_id,
        })
""", """        let serialization_id = self.to_export.get(self.index).copied()?;
        // Make sure this product exists
        if serialization_id >= self.container.products.len() {
            return None;
        }
        self.index += 1;
        Some(JsProduct {
            container: self.container,
            serialization_id,
        })
"""))
edit("filter-number-of", (FF, """                (Some(from), Some(to)) => Box::new(iter.filter(move |p| {
                    if let Some(found) = feature.get_js(p, &self.feature).and_then(|j| j.as_f64()) {
                        from <= found && found <= to
                    } else {
                        false
                    }
                })),
                (Some(from), None) => Box::new(iter.filter(move |p| {
                    if let Some(found) = feature.get_js(p, &self.feature).and_then(|j| j.as_f64()) {
                        from <= found
                    } else {
                        false
                    }
                })),
                (None, Some(to)) => Box::new(iter.filter(move |p| {
                    if let Some(found) = feature.get_js(p, &self.feature).and_then(|j| j.as_f64()) {
                        found <= to
                    } else {
                        false
                    }
                })),
                (None, None) => Box::new(iter),
""", """                (None, None) => iter,
                (from, to) => Box::new(iter.filter(move |p| {
                    let found = match feature.get_js(p, &self.feature).and_then(|j| j.as_f64()) {
                        Some(found) => found,
                        None => return false,
                    };
                    from.map_or(true, |from| from <= found) && to.map_or(true, |to| found <= to)
                })),
"""))
edit("filter-parse-nested-fn", (FF, """            if exact.is_undefined() {
                if let Some(from) = get_value(&values, "from") {
                    if let Some(to) = get_value(&values, "to") {
                        out.push(FeatureFilter {
                            data: FilterData::Range { from, to },
                            feature,
                        });
                        continue;
                    }
                }
            }
            out.push(FeatureFilter {
                feature,
                data: FilterData::Exact(exact),
            });
""", """            let range = if exact.is_undefined() {
                get_value(&values, "from").and_then(|from| get_value(&values, "to").map(|to| (from, to)))
            } else {
                None
            };
            out.push(match range {
                Some((from, to)) => FeatureFilter::new_range(from, to, feature),
                None => FeatureFilter::new_exactly(exact, feature),
            });
"""))

# -- entry points
edit("search-filters-fold", (LIB, """    for filter in &filters {
        filtered_results = filter.filter(filtered_results, &index.product_container.extra_features);
    }

    let mut results: Vec<usize> = filtered_results.map(|p| p.serialization_id).collect();
""", """    filtered_results = filters.iter().fold(filtered_results, |products, filter| {
        filter.filter(products, &index.product_container.extra_features)
    });

    let mut results: Vec<usize> = filtered_results.map(|p| p.serialization_id).collect();
"""))
edit("get-orders-loop", (LIB, """    let options = index.order.options();
    let js_options = options.map(JsValue::from);
    Some(js_options.collect())
""", """    Some(index.order.options().map(|name| JsValue::from(name)).collect())
"""))
edit("initialize-publish-fn", (LIB, """    // Both are replaced under both locks, so no reader sees one without the other
    let mut shared_index = SHARED_INDEX.lock().unwrap();
    let mut shared_classic = SHARED_CLASSIC_INDEX.lock().unwrap();
    shared_index.replace(Arc::new(index));
    shared_classic.replace(Arc::new(classic));

    true
}
""", """    publish(Arc::new(index), Arc::new(classic));

    true
}

// Both are replaced under both locks, so no reader sees one without the other
fn publish(index: Arc<Index>, classic: Arc<ClassicIndexes<'static>>) {
    let mut shared_index = SHARED_INDEX.lock().unwrap();
    let mut shared_classic = SHARED_CLASSIC_INDEX.lock().unwrap();
    *shared_index = Some(index);
    *shared_classic = Some(classic);
}
"""))
edit("suggest-chain", (LIB, """    most_likely.map(|(_, tag_id, input)| TagSuggestionResult {
        tag: js_interactable::JSTag::new(index.clone(), tag_id),
        input: input.to_string(),
    })
""", """    let (_, tag_id, word) = most_likely?;
    Some(TagSuggestionResult {
        tag: js_interactable::JSTag::new(index.clone(), tag_id),
        input: word.to_owned(),
    })
"""))
edit("build-feed-loop", (LIB, """            grams: [description, title, &vendor.name]
                .into_iter()
                .flat_map(|s| s.chars())
                .flat_map(char::to_lowercase),
        }
    });

    let arena = Arena::new();
""", """            grams: [description.as_str(), title.as_str(), vendor.name.as_str()]
                .into_iter()
                .flat_map(|text| text.chars().flat_map(|letter| letter.to_lowercase())),
        }
    });

    let arena = Arena::new();
"""))

# -- the word tree
edit("walk-drop-letter-fn", (IDX, """            // We try ignoring the previous gram, in case the user entered "abc" when they meant "ac"
            if let Some(current_input) = input.get(0) {
                if let Some(Some(last)) = previous_node.map(|node| node.items.get(current_input)) {
                    let mut previous_input = previous_input;
                    // We overwrite the old gram
                    previous_input[index - 1] = last.item;
""", """            // We try ignoring the previous gram, in case the user entered "abc" when they meant "ac"
            if let Some(before) = previous_node {
                let sibling = input.first().and_then(|current_input| before.items.get(current_input));
                if let Some(last) = sibling {
                    let mut previous_input = previous_input;
                    // We overwrite the old gram
                    previous_input[index - 1] = last.item;
"""))
edit("walk-with-letter-fn", (IDX, """            let mut previous_input = previous_input;
            previous_input[index] = user_entered.item;

            let found = Self::recursive_search(
                next_input,
                user_entered,
                Some(node),
                changes,
                changes_limit,
                cummulative_weight * user_entered.weight,
                previous_input,
                index + 1,
            );
""", """            let found = Self::recursive_search(
                next_input,
                user_entered,
                Some(node),
                changes,
                changes_limit,
                user_entered.weight * cummulative_weight,
                with_gram(previous_input, index, user_entered.item),
                index + 1,
            );
"""), (IDX, "#[cfg(test)]\nmod test {", """fn with_gram<G: GramAtom, const N: usize>(mut grams: [G; N], index: usize, gram: G) -> [G; N] {
    grams[index] = gram;
    grams
}

#[cfg(test)]
mod test {"""))
edit("walk-best-guard", (IDX, """                (Some(a), Some(b)) => Some(if a.1 > b.1 { a } else { b }),
            }
""", """                (Some(a), Some(b)) if a.1 > b.1 => Some(a),
                (Some(_), Some(b)) => Some(b),
            }
"""))
edit("index-push-window-fn", (IXR, """                data_map
                    .entry(lookback)
                    .and_modify(|vec| vec.push(data))
                    .or_insert_with(|| vec![data]);
""", """                list(&mut data_map, lookback, data);
"""), (IXR, "impl<'a, G: GramAtom, Data: Ord, const N: usize> GramIndex<'a, G, Data, N> {", """// Lists the entry under its key
fn list<K: std::hash::Hash + Eq, V>(map: &mut AHashMap<K, Vec<V>>, key: K, entry: V) {
    match map.get_mut(&key) {
        Some(entries) => entries.push(entry),
        None => {
            map.insert(key, vec![entry]);
        }
    }
}

impl<'a, G: GramAtom, Data: Ord, const N: usize> GramIndex<'a, G, Data, N> {"""))
edit("index-child-method", (IXR, """                    let child_node = gram_node
                        .0
                        .borrow_mut()
                        .items
                        .entry(gram)
                        .and_modify(|node| {
                            node.0.borrow_mut().occurances += 1;
                        })
                        .or_insert_with(|| MutableGramNode::new(gram, 1))
                        .clone();
""", """                    let child_node = gram_node.follow(gram);
"""), (IXR, "    pub fn immutalize<'arena>(", """    // The child for this gram, counted once more
    fn follow(&self, gram: G) -> Self {
        let mut me = self.0.borrow_mut();
        let child = me
            .items
            .entry(gram)
            .or_insert_with(|| MutableGramNode::new(gram, 0));
        child.0.borrow_mut().occurances += 1;
        child.clone()
    }

    pub fn immutalize<'arena>("""))
edit("frozen-sort-cmp", (IXR, "by_occurances.sort_by(|a, b| a.cmp(b).reverse());", "by_occurances.sort_by(|a, b| b.cmp(a));"))
edit("raw-intermediate-loop", (RAW, """        other_string.insert("image_url", media.first().map_or("", |item| item.url));
""", """        let image_url = match media.first() {
            Some(MediaItem { url }) => *url,
            None => "",
        };
        other_string.insert("image_url", image_url);
"""))
edit("raw-register-fn", (RAW, """    let mut vendors = VendorManager::new(super_alloc);

    // We insert all the tags/vendors
    for product in &input {
        vendors.insert(product.vendor);
    }

    let vendors: Arc<VendorManager<'static>> = Arc::new(vendors);
""", """    let vendors: Arc<VendorManager<'static>> = Arc::new(register_vendors(&input, super_alloc));
"""), (RAW, "pub fn optimize(", """fn register_vendors(input: &[RawProduct<'_>], alloc: &'static SuperAlloc) -> VendorManager<'static> {
    input.iter().fold(VendorManager::new(alloc), |mut vendors, product| {
        vendors.insert(product.vendor);
        vendors
    })
}

pub fn optimize("""))
edit("raw-features-fn", (RAW, """        for (key, value) in other_string {
            let key = super_alloc.alloc(key.to_string());
            out.extra_features.add_string(key, value.to_string());
        }
        for (key, value) in other_numeric {
            let key = super_alloc.alloc(key.to_string());
            out.extra_features.add_float(key, value);
        }
""", """        for (key, value) in &other_string {
            out.extra_features.add_string(key, (*value).to_owned());
        }
        for (key, value) in &other_numeric {
            out.extra_features.add_float(key, *value);
        }
"""))
