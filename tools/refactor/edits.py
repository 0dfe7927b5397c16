"""Edits of /repo that keep its behaviour (the checks must stay quiet on them)."""
E = {}


def edit(name, *changes):
    E[name] = changes


# ---- ngram/index.rs
I = "src/ngram/index.rs"
edit("search-window-helper",
     (I, """            for i in 1..N {
                ngram[i - 1] = ngram[i];
            }
            ngram[N - 1] = gram;
            let (ngram""", """            shift_in(&mut ngram, gram);
            let (ngram"""),
     (I, "#[cfg(test)]\nmod test {", """fn shift_in<G: Copy, const N: usize>(window: &mut [G; N], gram: G) {
    for i in 1..N {
        window[i - 1] = window[i];
    }
    window[N - 1] = gram;
}

#[cfg(test)]
mod test {"""))
edit("search-window-rotate",
     (I, """            for i in 1..N {
                ngram[i - 1] = ngram[i];
            }
            ngram[N - 1] = gram;""", """            ngram.rotate_left(1);
            ngram[N - 1] = gram;"""))
edit("search-window-copy-within",
     (I, """            for i in 1..N {
                ngram[i - 1] = ngram[i];
            }
            ngram[N - 1] = gram;""", """            ngram.copy_within(1.., 0);
            ngram[N - 1] = gram;"""))
edit("search-if-let",
     (I, """            let (ngram, confidence) = match self.search_gram(ngram) {
                Some(v) => v,
                None => continue,
            };

            let data = match self.data.get(&ngram) {
                Some(v) => v,
                None => continue,
            };

            for data in data {
                results.add(*data, confidence);
            }
""", """            if let Some((found, confidence)) = self.search_gram(ngram) {
                if let Some(products) = self.data.get(&found) {
                    for product in products {
                        results.add(*product, confidence);
                    }
                }
            }
"""))
edit("search-let-else",
     (I, """            let (ngram, confidence) = match self.search_gram(ngram) {
                Some(v) => v,
                None => continue,
            };

            let data = match self.data.get(&ngram) {
                Some(v) => v,
                None => continue,
            };

            for data in data {
                results.add(*data, confidence);
            }
""", """            let Some((ngram, confidence)) = self.search_gram(ngram) else { continue };
            let Some(data) = self.data.get(&ngram) else { continue };
            data.iter().for_each(|data| results.add(*data, confidence));
"""))
edit("search-while-let",
     (I, "        for gram in input {\n", "        let mut input = input;\n        while let Some(gram) = input.next() {\n"))
edit("walk-best-fn",
     (I, """        let best_result = |a: Option<([G; N], f32)>, b: Option<([G; N], f32)>| {
            match (a, b) {
                // If only one exists, we use the existing
                (Some(v), None) | (None, Some(v)) => Some(v),
                // If none exist, we don't have any
                (None, None) => None,
                (Some(a), Some(b)) => Some(if a.1 > b.1 { a } else { b }),
            }
        };
""", """        let best_result = better_of::<G, N>;
"""),
     (I, "#[cfg(test)]\nmod test {", """fn better_of<G, const N: usize>(
    a: Option<([G; N], f32)>,
    b: Option<([G; N], f32)>,
) -> Option<([G; N], f32)> {
    match (a, b) {
        (Some(a), Some(b)) => {
            if a.1 > b.1 {
                Some(a)
            } else {
                Some(b)
            }
        }
        (a, b) => a.or(b),
    }
}

#[cfg(test)]
mod test {"""))
edit("walk-next-input-get",
     (I, "let next_input = if input.is_empty() { &[] } else { &input[1..] };", "let next_input = input.get(1..).unwrap_or(&[]);"))
edit("walk-split-first",
     (I, """        let user_entered = input.get(0).and_then(|gram| node.items.get(gram));
        let user_entered_gram = user_entered.map(|v| v.item);
""", """        let user_entered = match input.first() {
            Some(gram) => node.items.get(gram),
            None => None,
        };
        let user_entered_gram = user_entered.map(|v| v.item);
"""))
edit("walk-filter-in-loop",
     (I, """            let most_popular = node
                .by_occurances
                .iter()
                // We only want grams that do not match the
                .filter(|potential| Some(potential.item) != user_entered_gram)
                .copied();

            for next_node in most_popular {
""", """            for next_node in node.by_occurances.iter().copied() {
                // We only want grams that do not match the
                if Some(next_node.item) == user_entered_gram {
                    continue;
                }
"""))
edit("walk-early-return",
     (I, """        // If more skips are allowed, we try those
        if changes_limit > changes {
            let changes = changes + 1;
""", """        // If no more skips are allowed, we are done
        if changes_limit <= changes {
            return most_likely;
        }
        {
            let changes = changes + 1;
"""))
edit("walk-if-let-last",
     (I, "if let Some(Some(last)) = previous_node.map(|node| node.items.get(current_input)) {", "if let Some(last) = previous_node.and_then(|node| node.items.get(current_input)) {"))
edit("search-gram-match",
     (I, "        let root_node = self.roots.get(query.get(0)?)?;\n", """        let root_node = match self.roots.get(&query[0]) {
            Some(v) => v,
            None => return None,
        };
"""))
K = "src/ngram/result_ranker.rs"
edit("ranker-match-entry",
     (K, """        self.confidence_for_data
            .entry(hashable)
            .and_modify(|(_, current)| *current += confidence)
            .or_insert((data, confidence));""", """        if let Some((_, current)) = self.confidence_for_data.get_mut(hashable) {
            *current += confidence;
        } else {
            self.confidence_for_data.insert(hashable, (data, confidence));
        }"""))
edit("ranker-or-insert-zero",
     (K, """        self.confidence_for_data
            .entry(hashable)
            .and_modify(|(_, current)| *current += confidence)
            .or_insert((data, confidence));""", """        use std::collections::hash_map::Entry;
        match self.confidence_for_data.entry(hashable) {
            Entry::Occupied(mut e) => e.get_mut().1 += confidence,
            Entry::Vacant(e) => {
                e.insert((data, confidence));
            }
        }"""))
edit("ranker-into-values",
     (K, """        let mut all_data: Vec<_> = self.confidence_for_data.drain().map(|(_, v)| v).collect();
        all_data.sort_by(|(_, a), (_, b)| b.total_cmp(a));
        all_data""", """        let mut results: Vec<(&'a Data, f32)> = self.confidence_for_data.into_iter().map(|(_, v)| v).collect();
        results.sort_by(|a, b| a.1.total_cmp(&b.1).reverse());
        results"""), (K, "(mut self) -> Vec", "(self) -> Vec"))

# ---- tag and category handlers
C = "src/js_interactable/category_handler.rs"
T = "src/js_interactable/tag_handler.rs"
edit("tag-toggle-remove",
     (T, """        let new_state = match self.active.entry(tag.get_id()) {
            Entry::Occupied(v) => {
                v.remove();
                false
            }
            Entry::Vacant(space) => {
                space.insert(());
                true
            }
        };
""", """        let id = tag.get_id();
        let new_state = self.active.remove(&id).is_none();
        if new_state {
            self.active.insert(id, ());
        }
"""), (T, "        use std::collections::hash_map::Entry;\n        let id", "        let id"))
edit("tag-toggle-contains",
     (T, """        let new_state = match self.active.entry(tag.get_id()) {
            Entry::Occupied(v) => {
                v.remove();
                false
            }
            Entry::Vacant(space) => {
                space.insert(());
                true
            }
        };
""", """        let new_state = self.flip(tag.get_id());
"""), (T, "        use std::collections::hash_map::Entry;\n        let new", "        let new"),
     (T, """impl TagHandler {
    pub fn new(""", """impl TagHandler {
    fn flip(&mut self, id: usize) -> bool {
        let was_active = self.active.contains_key(&id);
        if was_active {
            self.active.remove(&id);
        } else {
            self.active.insert(id, ());
        }
        !was_active
    }

    pub fn new("""))
edit("tag-toggle-two-loops",
     (T, """        let observers_for_this_tag = self
            .tag_observers
            .get(&tag.get_id())
            .map_or(&[][..], |vec| &vec[..])
            .iter();

        let all_observers = observers_for_this_tag.chain(self.general_observers.iter());

        let new_js_state = JsValue::from(new_state);

        for observer in all_observers {
            if let Err(e) = observer.call1(&JsValue::UNDEFINED, &new_js_state) {
                println!("Failed to call handler with error: {:?}", e);
            }
        }
""", """        let new_js_state = JsValue::from(new_state);

        if let Some(observers) = self.tag_observers.get(&tag.get_id()) {
            Self::notify(observers, &new_js_state);
        }
        Self::notify(&self.general_observers, &new_js_state);
"""),
     (T, """impl TagHandler {
    pub fn new(""", """impl TagHandler {
    fn notify(observers: &[js_sys::Function], state: &JsValue) {
        for observer in observers {
            if let Err(e) = observer.call1(&JsValue::UNDEFINED, state) {
                println!("Failed to call handler with error: {:?}", e);
            }
        }
    }

    pub fn new("""))
edit("tag-status-id",
     (T, "self.active.contains_key(&tag.index)", "self.active.get(&tag.index).is_some()"))
edit("tag-valid-all",
     (T, """        for id in self.active.keys() {
            let tag = self.handle.tags.get(*id).unwrap();
            if tag.contains(product) == false {
                return false;
            }
        }

        true""", """        self.active
            .keys()
            .all(|id| self.handle.tags.get(*id).unwrap().contains(product))"""))
edit("tag-valid-not-any",
     (T, """        for id in self.active.keys() {
            let tag = self.handle.tags.get(*id).unwrap();
            if tag.contains(product) == false {
                return false;
            }
        }

        true""", """        let tags = &self.handle.tags;
        !self.active.iter().any(|(id, _)| !tags.get(*id).unwrap().contains(product))"""))
edit("tag-lister-or-default",
     (T, """        use std::collections::hash_map::Entry;
        match self.tag_observers.entry(tag.get_id()) {
            Entry::Occupied(mut vec) => vec.get_mut().push(observer),
            Entry::Vacant(empty) => {
                empty.insert(vec![observer]);
            }
        }""", """        self.tag_observers
            .entry(tag.get_id())
            .or_default()
            .push(observer);"""))
edit("tag-remove-position",
     (T, """        let current_observers = match self.tag_observers.get_mut(&tag.get_id()) {
            Some(v) => v,
            None => return,
        };

        for (index, obs) in current_observers.iter().enumerate() {
            if observer == obs {
                current_observers.swap_remove(index);
                return;
            }
        }""", """        if let Some(observers) = self.tag_observers.get_mut(&tag.get_id()) {
            if let Some(index) = observers.iter().position(|obs| observer == obs) {
                observers.swap_remove(index);
            }
        }"""))
edit("tag-next-if",
     (T, """        let _ = self.handle.tags.get(self.index)?;

        let tag = JSTag {
            handle: self.handle.clone(),
            index: self.index,
        };

        self.index += 1;

        Some(tag)""", """        if self.handle.tags.get(self.index).is_none() {
            return None;
        }
        let index = self.index;
        self.index = index + 1;
        Some(JSTag::new(Arc::clone(&self.handle), index))"""))
edit("tag-name-map",
     (T, "        self.handle.tags.get(self.index).unwrap().name.clone()\n", "        let tag = self.tag();\n        tag.name.clone()\n"),
     (T, "        self.handle.tags.get(self.index).unwrap().get_id()\n", "        self.tag().get_id()\n"),
     (T, """impl JSTag {
    pub fn get_id""", """impl JSTag {
    fn tag(&self) -> &crate::classic_indexes::Tag<'_> {
        self.handle.tags.get(self.index).unwrap()
    }

    pub fn get_id"""))
edit("category-toggle-key-var",
     (C, "        let new_state = match self.active.entry(item.keys()) {", "        let key = item.keys();\n        let new_state = match self.active.entry(key) {"),
     (C, "            .get(&item.keys())\n            .map_or(&[][..], |vec| &vec[..])\n            .iter();", "            .get(&key)\n            .map(Vec::as_slice)\n            .unwrap_or_default()\n            .iter();"))
edit("category-toggle-for-each",
     (C, """        for observer in all_observers {
            if let Err(e) = observer.call1(&JsValue::UNDEFINED, &new_js_state) {
                println!("Failed to call handler with error: {:?}", e);
            }
        }
""", """        all_observers.for_each(|observer| {
            let result = observer.call1(&JsValue::UNDEFINED, &new_js_state);
            if let Err(e) = result {
                println!("Failed to call handler with error: {:?}", e);
            }
        });
"""))
edit("category-valid-helper",
     (C, """        for (category, option) in self.active.keys() {
            let category = &self.handle.categories[*category];
            let option = &category.options[*option];
            if option.contains(product) == false {
                return false;
            }
        }

        true
""", """        for &(category, option) in self.active.keys() {
            if !self.listed(category, option, product) {
                return false;
            }
        }
        true
"""),
     (C, """impl CategoryHandler {
    pub fn new""", """impl CategoryHandler {
    fn listed(&self, category: usize, option: usize, product: &Product<'_>) -> bool {
        self.handle.categories[category].options[option].contains(product)
    }

    pub fn new"""))
edit("category-valid-all",
     (C, """        for (category, option) in self.active.keys() {
            let category = &self.handle.categories[*category];
            let option = &category.options[*option];
            if option.contains(product) == false {
                return false;
            }
        }

        true
""", """        self.active.keys().all(|(category, option)| {
            self.handle.categories[*category].options[*option].contains(product)
        })
"""))
edit("category-next-map",
     (C, """        self.handle.categories.get(self.index)?;
        self.index += 1;
        Some(CategoryOptionIter {
            handle: self.handle.clone(),
            index: 0,
            category_index: self.index - 1,
        })""", """        let category_index = self.index;
        if self.handle.categories.get(category_index).is_some() {
            self.index += 1;
            Some(CategoryOptionIter {
                handle: self.handle.clone(),
                category_index,
                index: 0,
            })
        } else {
            None
        }"""))
edit("category-option-next-let",
     (C, """        let out = self
            .handle
            .categories
            .get(self.category_index)?
            .options
            .get(self.index)?;
        let out = Some(ExportCategoryOption {
            name: out.name.clone(),
            cat_id: self.category_index,
            option_id: self.index,
        });
        self.index += 1;
        out""", """        let category = self.handle.categories.get(self.category_index)?;
        let option_id = self.index;
        let name = category.options.get(option_id)?.name.clone();
        self.index += 1;
        Some(ExportCategoryOption {
            name,
            cat_id: self.category_index,
            option_id,
        })"""))
edit("category-keys-direct",
     (C, """        let ExportCategoryOption {
            cat_id, option_id, ..
        } = self;

        (*cat_id, *option_id)""", "        (self.cat_id, self.option_id)"))

# ---- lib.rs
L = "src/lib.rs"
edit("search-filter-and",
     (L, """            .filter(|p| categories.is_valid(p))
            .filter(|p| tags.is_valid(p)),
""", """            .filter(|p| categories.is_valid(p) && tags.is_valid(p)),
"""))
edit("search-collect-vec",
     (L, """    let results = index.search(input.chars().flat_map(char::to_lowercase));
    let mut filtered""", """    let query: Vec<char> = input.chars().flat_map(|c| c.to_lowercase()).collect();
    let results = index.search(query.into_iter());
    let mut filtered"""))
edit("search-lock-match",
     (L, """    let lock = SHARED_INDEX.lock().ok()?;
    let index = lock.as_ref()?.clone();
""", """    let index = current_index()?;
"""),
     (L, """#[wasm_bindgen]
pub fn search(""", """fn current_index() -> Option<Arc<Index>> {
    let lock = SHARED_INDEX.lock().ok()?;
    lock.as_ref().cloned()
}

#[wasm_bindgen]
pub fn search("""))
edit("search-sort-key",
     (L, "results.sort_by_cached_key(|v| order.get(*v).copied());", "results.sort_by_key(|id| order.get(*id));"))
edit("search-order-helper",
     (L, """    if let Some(order) = order {
        let lock = SHARED_CLASSIC_INDEX.lock().ok()?;
        let classic = lock.as_ref()?;
        let order = classic.order.get_orders(&order)?;
        results.sort_by_cached_key(|v| order.get(*v).copied());
    }
""", """    if let Some(order) = order {
        sort_results(&mut results, &order)?;
    }
"""),
     (L, """#[wasm_bindgen]
pub fn search(""", """fn sort_results(results: &mut [usize], order: &str) -> Option<()> {
    let lock = SHARED_CLASSIC_INDEX.lock().ok()?;
    let positions = lock.as_ref()?.order.get_orders(order)?;
    results.sort_by_cached_key(|v| positions.get(*v).copied());
    Some(())
}

#[wasm_bindgen]
pub fn search("""))
edit("initialize-if-let",
     (L, """    let (index, classic) = match deserialize_all(input, &NODE_ARENA, &SUPER_ARENA) {
        Some(v) => v,
        None => return false,
    };
""", """    let Some((index, classic)) = deserialize_all(input, &NODE_ARENA, &SUPER_ARENA) else {
        return false;
    };
    let index = Arc::new(index);
    let classic = Arc::new(classic);
"""), (L, "    shared_index.replace(Arc::new(index));\n    shared_classic.replace(Arc::new(classic));", "    *shared_index = Some(index);\n    *shared_classic = Some(classic);"))
edit("getters-helper",
     (L, """    let read_lock = SHARED_CLASSIC_INDEX.lock().unwrap();

    let index = read_lock.as_ref()?;

    Some(CategoryHandler::new(index.clone()))""", "    Some(CategoryHandler::new(current_classic()?))"),
     (L, """    let read_lock = SHARED_CLASSIC_INDEX.lock().unwrap();

    let index = read_lock.as_ref()?;

    Some(TagHandler::new(index.clone()))""", "    current_classic().map(TagHandler::new)"),
     (L, """#[wasm_bindgen]
pub fn get_categories""", """fn current_classic() -> Option<Arc<ClassicIndexes<'static>>> {
    SHARED_CLASSIC_INDEX.lock().unwrap().clone()
}

#[wasm_bindgen]
pub fn get_categories"""))
edit("orders-loop",
     (L, """    let options = index.order.options();
    let js_options = options.map(JsValue::from);
    Some(js_options.collect())""", """    let mut names = Vec::new();
    for name in index.order.options() {
        names.push(JsValue::from(name));
    }
    Some(names)"""))
edit("suggest-if",
     (L, """                most_likely = match most_likely {
                    Some((current, _, _)) if overlap > current => {
                        Some((overlap, tag.get_id(), keyword))
                    }
                    None => Some((overlap, tag.get_id(), keyword)),
                    current => current,
                }
""", """                let better = match most_likely {
                    Some((current, _, _)) => overlap > current,
                    None => true,
                };
                if better {
                    most_likely = Some((overlap, tag.get_id(), keyword));
                }
"""))
edit("suggest-map-or",
     (L, """                most_likely = match most_likely {
                    Some((current, _, _)) if overlap > current => {
                        Some((overlap, tag.get_id(), keyword))
                    }
                    None => Some((overlap, tag.get_id(), keyword)),
                    current => current,
                }
""", """                if most_likely.map_or(true, |(current, _, _)| overlap > current) {
                    most_likely = Some((overlap, tag.get_id(), keyword));
                }
"""))
edit("overlap-filter-count",
     (L, """        let overlap = original
            .chars()
            .zip(other.chars())
            .map(|(a, b)| if a == b { 1.0 } else { 0.0 })
            .reduce(|a, b| a + b)
            .unwrap_or(0.0);

        overlap / min_len_found""", """        let equal = original.chars().zip(other.chars()).filter(|(a, b)| a == b).count();

        equal as f32 / min_len_found"""))
edit("overlap-sum",
     (L, """            .map(|(a, b)| if a == b { 1.0 } else { 0.0 })
            .reduce(|a, b| a + b)
            .unwrap_or(0.0);""", """            .map(|(a, b)| if a == b { 1.0 } else { 0.0 })
            .sum::<f32>();"""))
edit("suggest-find-early",
     (L, """    most_likely.map(|(_, tag_id, input)| TagSuggestionResult {
        tag: js_interactable::JSTag::new(index.clone(), tag_id),
        input: input.to_string(),
    })""", """    let (_, tag_id, input) = most_likely?;
    Some(TagSuggestionResult {
        input: input.to_owned(),
        tag: js_interactable::JSTag::new(index.clone(), tag_id),
    })"""))

# ---- serialization
P = "src/serialize/primitives.rs"
S = "src/serialize/sequential_array.rs"
O = "src/serialize/collections.rs"
N = "src/serialize/nodes.rs"
edit("f32-array",
     (P, """        let bytes = [
            *input.get(0)?,
            *input.get(1)?,
            *input.get(2)?,
            *input.get(3)?,
        ];

        let num = Self::from_be_bytes(bytes);

        Some((&input[4..], num))""", """        let bytes: [u8; 4] = input.get(..4)?.try_into().ok()?;

        Some((&input[4..], Self::from_be_bytes(bytes)))"""))
edit("f32-bits",
     (P, """        for byte in self.to_be_bytes() {
            output(byte);
        }""", """        self.to_be_bytes().into_iter().for_each(output);"""))
edit("u8-split-first",
     (P, """        let me = *input.get(0)?;
        Some((&input[1..], me))""", """        let (me, rest) = input.split_first()?;
        Some((rest, *me))"""))
edit("bool-match",
     (P, """        let byte = input.get(0)?;
        Some((&input[1..], *byte != 0))""", """        match input {
            [byte, rest @ ..] => Some((rest, *byte != 0)),
            [] => None,
        }"""))
edit("u64-while",
     (P, """        let mut input = *self;
        loop {
            // We get 7 lowest bits
            #[allow(clippy::cast_possible_truncation)]
            let to_encode = (input as u8) & 0b0111_1111;
            input >>= 7;
            // If input is now 0, this was the last significant byte, and none follow
            if input == 0 {
                output(to_encode);
                break;
            }
            // Theres a following bit
            output(to_encode | 0b1000_0000);
        }""", """        let mut input = *self;
        while input > 0x7f {
            output((input & 0x7f) as u8 | 0x80);
            input >>= 7;
        }
        output(input as u8);"""))
edit("char-map",
     (P, """        let (input, v) = u32::deserialize(input)?;
        let char = char::from_u32(v)?;
        Some((input, char))""", """        let (rest, code) = u32::deserialize(input)?;
        char::from_u32(code).map(|c| (rest, c))"""))
edit("usize-try-from",
     (P, """        let v: usize = v.try_into().ok()?;""", """        let v = usize::try_from(v).ok()?;"""))
edit("idlist-prev-zero",
     (S, """    let mut previous: Option<usize> = None;

    for _ in 0..len {
        let (new_input, parsed) = usize::deserialize(input)?;
        input = new_input;
        let item = match previous {
            Some(previous) => parsed.checked_add(previous)?,
            None => parsed,
        };
        previous = Some(item);
        output.push(item);
    }""", """    let mut previous = 0_usize;

    for _ in 0..len {
        let (new_input, parsed) = usize::deserialize(input)?;
        input = new_input;
        previous = parsed.checked_add(previous)?;
        output.push(previous);
    }"""))
edit("idlist-write-if-let",
     (S, """        let to_serialize = match previous {
            Some(previous) => item - previous,
            None => item,
        };
        to_serialize.serialize(output);""", """        if let Some(previous) = previous {
            (item - previous).serialize(output);
        } else {
            item.serialize(output);
        }"""))
edit("idlist-sort-unstable", (S, "    content.sort();", "    content.sort_unstable();"))
edit("vec-write-helper",
     (O, """impl<T: Serializable> Serializable for Vec<&T> {
    fn serialize<Out: FnMut(u8)>(&self, output: &mut Out) {
        self.len().serialize(output);
        for item in self.iter() {
            item.serialize(output);
        }
    }
}
""", """fn serialize_items<T: Serializable, Out: FnMut(u8)>(items: &[T], output: &mut Out) {
    items.len().serialize(output);
    for item in items {
        item.serialize(output);
    }
}

impl<T: Serializable> Serializable for Vec<&T> {
    fn serialize<Out: FnMut(u8)>(&self, output: &mut Out) {
        self.len().serialize(output);
        self.iter().for_each(|item| item.serialize(output));
    }
}
"""),
     (O, """impl Serializable for Vec<usize> {
    fn serialize<Out: FnMut(u8)>(&self, output: &mut Out) {
        self.len().serialize(output);
        for item in self.iter() {
            item.serialize(output);
        }
    }
}""", """impl Serializable for Vec<usize> {
    fn serialize<Out: FnMut(u8)>(&self, output: &mut Out) {
        serialize_items(self, output);
    }
}"""))
edit("vec-read-while",
     (O, """        let (mut input, len) = usize::deserialize(input)?;
        let mut out = Vec::with_capacity(len.min(input.len()));

        for _ in 0..len {
            let (new_input, item) = T::deserialize(input)?;
            input = new_input;
            out.push(item);
        }

        Some((input, out))
    }
}

impl<'arena, T""", """        let (mut input, len) = usize::deserialize(input)?;
        let mut out = Vec::with_capacity(len.min(input.len()));

        while out.len() < len {
            let (new_input, item) = T::deserialize(input)?;
            out.push(item);
            input = new_input;
        }

        Some((input, out))
    }
}

impl<'arena, T"""))
edit("map-read-no-capacity",
     (O, """        let mut out = AHashMap::with_capacity(len.min(input.len()));

        for _ in 0..len {
            let (new_input, key) = K::deserialize(input)?;
            let (new_input, value) = V::deserialize(new_input)?;
            input = new_input;
            out.insert(key, value);
        }
""", """        let mut out = AHashMap::new();

        for _ in 0..len {
            let (after_key, key) = K::deserialize(input)?;
            let (after_value, value) = V::deserialize(after_key)?;
            out.insert(key, value);
            input = after_value;
        }
"""))
edit("string-read-split",
     (O, """        let bytes = input.get(..len)?;
        let string = String::from_utf8(bytes.to_vec()).ok()?;
        Some((&input[len..], string))""", """        if len > input.len() {
            return None;
        }
        let (bytes, rest) = input.split_at(len);
        let string = std::str::from_utf8(bytes).ok()?.to_string();
        Some((rest, string))"""))
edit("str-write-for",
     (O, """        self.len().serialize(output);
        for item in self.bytes() {
            output(item);
        }""", """        let bytes = self.as_bytes();
        bytes.len().serialize(output);
        for byte in bytes {
            output(*byte);
        }"""))
edit("limit-if-else",
     (O, """            return match last_candidate {
                Some(viable) => &input[0..viable],
                None => &input[0..offset],
            };""", """            return &input[..last_candidate.unwrap_or(offset)];"""))
edit("array-read-from-fn",
     (O, """        for position in out.iter_mut().take(len) {
            let (new_input, item) = T::deserialize(input)?;
            input = new_input;
            *position = item;
        }

        Some((input, out))
    }
}

impl<T: Default + Deserializable + Copy, const N: usize> Deserializable""", """        for i in 0..len {
            let (new_input, item) = T::deserialize(input)?;
            input = new_input;
            out[i] = item;
        }

        Some((input, out))
    }
}

impl<T: Default + Deserializable + Copy, const N: usize> Deserializable"""))
edit("index-write-for",
     (N, """        for (key, products) in self.data.iter() {
            key.serialize(output);
            Product::serialize_to_sequential_array(products, output);
        }""", """        for (key, products) in &self.data {
            Serializable::serialize(key, output);
            Product::serialize_to_sequential_array(products, output);
        }"""))
edit("all-write-closure",
     ("src/serialize/all_indexes.rs", """    let mut save = |input: u8| out.push(input);
    ngram.serialize(&mut save);
    classic.serialize(&mut save);
""", """    ngram.serialize(&mut |byte| out.push(byte));
    classic.serialize(&mut |byte| out.push(byte));
"""))

# ---- classic indexes and data
G = "src/classic_indexes/categorical.rs"
A = "src/classic_indexes/tag.rs"
R = "src/classic_indexes/order.rs"
D = "src/data/product.rs"
V = "src/data/vendor.rs"
F = "src/js_interactable/feature_filter.rs"
H = "src/data/features.rs"
edit("category-index-position",
     (G, """                let category = match categories.iter_mut().find(|c| c.name == raw_option.name) {
                    Some(v) => v,
                    None => {
                        let new = Category::new(raw_option.name.to_string());
                        categories.push(new);
                        let just_inserted = categories.len() - 1;
                        categories.get_mut(just_inserted).unwrap()
                    }
                };
""", """                let position = match categories.iter().position(|c| c.name == raw_option.name) {
                    Some(position) => position,
                    None => {
                        categories.push(Category::new(raw_option.name.to_string()));
                        categories.len() - 1
                    }
                };
                let category = &mut categories[position];
"""))
edit("category-index-option-helper",
     (G, """                    let option = match category.options.iter_mut().find(|o| o.name == raw_value) {
                        Some(v) => v,
                        None => {
                            let new = CategoryOption::new(raw_value.to_string(), 0);
                            category.options.push(new);
                            let just_inserted = category.options.len() - 1;
                            category.options.get_mut(just_inserted).unwrap()
                        }
                    };
                    option.add(&container.products[i]);
""", """                    category.option_mut(raw_value).add(&container.products[i]);
"""),
     (G, """    pub fn new(name: String) -> Category<'a> {""", """    fn option_mut(&mut self, name: &str) -> &mut CategoryOption<'a> {
        let position = match self.options.iter().position(|o| o.name == name) {
            Some(position) => position,
            None => {
                self.options.push(CategoryOption::new(name.to_string(), 0));
                self.options.len() - 1
            }
        };
        &mut self.options[position]
    }

    pub fn new(name: String) -> Category<'a> {"""))
edit("category-number-nested",
     (G, """        let options = categories.iter_mut().flat_map(|c| c.options.iter_mut());
        for (id, option) in options.enumerate() {
            option.serialization_id = id;
        }
""", """        let mut id = 0;
        for category in &mut categories {
            for option in &mut category.options {
                option.serialization_id = id;
                id += 1;
            }
        }
"""))
edit("option-add-contains",
     (G, """        if self
            .products_by_serialization_id
            .insert(product.serialization_id)
        {
            self.content.push(product);
        }""", """        if self.contains(product) {
            return;
        }
        self.products_by_serialization_id.insert(product.serialization_id);
        self.content.push(product);"""))
edit("tag-index-or-default",
     (A, """                products_for_tag
                    .entry(tag)
                    .and_modify(|v| v.push(product))
                    .or_insert_with(|| vec![product]);""", """                products_for_tag.entry(tag).or_default().push(product);"""))
edit("tag-index-loop",
     (A, """        TagIndex(
            products_for_tag
                .into_iter()
                .enumerate()
                .map(|(id, (name, products))| crate::classic_indexes::Tag::new(name, products, id))
                .collect(),
        )""", """        let mut tags = Vec::with_capacity(products_for_tag.len());
        for (name, products) in products_for_tag {
            tags.push(Tag::new(name, products, tags.len()));
        }
        TagIndex(tags)"""))
edit("order-add-for",
     (R, """        let mut data_and_id: Vec<(T, usize)> = products
            .products
            .iter()
            .map(|prod| {
                let id = prod.serialization_id;
                let v = maker(prod, features);
                (v, id)
            })
            .collect();
""", """        let mut data_and_id: Vec<(T, usize)> = Vec::with_capacity(products.products.len());
        for prod in &products.products {
            data_and_id.push((maker(prod, features), prod.serialization_id));
        }
"""))
edit("order-add-index",
     (R, """        for (order_position, (_, serialization_id)) in data_and_id.into_iter().enumerate() {
            order[serialization_id] = order_position;
        }""", """        for position in 0..data_and_id.len() {
            let id = data_and_id[position].1;
            order[id] = position;
        }"""))
edit("product-eq-helper",
     (D, """        match (self.description.len(), other.description.len()) {
            (0, 1..) | (1.., 0) => return false,
            (my_len, other_len) if my_len > other_len => {
                if self.description.starts_with(&other.description) == false {
                    return false;
                }
            }
            (my_len, other_len) if my_len < other_len => {
                if other.description.starts_with(&self.description) == false {
                    return false;
                }
            }
            _ => {
                if self.description != other.description {
                    return false;
                }
            }
        }

        self.title""", """        let (short, long) = if self.description.len() <= other.description.len() {
            (&self.description, &other.description)
        } else {
            (&other.description, &self.description)
        };
        if short.is_empty() != long.is_empty() || !long.starts_with(short.as_str()) {
            return false;
        }

        self.title"""))
edit("product-eq-order",
     (D, """        self.title == other.title
            && self.vendor == other.vendor
            && self.id == other.id
            && self.serialization_id == other.serialization_id""", """        self.serialization_id == other.serialization_id
            && self.id == other.id
            && self.title == other.title
            && self.vendor == other.vendor"""))
edit("product-ids-collect",
     (D, """        let mut products = Vec::with_capacity(product_ids.len());

        for id in &product_ids {
            let product = existing_products.get(*id)?;
            products.push(product);
        }
""", """        let products = product_ids
            .iter()
            .map(|id| existing_products.get(*id))
            .collect::<Option<Vec<_>>>()?;
"""))
edit("product-write-fields",
     (D, """        for field in [title, id] {
            field.serialize(output);
        }
""", """        title.serialize(output);
        id.serialize(output);
"""))
edit("vendor-insert-shared",
     (V, """        if self.tags.contains_key(name) {
            return;
        }
        let id = self.tags.len();
        let new_tag = &*self.alloc.alloc(Vendor {
            name: name.to_string(),
            id,
        });

        self.tags.insert(&new_tag.name, new_tag);
        self.by_id.push(new_tag);
    }""", """        if self.tags.get(name).is_none() {
            self.register(name);
        }
    }

    fn register(&mut self, name: &str) -> &'a Vendor {
        let vendor = &*self.alloc.alloc(Vendor {
            name: name.to_string(),
            id: self.by_id.len(),
        });
        self.by_id.push(vendor);
        self.tags.insert(&vendor.name, vendor);
        vendor
    }"""))
edit("vendor-write-key",
     (V, "all_tags.sort_by(|a, b| a.id.cmp(&b.id));", "all_tags.sort_by_key(|v| v.id);"))
edit("vendor-write-by-id",
     (V, """        let mut all_tags: Vec<_> = self.tags.values().collect();
        // We sort by the numbers, so we don't have to save those
        all_tags.sort_by(|a, b| a.id.cmp(&b.id));
""", """        let mut all_tags: Vec<&Vendor> = self.tags.values().copied().collect();
        // We sort by the numbers, so we don't have to save those
        all_tags.sort_unstable_by_key(|vendor| vendor.id);
"""))
edit("filter-map-or",
     (F, """                (Some(from), Some(to)) => Box::new(iter.filter(move |p| {
                    if let Some(found) = feature.get_js(p, &self.feature).and_then(|j| j.as_f64()) {
                        from <= found && found <= to
                    } else {
                        false
                    }
                })),""", """                (Some(from), Some(to)) => Box::new(iter.filter(move |p| {
                    self.number(feature, p).map_or(false, |found| from <= found && found <= to)
                })),"""),
     (F, """    pub fn parse(""", """    fn number(&self, feature: &FeatureSet, product: &Product<'_>) -> Option<f64> {
        feature.get_js(product, &self.feature)?.as_f64()
    }

    pub fn parse("""))
edit("filter-contains",
     (F, "                        from <= found && found <= to\n", "                        (from..=to).contains(&found)\n"))
edit("filter-exact-match",
     (F, """                if let Some(data) = feature.get_js(p, &self.feature) {
                    &data == exact
                } else {
                    false
                }""", """                match feature.get_js(p, &self.feature) {
                    Some(data) => data == *exact,
                    None => false,
                }"""))
edit("filter-parse-flat",
     (F, """            if exact.is_undefined() {
                if let Some(from) = get_value(&values, "from") {
                    if let Some(to) = get_value(&values, "to") {
                        out.push(FeatureFilter {
                            data: FilterData::Range { from, to },
                            feature,
                        });
                        continue;
                    }
                }
            }

            out.push(FeatureFilter {
                feature,
                data: FilterData::Exact(exact),
            });""", """            if exact.is_undefined() {
                let range = get_value(&values, "from").zip(get_value(&values, "to"));
                if let Some((from, to)) = range {
                    out.push(Self::new_range(from, to, feature));
                    continue;
                }
            }

            out.push(Self::new_exactly(exact, feature));"""))
edit("features-js-match",
     (H, """            Feature::Float(list) => {
                let n = *list.get(id)?;
                n.into()
            }
            Feature::Integer(list) => {
                let n = *list.get(id)?;
                let n = f64::from(n);
                JsValue::from_f64(n)
            }""", """            Feature::Float(list) => JsValue::from_f64(f64::from(*list.get(id)?)),
            Feature::Integer(list) => JsValue::from(*list.get(id)?),"""))
edit("features-get-copied",
     (H, """            Feature::Float(list) => FeatureValue::Float(*list.get(id)?),
            Feature::Integer(list) => FeatureValue::Integer(*list.get(id)?),""", """            Feature::Float(list) => list.get(id).copied().map(FeatureValue::Float)?,
            Feature::Integer(list) => list.get(id).copied().map(FeatureValue::Integer)?,"""))
edit("feature-write-tag",
     (H, """            Feature::String(list) => {
                0u8.serialize(output);
                list.serialize(output);
            }""", """            Feature::String(list) => {
                output(0);
                list.serialize(output);
            }"""))
