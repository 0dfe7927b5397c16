BUGS = {}


def bug(name, property, needs, breaks, *edits, demo=None):
    BUGS[name] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo or name)


bug("title-clipped", "C01", "a product whose title is longer than 100 bytes",
    "The writer clips titles as well as descriptions, so the index that is read back has a different title.",
    ("src/data/product.rs", "        for field in [title, id] {\n            field.serialize(output);\n        }",
     "        for field in [title, id] {\n            crate::serialize::serialize_string_with_limit(field, 100, output);\n        }"))

bug("category-exclusive-unnamed", "C01", "a category with an empty name",
    "A category without a name is written as exclusive although it is not, so the index read back differs.",
    ("src/classic_indexes/categorical.rs", "        exclusive.serialize(output);\n", "        (*exclusive || name.is_empty()).serialize(output);\n"))

bug("negative-zero", "C04", "the float -0.0",
    "Adding zero while encoding turns -0.0 into 0.0, so the float is not read back bit for bit.",
    ("src/serialize/primitives.rs", "for byte in self.to_be_bytes() {", "for byte in (*self + 0.0).to_be_bytes() {"))

bug("u32-truncates", "C04", "a stored integer above 2^32 read as a 32 bit integer",
    "A value too large for the type read is cut to its low 32 bits instead of being reported as an error.",
    ("src/serialize/primitives.rs", "        let v: u32 = v.try_into().ok()?;", "        let v = (v & 0xffff_ffff) as u32;"))


bug("idlist-long", "C05", "an id list with 65536 or more ids",
    "The reader keeps 16 bits of the number of ids, so a long list is read back shorter and reading stops early.",
    ("src/serialize/sequential_array.rs", "pub fn deserialize(input: &[u8]) -> Option<(&[u8], Vec<usize>)> {\n    let (mut input, len) = usize::deserialize(input)?;\n",
     "pub fn deserialize(input: &[u8]) -> Option<(&[u8], Vec<usize>)> {\n    let (mut input, len) = usize::deserialize(input)?;\n    let len = len & 0xffff;\n"))

bug("option-key-wide", "C18", "a category with more than 256 options",
    "Option positions are folded into eight bits in the key of the selection, so two options of one category share a state.",
    ("src/js_interactable/category_handler.rs", "        (*cat_id, *option_id)\n", "        (*cat_id, *option_id & 0xff)\n"))

bug("tag-status-below", "C18", "two selected tags and a tag before both",
    "Once two tags are selected, tags before all selected ones are reported as selected as well.",
    ("src/js_interactable/tag_handler.rs", "        self.active.contains_key(&tag.index)\n",
     "        self.active.contains_key(&tag.index) || (self.active.len() > 1 && self.active.keys().all(|k| *k > tag.index))\n"))

bug("options-or-within-category", "C19", "two selected options of the same category",
    "Options of the same category are combined with or, so a product listed by only one of them passes.",
    ("src/js_interactable/category_handler.rs", "            if option.contains(product) == false {\n",
     "            let other = self.active.keys().any(|(c, o)| std::ptr::eq(category, &self.handle.categories[*c]) && category.options[*o].contains(product));\n            if option.contains(product) == false && !other {\n"))

bug("tag-filter-first-only", "C19", "three or more selected tags",
    "Only the first two selected tags are checked.",
    ("src/js_interactable/tag_handler.rs", "        for id in self.active.keys() {\n", "        for id in self.active.keys().take(2) {\n"))

bug("option-cursor-skips", "C22", "an option with an empty name that is followed by another option",
    "The option cursor advances by two past an option with an empty name.",
    ("src/js_interactable/category_handler.rs", "        self.index += 1;\n        out\n", "        self.index += if out.as_ref().map_or(false, |o| o.name.is_empty()) { 2 } else { 1 };\n        out\n"))

bug("numeric-feature-zero", "C22", "a product whose price is 0",
    "A numeric feature equal to zero is reported as missing.",
    ("src/js_interactable/product_producer.rs", "            FeatureValue::Float(f) => Some(f64::from(f)),\n", "            FeatureValue::Float(f) => Some(f64::from(f)).filter(|f| *f != 0.0),\n"))


bug("vendor-order-wraps", "C02", "a catalogue with more than 256 vendors",
    "Vendors are written in the order of the low eight bits of their numbers, so a loaded product has another vendor.",
    ("src/data/vendor.rs", "        all_tags.sort_by(|a, b| a.id.cmp(&b.id));\n", "        all_tags.sort_by_key(|vendor| vendor.id & 0xff);\n"))

bug("vendor-beyond-end", "C03", "a file in which a product refers to a vendor that does not exist",
    "A reference beyond the last vendor is taken for the last one, so a malformed file is accepted.",
    ("src/data/product.rs", "        let vendor = *vendors.by_id.get(vendor_id)?;\n", "        let vendor = *vendors.by_id.get(vendor_id).or_else(|| vendors.by_id.last())?;\n"))

bug("empty-description-equal", "C06", "comparing a product with a description to one with an empty description",
    "A product with a description equals the same product with an empty one, though not the other way round.",
    ("src/data/product.rs", "            (0, 1..) | (1.., 0) => return false,\n", "            (0, 1..) => return false,\n"))

bug("first-lower-case-letter", "C07", "an upper-case letter whose lower case is two letters",
    "Only the first of the lower-case letters is indexed, so such a title is not found as the query spells it.",
    ("src/lib.rs", "                .flat_map(|s| s.chars())\n                .flat_map(char::to_lowercase),\n", "                .flat_map(|s| s.chars())\n                .filter_map(|c| c.to_lowercase().next()),\n"))

bug("occurrences-saturate", "C08", "a letter that occurs more than 65535 times",
    "Occurrences of a first letter are counted up to 65535 only, so its share is too small.",
    ("src/ngram/indexer.rs", "                // We increment occurances in root\n                let root_node = root\n                    .entry(gram)\n                    .and_modify(|node| {\n                        node.0.borrow_mut().occurances += 1;\n",
     "                // We increment occurances in root\n                let root_node = root\n                    .entry(gram)\n                    .and_modify(|node| {\n                        let mut node = node.0.borrow_mut();\n                        node.occurances = (node.occurances + 1).min(u32::from(u16::MAX));\n"))

bug("five-popular", "C11", "a letter with more than five successors and a typing error in place of a rare one",
    "Only the five most frequent successors are tried in place of a mistyped letter.",
    ("src/ngram/index.rs", "                .by_occurances\n                .iter()\n                // We only", "                .by_occurances\n                .iter()\n                .take(5)\n                // We only"))

bug("search-stops-early", "C12", "a query with a window that nearly all products share before one that tells them apart",
    "The search stops at the first window whose list was left out as too frequent.",
    ("src/ngram/index.rs", "            let data = match self.data.get(&ngram) {\n                Some(v) => v,\n                None => continue,\n", "            let data = match self.data.get(&ngram) {\n                Some(v) => v,\n                None => break,\n"))

bug("options-ignore-case", "C13", "two options of one category that differ in letter case only",
    "Options that differ in letter case are merged into one.",
    ("src/classic_indexes/categorical.rs", "category.options.iter_mut().find(|o| o.name == raw_value) {", "category.options.iter_mut().find(|o| o.name.eq_ignore_ascii_case(raw_value)) {"))

bug("order-unstable", "C14", "more than twenty products of which many have the same price or title",
    "Products that compare equal are ranked in an arbitrary order instead of catalogue order.",
    ("src/classic_indexes/order.rs", "        data_and_id.sort_by(|(a, _), (b, _)| cmp(a, b));\n", "        data_and_id.sort_unstable_by(|(a, _), (b, _)| cmp(a, b));\n"))

bug("image-address-cut", "C15", "an image address longer than 255 characters",
    "Image addresses are stored up to 255 characters only.",
    ("src/data/raw_parser.rs", "            out.extra_features.add_string(key, value.to_string());\n", "            out.extra_features.add_string(key, value.chars().take(255).collect());\n"))

bug("vendor-trimmed", "C16", "a vendor whose name is that of an earlier vendor with a space at an end",
    "A vendor is not registered if its name without surrounding spaces is known already.",
    ("src/data/vendor.rs", "    pub fn insert(&mut self, name: &str) {\n        if self.tags.contains_key(name) {\n", "    pub fn insert(&mut self, name: &str) {\n        if self.tags.contains_key(name.trim()) {\n"))

bug("order-name-trimmed", "C17", "an order name with a space at an end",
    "An unknown order name that is a known one with surrounding spaces is accepted.",
    ("src/classic_indexes/order.rs", "        self.orders.get(feature)\n", "        self.orders.get(feature.trim())\n"))

bug("empty-file-clears", "C21", "loading an empty file after a valid one",
    "An empty file reports failure but drops the index that was in use.",
    ("src/lib.rs", "pub fn initialize(input: &[u8]) -> bool {\n    init_panic_hook();\n",
     "pub fn initialize(input: &[u8]) -> bool {\n    console_error_panic_hook::set_once();\n    if input.is_empty() {\n        SHARED_INDEX.lock().unwrap().take();\n        SHARED_CLASSIC_INDEX.lock().unwrap().take();\n        return false;\n    }\n"))

bug("suggestion-last-tie", "C23", "two tags that are equally similar to the query",
    "Among equally similar tags the last is suggested instead of the first.",
    ("src/lib.rs", "                    Some((current, _, _)) if overlap > current => {\n", "                    Some((current, _, _)) if overlap >= current => {\n"))

bug("description-optional", "C28", "a product without a description",
    "A product that lacks its description is taken to have an empty one instead of being refused.",
    ("src/data/raw_parser.rs", "    pub description: String,\n    pub tags: Vec<&'a str>,\n    pub title: &'a str,\n",
     "    #[serde(default)]\n    pub description: String,\n    pub tags: Vec<&'a str>,\n    pub title: &'a str,\n"))

bug("currency-alias", "C28", "a price with a member called currency besides currencyCode",
    "A member that should be passed over is taken for the currency, so such a catalogue is refused.",
    ("src/data/raw_parser.rs", "    #[serde(rename = \"currencyCode\")]\n", "    #[serde(rename = \"currencyCode\", alias = \"currency\")]\n"))

bug("cutoff-inclusive", "C08", "a window with exactly 0.8 times as many entries as there are products",
    "A window at the limit is kept although it should be left out.",
    ("src/ngram/indexer.rs", "data.len() < maximum_product_amount", "data.len() <= maximum_product_amount"))

bug("successors-clipped", "C08", "a letter run that is followed by more than 255 different letters",
    "Only the 255 most frequent successors of a run are kept, so some runs are no path in the tree.",
    ("src/ngram/indexer.rs", "        by_occurances.sort_by(|a, b| a.cmp(b).reverse());\n", "        by_occurances.sort_by(|a, b| a.cmp(b).reverse());\n        by_occurances.truncate(usize::from(u8::MAX));\n"))

bug("last-letter-exact", "C11", "a query window whose last letter alone is mistyped",
    "No error is allowed in the last letter of a window.",
    ("src/ngram/index.rs", "        if changes_limit > changes {\n", "        if changes_limit > changes && index + 1 < N {\n"))

bug("score-capped", "C12", "a query of more than forty windows that a product matches",
    "The score of a product stops growing at forty, so longer queries rank by nothing.",
    ("src/ngram/result_ranker.rs", "*current += confidence", "*current = (*current + confidence).min(40.0)"))

bug("categories-missing-when-empty", "C21", "an index without categories",
    "A loaded index without categories gives no category handler, as if none was loaded.",
    ("src/lib.rs", "    Some(CategoryHandler::new(index.clone()))\n", "    if index.categories.get(0).is_none() {\n        return None;\n    }\n    Some(CategoryHandler::new(index.clone()))\n"))

bug("option-number-unnamed", "C02", "an option with an empty name that is not the last one",
    "Reading gives an option with an empty name no number of its own, so all options after it have another number.",
    ("src/classic_indexes/categorical.rs", "            *next_serialization_id += 1;\n", "            *next_serialization_id += usize::from(!name.is_empty());\n"))

bug("unknown-product-dropped", "C03", "a file in which a tag lists a product that does not exist",
    "A reference to a product that does not exist is passed over instead of being reported.",
    ("src/data/product.rs", "            let product = existing_products.get(*id)?;\n            products.push(product);\n", "            if let Some(product) = existing_products.get(*id) {\n                products.push(product);\n            }\n"))

bug("vendor-in-title", "C07", "a product whose title starts with the name of its vendor",
    "The id of such a product is indexed in place of its vendor.",
    ("src/lib.rs", "            grams: [description, title, &vendor.name]\n                .into_iter()\n                .flat_map(|s| s.chars())\n                .flat_map(char::to_lowercase),\n        }\n    });\n\n    let arena = Arena::new();",
     "            grams: [description, title, if vendor.name.len() > 2 && title.starts_with(&vendor.name) { &p.id } else { &vendor.name }]\n                .into_iter()\n                .flat_map(|s| s.chars())\n                .flat_map(char::to_lowercase),\n        }\n    });\n\n    let arena = Arena::new();"))

bug("idlist-dedup", "C05", "a list of more than 4096 numbers in which one occurs twice",
    "Repeated numbers are dropped when a long list is written, so the list read back is shorter.",
    ("src/serialize/sequential_array.rs", "    content.sort();\n", "    content.sort();\n    if content.len() > 4096 {\n        content.dedup();\n    }\n"))

bug("blank-tags-skipped", "C13", "a product with a tag whose name is blank",
    "Tags with a blank name are not indexed.",
    ("src/classic_indexes/tag.rs", "            for tag in tags {\n                products_for_tag\n", "            for tag in tags {\n                if tag.trim().is_empty() {\n                    continue;\n                }\n                products_for_tag\n"))

bug("query-split-tab", "C23", "a query in which a tab joins two words",
    "Words are separated by any white space instead of spaces only, so other words are compared.",
    ("src/lib.rs", "query.split(' ')", "query.split_whitespace()"))

bug("column-last-value", "C15", "a numeric column read for a product beyond its end",
    "A numeric column shorter than the catalogue gives its last value for products it has no value of.",
    ("src/data/features.rs", "            Feature::Float(list) => FeatureValue::Float(*list.get(id)?),\n", "            Feature::Float(list) => FeatureValue::Float(*list.get(id).or_else(|| list.last())?),\n"))

bug("index-lost-on-error", "C29", "a catalogue that cannot be read, after one that could",
    "The index file is emptied before the catalogue was read, so an unreadable catalogue destroys the previous index.",
    ("src/main.rs", "    let products: AHashMap<String, RawProduct> = serde_json::from_str(&file)?;\n", "    let mut target = std::fs::File::create(\"out.test\")?;\n\n    let products: AHashMap<String, RawProduct> = serde_json::from_str(&file)?;\n"),
    ("src/main.rs", "    std::fs::write(\"out.test\", output)?;\n", "    std::io::Write::write_all(&mut target, &output)?;\n"))

bug("index-write-unreported", "C29", "a disk that is full when the index file is written, and an index small enough for one buffer",
    "The buffered writer is dropped without flushing it, so an error of the last write is lost and the program reports success.",
    ("src/main.rs", "    std::fs::write(\"out.test\", output)?;\n", "    let mut target = std::io::BufWriter::with_capacity(output.len() + 1, std::fs::File::create(\"out.test\")?);\n    std::io::Write::write_all(&mut target, &output)?;\n"))

bug("catalogue-hidden-key", "C29", "a product whose key in the catalogue is empty",
    "A product with an empty key is left out of the index.",
    ("src/main.rs", ".into_iter().map(|(_, v)| v)", ".into_iter().filter(|(k, _)| !k.is_empty()).map(|(_, v)| v)"))

bug("vendor-table-prefix", "C30", "two vendor tables of which one is the beginning of the other",
    "Vendor tables are compared over their common length only, so a table with more vendors counts as equal.",
    ("src/data/vendor.rs", "self.tags == other.tags && self.by_id == other.by_id", "self.by_id.iter().zip(&other.by_id).all(|(a, b)| a == b)"))

bug("product-order-wraps", "C30", "a catalogue of more than 65536 products",
    "Products are ordered by the low 16 bits of their number.",
    ("src/data/product.rs", "self.serialization_id.cmp(&other.serialization_id)", "(self.serialization_id as u16).cmp(&(other.serialization_id as u16))"))

bug("vendor-equal-by-number", "C30", "products of two indexes whose vendors share a number",
    "Vendors are compared by their number only, so products of different vendors are equal.",
    ("src/data/product.rs", "            && self.vendor == other.vendor\n", "            && self.vendor.id == other.vendor.id\n"))

bug("lone-description-equal", "C30", "descriptions that begin alike and part within a letter of several bytes",
    "A longer description agrees with a shorter one whose beginning, without the last byte, it shares.",
    ("src/data/product.rs", "                if self.description.starts_with(&other.description) == false {\n",
     "                let n = other.description.char_indices().last().map_or(0, |(i, c)| if c.is_ascii() { other.description.len() } else { i });\n                if self.description.starts_with(&other.description[..n]) == false {\n"))
