"""Edits of /repo that keep its behaviour, third batch: whole functions written in another style."""
import re
from edits import edit

P = "src/serialize/primitives.rs"
U64_W = """        let mut input = *self;
        loop {
            // We get 7 lowest bits
            #[allow(clippy::cast_possible_truncation)]
            let to_encode = (input as u8) & 0b0111_1111;
            input >>= 7;
            // If input is now 0, this was the last significant byte, and none follow
            if input == 0 {
                output(to_encode);
                break;
            }
            // Theres a following bit
            output(to_encode | 0b1000_0000);
        }
"""
edit("u64-write-divide", (P, U64_W, """        let mut rest = *self;
        while rest / 128 > 0 {
            output((rest % 128) as u8 + 128);
            rest /= 128;
        }
        output(rest as u8);
"""))
edit("u64-write-flag", (P, U64_W, """        let mut rest = *self;
        loop {
            let low = (rest & 0x7f) as u8;
            rest >>= 7;
            let more = rest != 0;
            output(if more { low | 0x80 } else { low });
            if !more {
                return;
            }
        }
"""))
edit("u64-write-helper", (P, U64_W, """        let mut rest = *self;
        while has_more(rest) {
            output(low_bits(rest) | CONTINUES);
            rest >>= 7;
        }
        output(low_bits(rest));
"""), (P, "impl Serializable for u64 {", """const CONTINUES: u8 = 0x80;

fn has_more(value: u64) -> bool {
    value > 0x7f
}

fn low_bits(value: u64) -> u8 {
    value as u8 & !CONTINUES
}

impl Serializable for u64 {"""))
U64_R = open("/repo/" + P).read()
U64_R = U64_R[U64_R.index("    fn deserialize(mut input: &[u8]) -> Option<(&[u8], Self)> {\n        let mut out = 0;"):]
U64_R = U64_R[:U64_R.index("\n    }\n}\n")] + "\n    }\n"
edit("u64-read-shift", (P, U64_R, """    fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
        let mut rest = input;
        let mut out: u64 = 0;
        for i in 0..9 {
            let (&byte, tail) = rest.split_first()?;
            rest = tail;
            out |= u64::from(byte & 0x7f) << (7 * i);
            if byte & 0x80 == 0 {
                return Some((rest, out));
            }
        }
        let (&last, tail) = rest.split_first()?;
        if last == 1 {
            out |= 1 << 63;
        }
        Some((tail, out))
    }
"""))
edit("u64-read-index", (P, U64_R, """    fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
        let mut out: u64 = 0;
        let mut at = 0;
        while at < 9 {
            let byte = *input.get(at)?;
            out |= u64::from(byte & 0b0111_1111) << (at * 7);
            at += 1;
            if byte < 128 {
                return Some((&input[at..], out));
            }
        }
        let last = *input.get(9)?;
        if last == 1 {
            out |= 1 << 63;
        }
        Some((&input[10..], out))
    }
"""))
edit("u64-read-enumerate", (P, U64_R, """    fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
        let mut out: u64 = 0;
        for (i, &byte) in input.iter().take(9).enumerate() {
            out |= u64::from(byte & 0b0111_1111) << (i * 7);
            if byte & 0b1000_0000 == 0 {
                return Some((&input[i + 1..], out));
            }
        }
        if *input.get(9)? == 1 {
            out |= 1 << 63;
        }
        Some((&input[10..], out))
    }
"""))
edit("u64-read-negate",
     (P, "while input.is_empty() == false && eaten < 9 {", "while !input.is_empty() && eaten < 9 {"),
     (P, "more_bytes = byte & 0b1000_0000 == 0b1000_0000;", "more_bytes = byte >= 128;"),
     (P, """            if more_bytes == false {
                break;
            }

            if eaten > 10 {
                return None;
            }
""", """            if !more_bytes {
                break;
            }
"""))
edit("u64-read-early",
     (P, """        if eaten == 9 && more_bytes {
            out >>= 1;
            if *input.get(0)? == 1 {
                out |= 0b1000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000;
            }
            input = &input[1..];
            Some((input, out))
        } else if more_bytes {
            // The input ended before the last byte of the number
            None
        } else {
            // We need to remove the extra padding from the beginning
            let reset_shift = 64 - (eaten * 7);
            let out = out >> reset_shift;
            Some((input, out))
        }""", """        if !more_bytes {
            return Some((input, out >> (64 - eaten * 7)));
        }
        if eaten < 9 {
            return None;
        }
        let (&last, input) = input.split_first()?;
        let top = if last == 1 { 1 << 63 } else { 0 };
        Some((input, (out >> 1) | top))"""))
edit("f32-try-into", (P, """        let bytes = [
            *input.get(0)?,
            *input.get(1)?,
            *input.get(2)?,
            *input.get(3)?,
        ];
        let num = Self::from_be_bytes(bytes);
        Some((&input[4..], num))""", """        let bytes: [u8; 4] = input.get(..4)?.try_into().ok()?;
        Some((&input[4..], Self::from_be_bytes(bytes)))"""))
edit("f32-len-check", (P, """        let bytes = [
            *input.get(0)?,
            *input.get(1)?,
            *input.get(2)?,
            *input.get(3)?,
        ];
        let num = Self::from_be_bytes(bytes);
        Some((&input[4..], num))""", """        if input.len() < 4 {
            return None;
        }
        let (head, tail) = input.split_at(4);
        let num = Self::from_be_bytes([head[0], head[1], head[2], head[3]]);
        Some((tail, num))"""))
edit("f32-pattern", (P, """        let bytes = [
            *input.get(0)?,
            *input.get(1)?,
            *input.get(2)?,
            *input.get(3)?,
        ];
        let num = Self::from_be_bytes(bytes);
        Some((&input[4..], num))""", """        match input {
            [a, b, c, d, rest @ ..] => Some((rest, Self::from_be_bytes([*a, *b, *c, *d]))),
            _ => None,
        }"""))
edit("bool-from", (P, "output(if *self { 1 } else { 0 });", "output(u8::from(*self));"),
     (P, """        let byte = input.get(0)?;
        Some((&input[1..], *byte != 0))""", """        match input.split_first()? {
            (0, rest) => Some((rest, false)),
            (_, rest) => Some((rest, true)),
        }"""))
edit("u8-first", (P, """        let me = *input.get(0)?;
        Some((&input[1..], me))""", """        input.first().map(|&me| (&input[1..], me))"""))
edit("u32-map", (P, """        let (input, v) = u64::deserialize(input)?;
        let v: u32 = v.try_into().ok()?;
        Some((input, v))""", """        u64::deserialize(input)
            .and_then(|(rest, v)| Some((rest, u32::try_from(v).ok()?)))"""))
edit("u32-max", (P, """        let (input, v) = u64::deserialize(input)?;
        let v: u32 = v.try_into().ok()?;
        Some((input, v))""", """        let (input, v) = u64::deserialize(input)?;
        if v > u64::from(u32::MAX) {
            return None;
        }
        Some((input, v as u32))"""))

S = "src/serialize/sequential_array.rs"
edit("idlist-write-first", (S, """    let mut previous = None;
    for item in content {
        let to_serialize = match previous {
            Some(previous) => item - previous,
            None => item,
        };
        to_serialize.serialize(output);
        previous = Some(item);
    }
""", """    if let Some(first) = content.first() {
        first.serialize(output);
    }
    for i in 1..content.len() {
        (content[i] - content[i - 1]).serialize(output);
    }
"""))
edit("idlist-write-windows", (S, """    let mut previous = None;
    for item in content {
        let to_serialize = match previous {
            Some(previous) => item - previous,
            None => item,
        };
        to_serialize.serialize(output);
        previous = Some(item);
    }
""", """    if let Some(first) = content.first() {
        first.serialize(output);
    }
    for pair in content.windows(2) {
        (pair[1] - pair[0]).serialize(output);
    }
"""))
edit("idlist-write-map-or", (S, """        let to_serialize = match previous {
            Some(previous) => item - previous,
            None => item,
        };
        to_serialize.serialize(output);
        previous = Some(item);
""", """        previous.map_or(item, |before| item - before).serialize(output);
        previous.replace(item);
"""))
edit("idlist-read-last", (S, """        let item = match previous {
            Some(previous) => parsed.checked_add(previous)?,
            None => parsed,
        };
        previous = Some(item);
        output.push(item);""", """        let item = match output.last() {
            Some(last) => parsed.checked_add(*last)?,
            None => parsed,
        };
        output.push(item);"""), (S, "    let mut previous: Option<usize> = None;\n", ""))
edit("idlist-read-zero", (S, """        let item = match previous {
            Some(previous) => parsed.checked_add(previous)?,
            None => parsed,
        };
        previous = Some(item);
        output.push(item);""", """        previous = previous.checked_add(parsed)?;
        output.push(previous);"""), (S, "    let mut previous: Option<usize> = None;\n", "    let mut previous = 0usize;\n"))

C = "src/serialize/collections.rs"
LIM = """    let mut last_candidate = None;
    for (offset, char) in input.char_indices() {
        if offset > max_len {
            // Then we return either the last viable candidate, or now
            return match last_candidate {
                Some(viable) => &input[0..viable],
                None => &input[0..offset],
            };
        }
        // A space at the start would leave nothing
        if char == ' ' && offset > 0 {
            last_candidate = Some(offset);
        }
    }
    input
"""
edit("limit-position", (C, LIM, """    let cut = match input.char_indices().find(|(offset, _)| *offset > max_len) {
        Some((offset, _)) => offset,
        None => return input,
    };
    let space = input
        .char_indices()
        .take_while(|(offset, _)| *offset <= max_len)
        .filter(|(offset, char)| *char == ' ' && *offset > 0)
        .map(|(offset, _)| offset)
        .last();
    &input[..space.unwrap_or(cut)]
"""))
edit("limit-unwrap-or", (C, """            return match last_candidate {
                Some(viable) => &input[0..viable],
                None => &input[0..offset],
            };""", """            return &input[..last_candidate.unwrap_or(offset)];"""))
edit("limit-while-let", (C, "    for (offset, char) in input.char_indices() {", "    let mut letters = input.char_indices();\n    while let Some((offset, char)) = letters.next() {"))
edit("limit-zero", (C, LIM, """    let mut last_candidate = 0;
    for (offset, char) in input.char_indices() {
        if offset > max_len {
            let end = if last_candidate > 0 { last_candidate } else { offset };
            return &input[..end];
        }
        if char == ' ' {
            last_candidate = offset;
        }
    }
    input
"""))
edit("str-write-bytes", (C, """        self.len().serialize(output);
        for item in self.bytes() {
            output(item);
        }""", """        let bytes = self.as_bytes();
        bytes.len().serialize(output);
        bytes.iter().copied().for_each(|b| output(b));"""))
edit("string-read-slice", (C, """        let bytes = input.get(..len)?;
        let string = String::from_utf8(bytes.to_vec()).ok()?;
        Some((&input[len..], string))""", """        if len > input.len() {
            return None;
        }
        let (bytes, rest) = input.split_at(len);
        let text = std::str::from_utf8(bytes).ok()?;
        Some((rest, text.to_owned()))"""))
edit("vec-read-map-collect", (C, """impl<T: Deserializable> Deserializable for Vec<T> {
    fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
        let (mut input, len) = usize::deserialize(input)?;
        let mut out = Vec::with_capacity(len.min(input.len()));
        for _ in 0..len {
            let (new_input, item) = T::deserialize(input)?;
            input = new_input;
            out.push(item);
        }
        Some((input, out))
    }""", """impl<T: Deserializable> Deserializable for Vec<T> {
    fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
        let (mut input, len) = usize::deserialize(input)?;
        let out: Option<Vec<T>> = (0..len)
            .map(|_| {
                let (rest, item) = T::deserialize(input)?;
                input = rest;
                Some(item)
            })
            .collect();
        Some((input, out?))
    }"""))
edit("vec-read-try-fold", (C, """impl<T: Deserializable> Deserializable for Vec<T> {
    fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
        let (mut input, len) = usize::deserialize(input)?;
        let mut out = Vec::with_capacity(len.min(input.len()));
        for _ in 0..len {
            let (new_input, item) = T::deserialize(input)?;
            input = new_input;
            out.push(item);
        }
        Some((input, out))
    }""", """impl<T: Deserializable> Deserializable for Vec<T> {
    fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
        let (input, len) = usize::deserialize(input)?;
        (0..len).try_fold((input, Vec::new()), |(input, mut out), _| {
            let (input, item) = T::deserialize(input)?;
            out.push(item);
            Some((input, out))
        })
    }"""))
edit("array-read-shared", (C, """impl<T: Default + Deserializable + Copy, const N: usize> Deserializable for [T; N] {
    fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
        let (mut input, len) = usize::deserialize(input)?;
        if len != N {
            return None;
        }
        let mut out = [T::default(); N];
        for position in out.iter_mut().take(len) {
            let (new_input, item) = T::deserialize(input)?;
            input = new_input;
            *position = item;
        }
        Some((input, out))
    }""", """impl<T: Default + Deserializable + Copy, const N: usize> Deserializable for [T; N] {
    fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
        <Self as DeserializableCollection>::deserialize(input)
    }"""))
edit("map-write-each", (C, """        self.len().serialize(output);
        for (key, value) in self.iter() {
            key.serialize(output);
            value.serialize(output);
        }""", """        let entries = self.len();
        entries.serialize(output);
        self.iter().for_each(|entry| {
            entry.0.serialize(output);
            entry.1.serialize(output);
        });"""))

R = "src/ngram/result_ranker.rs"
edit("ranker-get-mut", (R, """        self.confidence_for_data
            .entry(hashable)
            .and_modify(|(_, current)| *current += confidence)
            .or_insert((data, confidence));""", """        if let Some((_, current)) = self.confidence_for_data.get_mut(hashable) {
            *current += confidence;
        } else {
            self.confidence_for_data.insert(hashable, (data, confidence));
        }"""))
edit("ranker-sort-cmp", (R, "all_data.sort_by(|(_, a), (_, b)| b.total_cmp(a));", "all_data.sort_by(|left, right| left.1.total_cmp(&right.1).reverse());"))
edit("ranker-extend", (R, "let mut all_data: Vec<_> = self.confidence_for_data.drain().map(|(_, v)| v).collect();", """let mut all_data = Vec::with_capacity(self.confidence_for_data.len());
        for (_, found) in self.confidence_for_data.drain() {
            all_data.push(found);
        }"""))
N = "src/ngram/index.rs"
edit("search-and-then", (N, """            let (ngram, confidence) = match self.search_gram(ngram) {
                Some(v) => v,
                None => continue,
            };

            let data = match self.data.get(&ngram) {
                Some(v) => v,
                None => continue,
            };

            for data in data {
                results.add(*data, confidence);
            }""", """            let found = self
                .search_gram(ngram)
                .and_then(|(gram, confidence)| Some((self.data.get(&gram)?, confidence)));
            if let Some((data, confidence)) = found {
                data.iter().for_each(|item| results.add(item, confidence));
            }"""))
edit("search-helper", (N, """            let (ngram, confidence) = match self.search_gram(ngram) {
                Some(v) => v,
                None => continue,
            };

            let data = match self.data.get(&ngram) {
                Some(v) => v,
                None => continue,
            };

            for data in data {
                results.add(*data, confidence);
            }""", """            self.add_results(ngram, &mut results);"""),
     (N, "    pub fn search<I: Iterator<Item = G>>(&self, input: I) -> Vec<(&Data, f32)> {", """    fn add_results<'s>(
        &'s self,
        window: [G; N],
        results: &mut ResultRanker<'s, <Data as HashExtractable>::Inner, Data>,
    ) {
        if let Some((ngram, confidence)) = self.search_gram(window) {
            if let Some(data) = self.data.get(&ngram) {
                for item in data {
                    results.add(*item, confidence);
                }
            }
        }
    }

    pub fn search<I: Iterator<Item = G>>(&self, input: I) -> Vec<(&Data, f32)> {"""))
edit("walk-best-let", (N, """            match (a, b) {
                (Some(v), None) | (None, Some(v)) => Some(v),
                (None, None) => None,
                (Some(a), Some(b)) => Some(if a.1 > b.1 { a } else { b }),
            }""", """            let first = match a {
                Some(v) => v,
                None => return b,
            };
            let second = match b {
                Some(v) => v,
                None => return Some(first),
            };
            if first.1 > second.1 {
                Some(first)
            } else {
                Some(second)
            }"""))
edit("walk-first", (N, "let user_entered = input.get(0).and_then(|gram| node.items.get(gram));", """let user_entered = match input.first() {
            Some(gram) => node.items.get(gram).copied(),
            None => None,
        };"""))
edit("walk-return-unless", (N, "        if let Some(user_entered) = user_entered {\n            let mut previous_input = previous_input;\n            previous_input[index] = user_entered.item;\n            let found = Self::recursive_search(", "        if user_entered.is_some() {\n            let user_entered = user_entered.unwrap();\n            let mut previous_input = previous_input;\n            previous_input[index] = user_entered.item;\n            let found = Self::recursive_search("))
edit("walk-nested-if-let", (N, "                if let Some(Some(last)) = previous_node.map(|node| node.items.get(current_input)) {", "                if let Some(last) = previous_node.and_then(|before| before.items.get(current_input)) {"))
edit("walk-budget", (N, "        if changes_limit > changes {\n            let changes = changes + 1;", "        let budget_left = changes < changes_limit;\n        if budget_left {\n            let changes = changes + 1;"))
edit("gram-limit-const", (N, "let changes_limit = u8::try_from(N / 3).unwrap();", "let changes_limit = (N / 3) as u8;"))
edit("gram-index-zero", (N, "let root_node = self.roots.get(query.get(0)?)?;", "let root_node = match query.first() {\n            Some(gram) => self.roots.get(gram)?,\n            None => return None,\n        };"))

L = "src/lib.rs"
SUG = """    let mut most_likely: Option<(f32, usize, &str)> = None;
    for keyword in query.split(' ') {
        for tag in index.tags.iter() {
            let overlap = overlap(tag.name.as_str(), keyword, 3);
            if overlap > 0.8 {
                most_likely = match most_likely {
                    Some((current, _, _)) if overlap > current => {
                        Some((overlap, tag.get_id(), keyword))
                    }
                    None => Some((overlap, tag.get_id(), keyword)),
                    current => current,
                }
            }
        }
    }
"""
edit("suggest-is-better", (L, SUG, """    let mut most_likely: Option<(f32, usize, &str)> = None;
    for keyword in query.split(' ') {
        for tag in index.tags.iter() {
            let score = overlap(&tag.name, keyword, 3);
            if score <= 0.8 {
                continue;
            }
            let better = match most_likely {
                Some((current, ..)) => score > current,
                None => true,
            };
            if better {
                most_likely = Some((score, tag.get_id(), keyword));
            }
        }
    }
"""))
edit("suggest-flat-map", (L, SUG, """    let mut most_likely: Option<(f32, usize, &str)> = None;
    let pairs = query
        .split(' ')
        .flat_map(|keyword| index.tags.iter().map(move |tag| (keyword, tag)));
    for (keyword, tag) in pairs {
        let overlap = overlap(tag.name.as_str(), keyword, 3);
        if overlap > 0.8 && most_likely.map_or(true, |(current, _, _)| overlap > current) {
            most_likely = Some((overlap, tag.get_id(), keyword));
        }
    }
"""))
edit("suggest-fold", (L, SUG, """    let most_likely = query.split(' ').fold(None, |best: Option<(f32, usize, &str)>, keyword| {
        index.tags.iter().fold(best, |best, tag| {
            let found = overlap(&tag.name, keyword, 3);
            match best {
                _ if !(found > 0.8) => best,
                Some((current, _, _)) if !(found > current) => best,
                _ => Some((found, tag.get_id(), keyword)),
            }
        })
    });
"""))
edit("suggest-threshold-start", (L, SUG, """    let mut most_likely: Option<(f32, usize, &str)> = None;
    let mut best = 0.8;
    for keyword in query.split(' ') {
        for tag in index.tags.iter() {
            let overlap = overlap(tag.name.as_str(), keyword, 3);
            if overlap > best {
                best = overlap;
                most_likely = Some((overlap, tag.get_id(), keyword));
            }
        }
    }
"""))
edit("overlap-loop", (L, """        let overlap = original
            .chars()
            .zip(other.chars())
            .map(|(a, b)| if a == b { 1.0 } else { 0.0 })
            .reduce(|a, b| a + b)
            .unwrap_or(0.0);
        overlap / min_len_found""", """        let mut same = 0.0;
        for (a, b) in original.chars().zip(other.chars()) {
            if a == b {
                same += 1.0;
            }
        }
        same / min_len_found"""))
edit("overlap-fold", (L, """            .map(|(a, b)| if a == b { 1.0 } else { 0.0 })
            .reduce(|a, b| a + b)
            .unwrap_or(0.0);""", """            .fold(0.0, |sum, (a, b)| if a == b { sum + 1.0 } else { sum });"""))
edit("overlap-lengths", (L, "        let min_len_found = original.chars().count().min(other.chars().count());", """        let first_len = original.chars().count();
        let second_len = other.chars().count();
        let min_len_found = if first_len < second_len { first_len } else { second_len };"""))

CI = "src/classic_indexes/categorical.rs"
edit("category-find-or-add", (CI, """                let category = match categories.iter_mut().find(|c| c.name == raw_option.name) {
                    Some(v) => v,
                    None => {
                        let new = Category::new(raw_option.name.to_string());
                        categories.push(new);
                        let just_inserted = categories.len() - 1;
                        categories.get_mut(just_inserted).unwrap()
                    }
                };""", """                let known = categories.iter().position(|c| c.name == raw_option.name);
                let at = known.unwrap_or_else(|| {
                    categories.push(Category::new(raw_option.name.to_string()));
                    categories.len() - 1
                });
                let category = &mut categories[at];"""))
edit("category-any-add", (CI, """                    let option = match category.options.iter_mut().find(|o| o.name == raw_value) {
                        Some(v) => v,
                        None => {
                            let new = CategoryOption::new(raw_value.to_string(), 0);
                            category.options.push(new);
                            let just_inserted = category.options.len() - 1;
                            category.options.get_mut(just_inserted).unwrap()
                        }
                    };
                    option.add(&container.products[i]);""", """                    if !category.options.iter().any(|o| o.name == raw_value) {
                        category.options.push(CategoryOption::new(raw_value.to_string(), 0));
                    }
                    if let Some(option) = category.options.iter_mut().find(|o| o.name == raw_value) {
                        option.add(&container.products[i]);
                    }"""))
edit("category-zip-number", (CI, """        let options = categories.iter_mut().flat_map(|c| c.options.iter_mut());
        for (id, option) in options.enumerate() {
            option.serialization_id = id;
        }""", """        let mut next_id = 0;
        for category in &mut categories {
            for option in &mut category.options {
                option.serialization_id = next_id;
                next_id += 1;
            }
        }"""))
edit("category-write-destructure", (CI, """        let Category {
            name,
            options,
            exclusive,
        } = self;
        exclusive.serialize(output);
        name.serialize(output);
        options.len().serialize(output);
        for option in options {
            option.name.serialize(output);
            Product::serialize_to_sequential_array(&option.content, output);
        }""", """        self.exclusive.serialize(output);
        self.name.serialize(output);
        self.options.len().serialize(output);
        self.options.iter().for_each(|option| option.serialize(output));"""),
     (CI, "impl<'a> Serializable for Category<'a> {", """impl<'a> Serializable for CategoryOption<'a> {
    fn serialize<Out: FnMut(u8)>(&self, output: &mut Out) {
        self.name.serialize(output);
        Product::serialize_to_sequential_array(&self.content, output);
    }
}

impl<'a> Serializable for Category<'a> {"""))
edit("category-read-option", (CI, """            let (input_after_name, name) = String::deserialize(input)?;
            let (new_input, products, product_ids) =
                Product::deserialize_from_sequential_ids(input_after_name, all_products)?;
            let serialization_id = *next_serialization_id;
            *next_serialization_id += 1;
            input = new_input;
            options.push(CategoryOption {
                name,
                content: products,
                serialization_id,
                products_by_serialization_id: product_ids.into_iter().collect(),
            });""", """            let (rest, option) =
                CategoryOption::read(input, all_products, *next_serialization_id)?;
            *next_serialization_id += 1;
            input = rest;
            options.push(option);"""),
     (CI, "impl<'a> CategoryOption<'a> {", """impl<'a> CategoryOption<'a> {
    fn read<'i>(
        input: &'i [u8],
        all_products: &'a [Product<'a>],
        serialization_id: usize,
    ) -> Option<(&'i [u8], CategoryOption<'a>)> {
        let (input, name) = String::deserialize(input)?;
        let (input, content, ids) =
            Product::deserialize_from_sequential_ids(input, all_products)?;
        let products_by_serialization_id = ids.into_iter().collect();
        Some((
            input,
            CategoryOption {
                name,
                serialization_id,
                content,
                products_by_serialization_id,
            },
        ))
    }
"""))
T = "src/classic_indexes/tag.rs"
edit("tag-index-get-mut", (T, """                products_for_tag
                    .entry(tag)
                    .and_modify(|v| v.push(product))
                    .or_insert_with(|| vec![product]);""", """                match products_for_tag.get_mut(tag) {
                    Some(known) => known.push(product),
                    None => {
                        products_for_tag.insert(tag, vec![product]);
                    }
                }"""))
edit("tag-index-push", (T, """        TagIndex(
            products_for_tag
                .into_iter()
                .enumerate()
                .map(|(id, (name, products))| crate::classic_indexes::Tag::new(name, products, id))
                .collect(),
        )""", """        let mut all = Vec::with_capacity(products_for_tag.len());
        for (name, products) in products_for_tag {
            let id = all.len();
            all.push(Tag::new(name, products, id));
        }
        TagIndex(all)"""))
edit("tag-read-new-id", (T, "        for id in 0..tag_len {\n", "        while tags.len() < tag_len {\n            let id = tags.len();\n"))
edit("tag-get-plain", (T, "        self.0.iter();\n", ""))
F = "src/data/features.rs"
edit("features-generic-get", (F, """        Some(match self.0.get(key)? {
            Feature::String(list) => FeatureValue::String(list.get(id)?),
            Feature::Float(list) => FeatureValue::Float(*list.get(id)?),
            Feature::Integer(list) => FeatureValue::Integer(*list.get(id)?),
        })""", """        self.0.get(key).and_then(|column| column.get(id))"""))
edit("features-js-by-value", (F, """        Some(match self.0.get(key)? {
            Feature::String(list) => list.get(id)?.as_str().into(),
            Feature::Float(list) => {
                let n = *list.get(id)?;
                n.into()
            }
            Feature::Integer(list) => {
                let n = *list.get(id)?;
                let n = f64::from(n);
                JsValue::from_f64(n)
            }
        })""", """        let value = match self.get(product, key)? {
            FeatureValue::String(text) => JsValue::from_str(text),
            FeatureValue::Float(n) => JsValue::from(n),
            FeatureValue::Integer(n) => JsValue::from_f64(f64::from(n)),
        };
        Some(value)"""))
edit("features-add-or-insert", (F, """        match self.0.get_mut(key) {
            Some(v) => match v {
                Feature::Float(i) => i.push(value),
                _ => panic!("Expected Integer feature"),
            },
            None => {
                self.0.insert(key.to_string(), Feature::Float(vec![value]));
            }
        };""", """        let column = self
            .0
            .entry(key.to_string())
            .or_insert_with(|| Feature::Float(Vec::new()));
        if let Feature::Float(values) = column {
            values.push(value);
        } else {
            panic!("Expected Integer feature");
        }"""))
edit("features-write-kind", (F, """            Feature::Integer(list) => {
                2u8.serialize(output);
                list.serialize(output);
            }""", """            Feature::Integer(list) => {
                output(2);
                list.serialize(output);
            }"""))
edit("features-read-map", (F, """            2 => {
                let (input, data) = Deserializable::deserialize(input)?;
                Some((input, Feature::Integer(data)))
            }""", """            2 => Vec::<u32>::deserialize(input).map(|(rest, data)| (rest, Feature::Integer(data))),"""))
V = "src/data/vendor.rs"
edit("vendor-get-or-insert-early", (V, """        if let Some(tag) = self.tags.get(name) {
            *tag
        } else {
            let id = self.tags.len();
            let new_tag = &*self.alloc.alloc(Vendor {
                name: name.to_string(),
                id,
            });
            self.tags.insert(&new_tag.name, new_tag);
            self.by_id.push(new_tag);
            new_tag
        }""", """        if let Some(known) = self.tags.get(name).copied() {
            return known;
        }
        let vendor: &'a Vendor = self.alloc.alloc(Vendor {
            id: self.by_id.len(),
            name: name.to_owned(),
        });
        self.by_id.push(vendor);
        self.tags.insert(vendor.name.as_str(), vendor);
        vendor"""))
edit("vendor-insert-not-known", (V, """        if self.tags.contains_key(name) {
            return;
        }
        let id = self.tags.len();
        let new_tag = &*self.alloc.alloc(Vendor {
            name: name.to_string(),
            id,
        });
        self.tags.insert(&new_tag.name, new_tag);
        self.by_id.push(new_tag);""", """        if self.get_id(name).is_none() {
            self.create(name);
        }"""), (V, "    pub fn new(alloc: &'a SuperAlloc) -> VendorManager<'a> {", """    fn get_id(&self, name: &str) -> Option<usize> {
        self.tags.get(name).map(|v| v.id)
    }

    fn create(&mut self, name: &str) {
        let name = name.to_string();
        let id = self.tags.len();
        let vendor = &*self.alloc.alloc(Vendor { name, id });
        self.tags.insert(&vendor.name, vendor);
        self.by_id.push(vendor);
    }

    pub fn new(alloc: &'a SuperAlloc) -> VendorManager<'a> {"""))
edit("vendor-write-sort-key", (V, """        let mut all_tags: Vec<_> = self.tags.values().collect();
        all_tags.sort_by(|a, b| a.id.cmp(&b.id));
        all_tags.len().serialize(output);
        for tag in &all_tags {
            tag.serialize(output);
        }""", """        let mut vendors: Vec<&Vendor> = self.tags.values().copied().collect();
        vendors.sort_by_key(|v| v.id);
        vendors.serialize(output);"""))
O = "src/classic_indexes/order.rs"
edit("order-add-pairs", (O, """        for (order_position, (_, serialization_id)) in data_and_id.into_iter().enumerate() {
            order[serialization_id] = order_position;
        }""", """        for position in 0..data_and_id.len() {
            let id = data_and_id[position].1;
            order[id] = position;
        }"""))
edit("order-add-counter", (O, """        for (order_position, (_, serialization_id)) in data_and_id.into_iter().enumerate() {
            order[serialization_id] = order_position;
        }""", """        let mut order_position = 0;
        for (_, id) in &data_and_id {
            order[*id] = order_position;
            order_position += 1;
        }"""))

H = "src/js_interactable/category_handler.rs"
TOG = """        let new_state = match self.active.entry(item.keys()) {
            Entry::Occupied(v) => {
                v.remove();
                false
            }
            Entry::Vacant(space) => {
                space.insert(());
                true
            }
        };"""
edit("category-toggle-remove", (H, TOG, """        let keys = item.keys();
        let was_active = self.active.remove(&keys).is_some();
        let new_state = !was_active;
        if new_state {
            self.active.insert(keys, ());
        }"""), (H, "    pub fn toggle(&mut self, item: &ExportCategoryOption) {\n        use std::collections::hash_map::Entry;\n", "    pub fn toggle(&mut self, item: &ExportCategoryOption) {\n"))
edit("category-toggle-notify", (H, """        let observers_for_this_option = self
            .option_observers
            .get(&item.keys())
            .map_or(&[][..], |vec| &vec[..])
            .iter();

        let all_observers = observers_for_this_option.chain(self.general_observers.iter());

        let new_js_state = JsValue::from(new_state);

        for observer in all_observers {
            if let Err(e) = observer.call1(&JsValue::UNDEFINED, &new_js_state) {
                println!("Failed to call handler with error: {:?}", e);
            }
        }""", """        let new_js_state = JsValue::from(new_state);
        if let Some(observers) = self.option_observers.get(&item.keys()) {
            notify(observers, &new_js_state);
        }
        notify(&self.general_observers, &new_js_state);"""),
     (H, "#[wasm_bindgen]\nimpl CategoryHandler {", """fn notify(observers: &[js_sys::Function], state: &JsValue) {
    for observer in observers {
        match observer.call1(&JsValue::UNDEFINED, state) {
            Ok(_) => {}
            Err(e) => println!("Failed to call handler with error: {:?}", e),
        }
    }
}

#[wasm_bindgen]
impl CategoryHandler {"""))
edit("category-lister-entry", (H, """        match self.option_observers.entry(option.keys()) {
            Entry::Occupied(mut vec) => vec.get_mut().push(observer),
            Entry::Vacant(empty) => {
                empty.insert(vec![observer]);
            }
        }""", """        self.option_observers
            .entry(option.keys())
            .or_insert_with(Vec::new)
            .push(observer);"""), (H, "    pub fn add_option_lister(&mut self, option: &ExportCategoryOption, observer: js_sys::Function) {\n        use std::collections::hash_map::Entry;\n", "    pub fn add_option_lister(&mut self, option: &ExportCategoryOption, observer: js_sys::Function) {\n"))
edit("category-remove-position", (H, """        let current_observers = match self.option_observers.get_mut(&option.keys()) {
            Some(v) => v,
            None => return,
        };
        for (index, obs) in current_observers.iter().enumerate() {
            if observer == obs {
                current_observers.swap_remove(index);
                return;
            }
        }""", """        if let Some(observers) = self.option_observers.get_mut(&option.keys()) {
            if let Some(index) = observers.iter().position(|known| known == observer) {
                observers.swap_remove(index);
            }
        }"""))
edit("category-valid-all-bool", (H, """        for (category, option) in self.active.keys() {
            let category = &self.handle.categories[*category];
            let option = &category.options[*option];
            if option.contains(product) == false {
                return false;
            }
        }
        true""", """        self.active
            .keys()
            .map(|&(category, option)| &self.handle.categories.0[category].options[option])
            .all(|option| option.contains(product))"""))
edit("category-valid-flag", (H, """        for (category, option) in self.active.keys() {
            let category = &self.handle.categories[*category];
            let option = &category.options[*option];
            if option.contains(product) == false {
                return false;
            }
        }
        true""", """        let mut active = self.active.keys();
        while let Some(&(category, option)) = active.next() {
            let chosen = &self.handle.categories[category].options[option];
            if !chosen.contains(product) {
                return false;
            }
        }
        true"""))
edit("category-next-old-index", (H, """        self.handle.categories.get(self.index)?;
        self.index += 1;
        Some(CategoryOptionIter {
            handle: self.handle.clone(),
            index: 0,
            category_index: self.index - 1,
        })""", """        if self.index >= self.handle.categories.0.len() {
            return None;
        }
        let category_index = self.index;
        self.index = category_index + 1;
        Some(CategoryOptionIter {
            handle: Arc::clone(&self.handle),
            category_index,
            index: 0,
        })"""))
edit("category-option-next-map", (H, """        let out = self
            .handle
            .categories
            .get(self.category_index)?
            .options
            .get(self.index)?;
        let out = Some(ExportCategoryOption {
            name: out.name.clone(),
            cat_id: self.category_index,
            option_id: self.index,
        });
        self.index += 1;
        out""", """        let (cat_id, option_id) = (self.category_index, self.index);
        let category = self.handle.categories.get(cat_id)?;
        let name = category.options.get(option_id).map(|option| option.name.clone())?;
        self.index += 1;
        Some(ExportCategoryOption {
            name,
            cat_id,
            option_id,
        })"""))
Q = "src/js_interactable/product_producer.rs"
edit("producer-next-and-then", (Q, """        let next_id = *self.to_export.get(self.index)?;
        let container = self.container;
        let _ = container.products.get(next_id)?;
        self.index += 1;
        Some(JsProduct {
            container,
            serialization_id: next_id,
        })""", """        let container = self.container;
        let found = self
            .to_export
            .get(self.index)
            .copied()
            .filter(|id| *id < container.products.len())
            .map(|serialization_id| JsProduct {
                container,
                serialization_id,
            });
        if found.is_some() {
            self.index += 1;
        }
        found"""))
edit("producer-next-if", (Q, """        let next_id = *self.to_export.get(self.index)?;
        let container = self.container;
        let _ = container.products.get(next_id)?;
        self.index += 1;
        Some(JsProduct {
            container,
            serialization_id: next_id,
        })""", """        if self.index >= self.to_export.len() {
            return None;
        }
        let serialization_id = self.to_export[self.index];
        if serialization_id >= self.container.products.len() {
            return None;
        }
        self.index += 1;
        Some(JsProduct {
            container: self.container,
            serialization_id,
        })"""))
edit("producer-numeric-map", (Q, """        match features.get(self.product(), key)? {
            FeatureValue::Float(f) => Some(f64::from(f)),
            FeatureValue::Integer(i) => Some(f64::from(i)),
            FeatureValue::String(_) => None,
        }""", """        let number = match features.get(self.product(), key) {
            Some(FeatureValue::Float(f)) => f.into(),
            Some(FeatureValue::Integer(i)) => i.into(),
            Some(FeatureValue::String(_)) | None => return None,
        };
        Some(number)"""))
edit("producer-string-and-then", (Q, """        if let Some(FeatureValue::String(string)) = features.get(self.product(), key) {
            Some(string.to_string())
        } else {
            None
        }""", """        features.get(self.product(), key).and_then(|value| match value {
            FeatureValue::String(text) => Some(text.to_owned()),
            _ => None,
        })"""))
G = "src/js_interactable/tag_handler.rs"
edit("tag-toggle-insert", (G, """        let new_state = match self.active.entry(tag.get_id()) {
            Entry::Occupied(v) => {
                v.remove();
                false
            }
            Entry::Vacant(space) => {
                space.insert(());
                true
            }
        };""", """        let id = tag.get_id();
        let new_state = self.active.insert(id, ()).is_none();
        if !new_state {
            self.active.remove(&id);
        }"""), (G, "    pub fn toggle(&mut self, tag: &JSTag) {\n        use std::collections::hash_map::Entry;\n", "    pub fn toggle(&mut self, tag: &JSTag) {\n"))
edit("tag-toggle-flatten", (G, """        let observers_for_this_tag = self
            .tag_observers
            .get(&tag.get_id())
            .map_or(&[][..], |vec| &vec[..])
            .iter();

        let all_observers = observers_for_this_tag.chain(self.general_observers.iter());
""", """        let all_observers = self
            .tag_observers
            .get(&tag.get_id())
            .into_iter()
            .flatten()
            .chain(&self.general_observers);
"""))
edit("tag-valid-get", (G, """            let tag = self.handle.tags.get(*id).unwrap();
            if tag.contains(product) == false {
                return false;
            }""", """            match self.handle.tags.get(*id) {
                Some(tag) if tag.contains(product) => continue,
                Some(_) => return false,
                None => panic!("no such tag"),
            }"""))
edit("tag-next-map", (G, """        let _ = self.handle.tags.get(self.index)?;
        let tag = JSTag {
            handle: self.handle.clone(),
            index: self.index,
        };
        self.index += 1;
        Some(tag)""", """        let index = self.index;
        self.handle.tags.get(index)?;
        self.index += 1;
        Some(JSTag::new(self.handle.clone(), index))"""))
edit("tag-get-id-index", (G, "        self.handle.tags.get(self.index).unwrap().get_id()", "        let tag = self.handle.tags.get(self.index).expect(\"tag\");\n        tag.get_id()"))
FF = "src/js_interactable/feature_filter.rs"
edit("filter-number-helper", (FF, """                (Some(from), Some(to)) => Box::new(iter.filter(move |p| {
                    if let Some(found) = feature.get_js(p, &self.feature).and_then(|j| j.as_f64()) {
                        from <= found && found <= to
                    } else {
                        false
                    }
                })),""", """                (Some(from), Some(to)) => Box::new(iter.filter(move |p| {
                    number_of(feature, p, &self.feature).map_or(false, |found| from <= found && found <= to)
                })),"""), (FF, "impl FeatureFilter {", """fn number_of(features: &FeatureSet, product: &Product<'_>, key: &str) -> Option<f64> {
    features.get_js(product, key)?.as_f64()
}

impl FeatureFilter {"""))
edit("filter-range-contains", (FF, "                        from <= found && found <= to\n", "                        (from..=to).contains(&found)\n"))
edit("filter-not-less", (FF, "                        from <= found && found <= to\n", "                        found >= from && found <= to\n"))
edit("filter-one-closure", (FF, """            FilterData::Exact(exact) => Box::new(iter.filter(move |p| {
                if let Some(data) = feature.get_js(p, &self.feature) {
                    &data == exact
                } else {
                    false
                }
            })),""", """            FilterData::Exact(wanted) => {
                Box::new(iter.filter(move |p| match feature.get_js(p, &self.feature) {
                    Some(value) => value == *wanted,
                    None => false,
                }))
            }"""))
edit("filter-parse-nested", (FF, """                if let Some(from) = get_value(&values, "from") {
                    if let Some(to) = get_value(&values, "to") {
                        out.push(FeatureFilter {
                            data: FilterData::Range { from, to },
                            feature,
                        });
                        continue;
                    }
                }
            }""", """                let from = get_value(&values, "from");
                if let Some(from) = from {
                    let to = get_value(&values, "to");
                    if let Some(to) = to {
                        out.push(FeatureFilter::new_range(from, to, feature));
                        continue;
                    }
                }
            }"""))
