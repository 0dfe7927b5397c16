"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""

TECH = "static: MIR dataflow graphs (resolved callees, helpers inlined) compared in lockstep with a reference; no execution, no solver"
NOTE = ("Decides the listed functions on every path, for all inputs, by comparing normalised dataflow graphs; trusts the library models "
        "in engine/models.py, the MIR exporter and that 64-bit counters do not wrap. Fails closed when an anchor is missing or code is undecidable.")

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique=TECH, note=NOTE, thorough=False):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  observe=observe, technique=technique, note=note, thorough=thorough))


prop("C18", "Toggling a filter flips exactly that filter's selection",
     "A fresh tag or category handler has nothing selected. Each toggle of a tag or category option flips the selected state of that tag or option and of nothing else, so an even number of toggles leaves it unselected and an odd number selected, and the status query reports that state. Different tags, and options of different categories or positions, never share a state.",
     ["histories", "inputs"], "every sequence of toggles and status queries over every catalogue",
     "No existing test touches the handlers; the claim is about every toggle history over every tag and option.",
     ["src/js_interactable/tag_handler.rs", "src/js_interactable/category_handler.rs"],
     [("TagHandler::toggle / get_status", "src/js_interactable/tag_handler.rs"), ("CategoryHandler::toggle / get_status, ExportCategoryOption::keys", "src/js_interactable/category_handler.rs")],
     ["get_status", "is_valid"])

prop("C19", "A product passes the filters iff every selected tag and option lists it",
     "With respect to the selected tags and category options, a product is accepted exactly when every selected tag and every selected category option lists that product; with nothing selected every product is accepted. Selections combine conjunctively, within a category as well as across categories.",
     ["inputs", "histories"], "every product and every set of selected tags and options of the loaded catalogue",
     "No existing test selects anything; the claim quantifies over all selections and all products.",
     ["src/js_interactable/tag_handler.rs", "src/js_interactable/category_handler.rs", "src/classic_indexes/tag.rs", "src/classic_indexes/categorical.rs"],
     [("TagHandler::is_valid, Tag::contains", "src/js_interactable/tag_handler.rs"), ("CategoryHandler::is_valid, CategoryOption::contains", "src/js_interactable/category_handler.rs")],
     ["search results"])

prop("C20", "Observers are called once per toggle with the new state",
     "After each toggle, every observer registered for that tag or option is called exactly once per registration, then every general observer once per registration, each with the new selected state; observers of other tags or options are not called, and a failing observer does not keep the rest from being called. Registering adds one registration to the right list; removing an observer removes one registration of that observer for that tag or option and nothing else.",
     ["histories", "inputs"], "every history of registrations, removals and toggles, whatever the observers return",
     "Observers need a JavaScript host; the native tests never construct one, and the claim is about every registration history.",
     ["src/js_interactable/tag_handler.rs", "src/js_interactable/category_handler.rs"],
     [("toggle, add_*_observer, add_*_lister, remove_*_listener", "src/js_interactable/tag_handler.rs, src/js_interactable/category_handler.rs")],
     ["calls made to the registered functions"])

prop("C22", "Result, tag and category cursors yield every item once, in order",
     "The result producer yields the result products one per call, each exactly once and in result order, then nothing; the tag, category and option cursors likewise yield every tag, category and option of the catalogue once, in catalogue order, under their own names. An exported product reports the title, description and id of that product, its text feature only for text columns and its numeric feature only for numeric columns, and nothing for an absent feature.",
     ["histories", "inputs"], "every result list, catalogue, product and feature name, and every sequence of calls on a cursor",
     "No existing test reads a result or walks a cursor; the claim is about every result list and catalogue.",
     ["src/js_interactable/product_producer.rs", "src/js_interactable/tag_handler.rs", "src/js_interactable/category_handler.rs", "src/data/features.rs"],
     [("ProductProducer::next_product, JsProduct getters", "src/js_interactable/product_producer.rs"), ("TagIter::next_tag", "src/js_interactable/tag_handler.rs"), ("CategoryIter / CategoryOptionIter::next_item", "src/js_interactable/category_handler.rs")],
     ["next_product", "next_tag", "next_item"])

prop("C01", "Writing an index to a file and reading it back yields the same index",
     "For every index the indexer can produce, serialising it into one buffer and reading that buffer back yields an equal index: word tree and its products with all their fields, categories with their options and members, tags with their members, and named orders. The search structures share one buffer in a fixed order that writer and reader agree on, and reading stops exactly where writing stopped.",
     ["inputs"], "every catalogue and every index built from it, whatever its sizes, texts, numbers and ids",
     "Existing tests round-trip one fixed catalogue; the claim is about every index, including values that change the width of an encoding.",
     ["src/serialize/all_indexes.rs", "src/serialize/collections.rs", "src/serialize/nodes.rs", "src/serialize/sequential_array.rs", "src/serialize/primitives.rs", "src/ngram/index.rs", "src/classic_indexes/categorical.rs", "src/classic_indexes/tag.rs", "src/classic_indexes/order.rs", "src/data/product.rs", "src/data/features.rs", "src/data/vendor.rs", "src/data/container.rs"],
     [("SerializableIndexContainer serialize_all / deserialize", "src/serialize/all_indexes.rs"), ("Serializable / Deserializable of every type", "src/serialize/, src/data/, src/classic_indexes/")],
     ["initialize after index creation", "index file"])

prop("C04", "Every scalar value survives encoding and decoding, bit for bit",
     "Every integer, byte, boolean, character, floating point number and string written to the index file is read back as the identical value, and reading consumes exactly the bytes that writing produced. A value too large for the type read, a truncated value or text that is not valid UTF-8 is reported as an error.",
     ["inputs"], "all 64-bit integers, all scalars and strings, and every byte sequence given to the reader",
     "Existing tests sample a few hundred integers and some strings; the width of the encoding changes at boundaries the samples miss.",
     ["src/serialize/primitives.rs"],
     [("Serializable / Deserializable for u64, u32, usize, u8, bool, char, f32, str", "src/serialize/primitives.rs")],
     ["values in a loaded index", "initialize errors"])

prop("C05", "Every list of product ids survives compression",
     "Every ascending list of product numbers written to the index file is read back as the identical list, whatever the gaps between the numbers, including an empty list, a list starting at zero and gaps that need the widest encoding. Reading consumes exactly the bytes that writing produced, and differences that add up beyond the range of a product number are reported as an error.",
     ["inputs"], "every list of product numbers and every byte sequence given to the reader",
     "No existing test writes an id list with chosen gaps; the claim is about all lists.",
     ["src/serialize/sequential_array.rs"],
     [("SerializeSequentially / DeserializeSequentially", "src/serialize/sequential_array.rs")],
     ["members of tags and options in a loaded index"])


prop("C06", "Stored descriptions are whole-word prefixes; other texts are stored in full",
     "A description whose last character starts within its first 100 bytes is stored unchanged; a longer one is stored as the part before the last space in that range (a leading space does not count), or cut at a character boundary when there is none, and is never cut to nothing. Title, product id and vendor name are stored in full. Two products compare equal exactly when their other fields are identical and one description is a prefix of the other, an empty description matching only an empty one.",
     ["inputs"], "every product, whatever the lengths, spaces and multi-byte characters of its texts",
     "Existing tests compare one catalogue whose texts never reach the boundary cases; the claim is about every text.",
     ["src/data/product.rs", "src/serialize/primitives.rs"],
     [("Product serialize / deserialize, PartialEq", "src/data/product.rs"), ("serialize_string_with_limit", "src/serialize/primitives.rs")],
     ["products of a loaded index", "equality of products"])

prop("C11", "A misspelled query window is corrected to the likeliest indexed one",
     "A query window that occurs in the index matches itself with full confidence. Otherwise the search follows, at every position, the letter as typed, a substituted letter, a missing letter or an extra letter, multiplying the weights of the steps taken, allows the bounded number of errors, and matches the stored window that has the highest product; a window without any such match contributes nothing.",
     ["inputs"], "every index and every query window",
     "No existing test searches with a typing error; the claim is about every window over every index.",
     ["src/ngram/index.rs"],
     [("GramIndex walk", "src/ngram/index.rs")],
     ["search results"])

prop("C12", "A product's score sums, over the query's windows, its match confidences",
     "Every product listed under the window matched at some position of the query, and no other, is a result, once, and its score is the sum of the confidences of those matches over all positions of the query. Results come in order of decreasing score.",
     ["inputs"], "every index and every query",
     "Existing tests never inspect a score or the order of results; the claim is about every index and query.",
     ["src/ngram/index.rs", "src/ngram/result_ranker.rs"],
     [("GramIndex::search", "src/ngram/index.rs"), ("ResultRanker add / export", "src/ngram/result_ranker.rs")],
     ["search results"])

prop("C13", "Tags, categories and options list exactly the products that carry them",
     "Indexing a catalogue yields one tag per distinct tag name, one category per distinct option name and, within a category, one option per distinct value. Each tag lists exactly the products carrying it, and each option exactly the products having that value for that option name, an option listing no product twice, in catalogue order. The id of a tag or option is its position in its list, and asking whether it lists a product agrees with that list.",
     ["inputs"], "every catalogue, with shared, repeated and missing tags and options",
     "Existing tests build one fixed catalogue and compare it only with its own round trip.",
     ["src/classic_indexes/tag.rs", "src/classic_indexes/categorical.rs", "src/data/raw_parser.rs"],
     [("optimize", "src/data/raw_parser.rs"), ("TagIndex::index, Tag::new / contains", "src/classic_indexes/tag.rs"), ("CategoryIndex::index, CategoryOption::add / contains", "src/classic_indexes/categorical.rs")],
     ["tags and categories of a loaded index", "filtered results"])

prop("C02", "Products, vendors, tags and options keep their numbers through the file",
     "Indexing numbers products by their position in the catalogue, vendors by first appearance, tags by their position in the list of tags, and options by their position over all categories; loading the index file numbers them the same way. Every reference stored as a number - a product's vendor and the products listed under a tag, an option or a window of letters - therefore names the same vendor or product after loading as when it was indexed. Every product keeps its own id, title, description and vendor.",
     ["inputs"], "every catalogue and the index file written for it",
     "Existing tests compare the loaded index with the written one for one catalogue, not with the catalogue.",
     ["src/data/raw_parser.rs", "src/data/vendor.rs", "src/data/container.rs", "src/data/product.rs", "src/classic_indexes/tag.rs", "src/classic_indexes/categorical.rs", "src/serialize/sequential_array.rs"],
     [("optimize", "src/data/raw_parser.rs"), ("VendorManager insert / get_or_insert / reading", "src/data/vendor.rs"), ("ProductContainer and Product reading", "src/data/container.rs, src/data/product.rs"), ("Category and tag numbering and reading", "src/classic_indexes/")],
     ["search results", "exported products"])

prop("C03", "A malformed index file is rejected; it never crashes or exhausts memory",
     "Loading any byte sequence either yields an index or reports failure: it does not panic, reserves no more memory than the length of the input justifies, and does not recurse deeper than a fixed bound. Truncated values, lengths the input cannot hold, references to products or vendors that do not exist, unknown type codes, invalid text and invalid characters are reported as failure.",
     ["inputs"], "every byte sequence given to the loader",
     "Existing tests read back only what they wrote; malformed input is never given to the readers.",
     ["src/serialize/all_indexes.rs", "src/serialize/collections.rs", "src/serialize/nodes.rs", "src/serialize/primitives.rs", "src/serialize/sequential_array.rs", "src/data/features.rs", "src/data/product.rs", "src/data/vendor.rs", "src/data/container.rs", "src/classic_indexes/categorical.rs", "src/classic_indexes/tag.rs", "src/classic_indexes/order.rs", "src/lib.rs"],
     [("Deserializable of every type, deserialize_all", "src/serialize/, src/data/, src/classic_indexes/"), ("initialize", "src/lib.rs")],
     ["initialize"],
     technique="static: MIR dataflow graph of every reader searched for panics, unbounded reservations and unbounded recursion; readers compared with a reference")

prop("C07", "A product is found by its description, title and vendor, in any letter case",
     "Every product is indexed under its whole description, then its title, then its vendor name, each letter replaced by its lower-case letters, with nothing else added or left out. A query is lower-cased in the same way before it is looked up. Indexing handles every product of the input once, in order, and the result is the file made of that word index and the catalogue's tags, categories and orders.",
     ["inputs"], "every catalogue and every query, including letters whose lower case is several letters",
     "Existing tests never look anything up; the claim is about every text of every product.",
     ["src/lib.rs"],
     [("index_and_serialize, index_and_serialize_with_n, index", "src/lib.rs"), ("search", "src/lib.rs")],
     ["search results", "index file"])

prop("C08", "The word index counts every letter run and lists every window's products",
     "For every position of a product's text, the window of the last five letters (padded with zero at the start) lists the product once per occurrence, in catalogue order; windows with at least 0.8 times as many entries as there are products, rounded down, are left out, and nothing else is. Every run of up to five letters of a text is a path in the tree, nothing else is, and the weight of a node is the number of its occurrences divided by its parent's, the roots' by the sum over all roots. The children of a node are kept by letter and in order of decreasing weight, the same children in both.",
     ["inputs"], "every catalogue",
     "Existing tests build the index of one catalogue and compare it only with its own round trip.",
     ["src/ngram/indexer.rs", "src/ngram/index.rs", "src/serialize/nodes.rs"],
     [("GramIndex::index_from, MutableGramNode::immutalize", "src/ngram/indexer.rs"), ("GramNode reading and writing", "src/serialize/nodes.rs")],
     ["search results", "index file"])

prop("C14", "The named orders rank every product by title or by price",
     "Every index offers exactly the orders Alphabetical, Price low to high and Price high to low. They rank all products by title, by ascending price and by descending price; products that compare equal keep their catalogue order. An order tells each product's position in that ranking, and unknown order names are not found.",
     ["inputs"], "every catalogue, with equal titles and prices",
     "Existing tests build the orders of one catalogue and compare them only with their own round trip.",
     ["src/data/raw_parser.rs", "src/classic_indexes/order.rs"],
     [("optimize", "src/data/raw_parser.rs"), ("OrderIndex::add / add_custom_cmp / get_orders / options", "src/classic_indexes/order.rs")],
     ["get_orders", "search with an order"])

prop("C15", "Every product's price and image are stored and found under that product",
     "Indexing stores for every product the minimum price of its input and the address of its first medium, or an empty text without media; looking up a product's price or image gives the value of that very product, and an unknown name gives none. Adding a value to a column appends it to that column and to no other, and a value of a different type than the column's is not added as another type. The columns are read back from the file as they were written.",
     ["inputs"], "every catalogue, with and without media",
     "Existing tests never look up a feature of a product built from a catalogue.",
     ["src/data/raw_parser.rs", "src/data/features.rs"],
     [("to_intermediate, optimize", "src/data/raw_parser.rs"), ("FeatureSet::add_* / get", "src/data/features.rs")],
     ["exported products", "feature filters"])

prop("C16", "Every distinct vendor is registered once, in order of first appearance",
     "Registering vendor names yields one vendor per distinct name; its number is the position of its first appearance and never changes when further names are registered. Looking up a registered name finds the vendor of exactly that name, and an unknown name finds none.",
     ["inputs", "histories"], "every sequence of registrations and lookups",
     "No existing test looks at vendors; the claim is about every sequence of names.",
     ["src/data/vendor.rs"],
     [("VendorManager insert / get", "src/data/vendor.rs")],
     ["vendor of a product"])

prop("C26", "Feature filters keep exactly the products they describe, in order",
     "A range filter keeps exactly the products whose numeric feature lies between its bounds, both included, a missing bound being no bound; an exact filter keeps exactly the products whose feature equals the given value in type and value. A product without the feature is dropped unless neither bound of a range is a number, in which case all pass, and the order of the products kept does not change. The filter object given by the caller is read entry by entry, and a malformed entry makes the whole search fail.",
     ["inputs"], "every filter object and every list of products with arbitrary features",
     "Filters are JavaScript objects; no existing test builds one, and the claim is about all filters and feature values.",
     ["src/js_interactable/feature_filter.rs", "src/data/features.rs"],
     [("FeatureFilter::parse / filter", "src/js_interactable/feature_filter.rs"), ("FeatureValue to JavaScript value", "src/data/features.rs")],
     ["search results"])

prop("C28", "The catalogue is read by member name and refused when incomplete",
     "Indexing reads every product of the JSON catalogue: its description, tags, title, vendor and id from the members of those names, its options from the name and values of each entry of options, its price from the amount and currencyCode of min and max, and its media from the url of each entry. Members may come in any order, and others are ignored. A member that is missing or given twice makes indexing report failure, and then there is no index file.",
     ["inputs"], "every JSON object, with any members in any order",
     "The tests read one catalogue whose objects are all complete and alike.",
     ["src/data/raw_parser.rs", "src/lib.rs"],
     [("RawProduct and its parts, with their serde attributes", "src/data/raw_parser.rs"), ("index", "src/lib.rs")],
     ["index()", "the index file"])

prop("C29", "The program indexes test.json into out.test, or fails and writes nothing",
     "Run in a directory, the indexer program reads the catalogue test.json and gives every product in it, whatever its key, to the indexer; the file out.test then holds exactly the bytes the indexer produced. When the catalogue cannot be read, is no catalogue, or cannot be indexed, the program ends with an error and an existing out.test is left as it was; when out.test cannot be written, the program ends with an error too.",
     ["inputs", "fault_sequences"], "every content of test.json, readable or not, and every failure of reading, indexing and writing",
     "No test runs the program; its failures need unreadable catalogues and unwritable files.",
     ["src/main.rs", "src/lib.rs"],
     [("main", "src/main.rs"), ("index_and_serialize", "src/lib.rs")],
     ["out.test", "exit status"])

prop("C30", "Equal products, vendors and lists agree in every part; products sort by number",
     "Two products are equal exactly when title, vendor, id and number agree and one description begins with the other, an empty one agreeing only with an empty one. Two vendors, vendor tables, tags, options, categories, feature columns, named orders or catalogues are equal exactly when every part of them is, numbers and product lists included. Products compare and sort by their number alone, word-index nodes by their share, and comparing two ways round gives opposite answers.",
     ["inputs"], "every two values of these types",
     "The tests compare an index with its own copy; that different ones are told apart, whatever the difference, no sample settles.",
     ["src/data/product.rs", "src/data/vendor.rs", "src/data/features.rs", "src/data/container.rs", "src/classic_indexes/tag.rs", "src/classic_indexes/categorical.rs", "src/classic_indexes/order.rs", "src/classic_indexes/mod.rs", "src/ngram/index.rs"],
     [("Product eq, cmp, partial_cmp", "src/data/product.rs"), ("VendorManager eq", "src/data/vendor.rs"), ("GramNode cmp", "src/ngram/index.rs")],
     ["==", "cmp", "sorted posting lists"])

prop("C17", "A search returns the matches that pass all filters, in the requested order",
     "A search lower-cases the query and returns exactly the matching products that pass the category selection, the tag selection and every feature filter, each once. Without an order they come by decreasing score; with a named order they come by their position in that order. An unreadable filter, an unknown order or a search before an index was loaded gives no result object.",
     ["inputs", "histories"], "every query, selection, filter object and order name, before and after loading an index",
     "No existing test calls the search entry point; the claim is about every combination of query, selections, filters and order.",
     ["src/lib.rs", "src/classic_indexes/order.rs"],
     [("search", "src/lib.rs"), ("OrderIndex::get_orders / options", "src/classic_indexes/order.rs")],
     ["search results", "get_orders"])

prop("C21", "Loading an index replaces the whole index or changes nothing",
     "Loading a malformed index file reports failure and leaves a previously loaded index in use; loading a valid one reports success and replaces the search index and the filter indexes together, so no search sees one without the other. Categories, tags and order names are those of the loaded index, with nothing selected, and there are none before an index was loaded. The locks protecting the shared index are always taken in the same order and never twice, so concurrent calls cannot deadlock.",
     ["inputs", "histories", "schedules"], "every file given to the loader, every sequence of calls and every interleaving of concurrent callers",
     "No existing test loads an index through the entry point, let alone twice or concurrently.",
     ["src/lib.rs"],
     [("initialize, get_categories, get_tags, get_orders", "src/lib.rs"), ("SHARED_INDEX, SHARED_CLASSIC_INDEX", "src/lib.rs")],
     ["initialize", "search", "get_categories", "get_tags", "get_orders"])

prop("C23", "The suggested tag is the one most similar to some word of the query",
     "Each space-separated word of the query is compared with each tag name position by position; the similarity is the share of equal characters among the positions both have, and is zero when they share fewer than three positions. The suggestion is the tag and word with the highest similarity above 0.8, the first such pair among equals, and there is none otherwise or before an index was loaded. The suggestion reports that word and that tag.",
     ["inputs"], "every query and every set of tags",
     "No existing test asks for a suggestion; the claim is about every query and tag set, including multi-byte characters.",
     ["src/lib.rs"],
     [("tag_suggestion, TagSuggestionResult", "src/lib.rs")],
     ["tag_suggestion", "get_input", "get_tag"])


NA = []


def na(id, title, statement, over, text, why, files, mechanism, observe, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, observe=observe, reason=reason))


na("C24", "Indexing the same catalogue twice yields the same file, byte for byte",
   "Indexing one catalogue on two machines, or twice on one, yields identical files.",
   ["inputs", "histories"], "every catalogue and every run of the indexer",
   "One run cannot show what another run, with other hash seeds, would write.",
   ["src/serialize/collections.rs", "src/ngram/index.rs"], [("writers of hash maps", "src/serialize/collections.rs")], ["index file"],
   "False by design, not a guarantee of this code base: hash maps are written in iteration order, which depends on the hasher's seed, and readers do not depend on it. What static analysis can say about it (no reader depends on the order) is part of C01.")

na("C25", "A search does a bounded amount of work per query letter",
   "The time and stack a search needs is bounded by the query length and a constant of the index.",
   ["inputs"], "every query and every index",
   "A test measures one query on one index.",
   ["src/ngram/index.rs"], [("GramIndex::recursive_search", "src/ngram/index.rs")], ["search"],
   "The work of the tree walk depends on the number of children at each node, on pruning by floating point weights and on the error limit; no sound static bound on these runtime quantities is in reach beyond the recursion depth, and a timing test would be a different technique.")

na("C27", "The product a shopper means is ranked first",
   "For a misspelled product name, the product meant has the highest score.",
   ["inputs"], "every catalogue and every misspelling",
   "What the shopper means is not in the program.",
   ["src/ngram/index.rs", "src/ngram/result_ranker.rs"], [("GramIndex::search", "src/ngram/index.rs")], ["search results"],
   "Ranking quality is a statistical property of weights and catalogues, not a fact about the program text; C11 and C12 decide exactly how the score is computed.")
