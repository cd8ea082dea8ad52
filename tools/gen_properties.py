#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": hook}})

p("C01", "A loaded index image is equivalent to the index that was saved",
  "Saving an index and loading the bytes back gives an equivalent index: the same products (vendor, title, id, position, and description up to its documented shortening), the same gram tree with the same likelihoods and ordering, the same postings, the same categories (including their exclusive flag and option numbering), tags, sort orders and extra features of every kind. Saving the loaded index again and loading that gives the same index once more. This holds for every gram length and for empty, tiny and large catalogues.",
  ["inputs", "configurations"],
  "every catalogue (any number of products, vendors, tags, options, any Unicode text, any decimal price, with or without images) and every gram length the index is instantiated with",
  "The one round-trip test uses a single 258-product catalogue with one gram length; all of its products have images and (nearly) one option category, so numbering, padding and length-boundary cases never occur.",
  ["src/serialize/all_indexes.rs", "src/serialize/nodes.rs", "src/serialize/collections.rs", "src/data/container.rs", "src/data/product.rs", "src/data/vendor.rs", "src/data/features.rs", "src/classic_indexes/categorical.rs", "src/classic_indexes/tag.rs", "src/classic_indexes/order.rs"],
  [("serialize_all / deserialize_all", "src/serialize/all_indexes.rs"), ("position-implied numbering of products, vendors, tags, options", "src/data/vendor.rs, src/classic_indexes/*.rs")],
  ["deserialize_all(serialize_all(x)) compared field by field with x and with the catalogue"])

p("C02", "Every encoded value decodes to itself and consumes exactly its own bytes",
  "For every value of every serialisable kind (booleans, bytes, 32-bit, 64-bit and pointer-sized integers, characters, 32-bit floats, strings, lists, fixed-size arrays, maps and ascending id sequences) decoding its encoding yields the same value, leaves exactly the bytes that followed it, and therefore concatenated encodings decode to the original sequence. The encoding never depends on what surrounds it. An array is not accepted as one of another length. Id sequences come back in ascending order with duplicates preserved.",
  ["inputs"],
  "all values of the primitive kinds (all 2^32 u32 and f32 patterns, all characters, all 64-bit values by 7-bit-group structure), all short lists, maps and strings over a small alphabet, every suffix from a small set",
  "The unit tests sample 6 integers, 5 characters and 4 strings, never with trailing data, never a value of 57 to 63 bits.",
  ["src/serialize/primitives.rs", "src/serialize/collections.rs", "src/serialize/sequential_array.rs"],
  [("7-bit little-endian groups with continuation bit", "src/serialize/primitives.rs"), ("length-prefixed collections", "src/serialize/collections.rs"), ("delta coding of sorted ids", "src/serialize/sequential_array.rs")],
  ["Deserializable::deserialize after Serializable::serialize"])

p("C03", "Truncated images are refused; damaged images never crash the loader",
  "Decoding any strict prefix of a valid index image, at any byte, is refused (no index is returned) without a crash, an abort or unbounded memory use; the same holds for every strict prefix of a single encoded value. Decoding an image with a damaged byte, or one made for another gram length, either is refused or returns an index, but never crashes, aborts or hangs. A decoder never reads beyond the value it was asked for.",
  ["crash_points", "fault_sequences", "inputs"],
  "every truncation point of every image in a family of images, every single-byte replacement from a set of hostile values at every offset (all 256 values in the thorough tier), every pair of gram lengths, all short byte strings fed to every decoder",
  "No test ever gives a decoder malformed input.",
  ["src/serialize/primitives.rs", "src/serialize/collections.rs", "src/serialize/sequential_array.rs", "src/serialize/nodes.rs", "src/data/product.rs", "src/data/container.rs"],
  [("Option-returning decoders", "src/serialize/traits.rs")],
  ["deserialize_all on every faulted image; every Deserializable on short byte strings"])

p("C04", "Postings list exactly the products whose text contains a gram",
  "For every run of N characters (N the gram length) that occurs in the lower-cased text of at least one product (description, then title, then vendor name, read as one text), the index lists exactly the products whose text contains it, once per occurrence and in ascending position order. A gram is left out if and only if more than 80 percent of the catalogue's products contain it, counting each product once. Runs of N characters that occur in no product have no entry (the padded windows at the start of a text are no such runs).",
  ["inputs", "configurations"],
  "all catalogues of up to three products with short texts over a small alphabet, every split of text over the three fields, every (catalogue size, number of containing products, repetitions) combination around the 80 percent limit, gram lengths 1 to 9; no NUL characters",
  "The only index test builds the sample catalogue and drops it without looking inside.",
  ["src/ngram/indexer.rs", "src/lib.rs", "src/data/raw_parser.rs"],
  [("sliding lookback window", "src/ngram/indexer.rs"), ("DATA_CUTOFF_PERCENTAGE retain", "src/ngram/indexer.rs"), ("IndexFeed text composition", "src/lib.rs")],
  ["the postings map of the decoded index"])

p("C05", "Gram-tree likelihoods equal the corpus frequencies",
  "Every character run of length 1 to N that occurs in some product's text is a path of the gram tree, and no other path exists; each step's likelihood is the number of occurrences of the run divided by the number of occurrences of the run without its last character (for single characters: divided by the number of all characters). The children of a step, listed by popularity, are sorted from most to least likely and are the same children that are found by character. Each entry is labelled with the character it is found under. Nodes compare by their likelihood.",
  ["inputs", "configurations"],
  "all catalogues of up to three products with short texts over a small alphabet (without NUL), gram lengths 1 to 9",
  "No test inspects the tree; the round-trip test only compares it with its own copy.",
  ["src/ngram/indexer.rs", "src/serialize/nodes.rs"],
  [("queue of open chains, occurrence counters, immutalize", "src/ngram/indexer.rs")],
  ["the tree (roots, children, likelihoods) of the decoded index; most_popular_chain"])

p("C06", "Gram lookup returns the most likely gram within the correction budget",
  "Looking up N characters returns the stored gram of N characters with the highest cumulative likelihood among all grams reachable by following the typed characters with corrections, together with that likelihood; it returns nothing only if no gram is reachable. The corrections are: take another character than the typed one (costs 1; past the end of the typed characters any character), insert a character that was forgotten and differs from the typed one (costs 2), or let the current character replace the previous one that was typed superfluously (costs 1, adds no likelihood, not for the first character and not twice in a row); a correction may only start while the cost so far is below N/3 rounded down. The first character is never corrected.",
  ["inputs", "configurations"],
  "all catalogues of up to two short texts over small alphabets, all queries of N characters over that alphabet plus an unseen character, N from 1 to 9",
  "No test performs a lookup; the only search ever run is one word whose result is printed.",
  ["src/ngram/index.rs"],
  [("recursive_search with changes budget", "src/ngram/index.rs"), ("best_result", "src/ngram/index.rs")],
  ["GramIndex::search_gram on decoded indexes against an independent explicit-state enumeration of all corrections"])

p("C07", "Search returns exactly the matching products, once each, best first",
  "A search takes every window of N consecutive characters of the lower-cased query, looks up the most likely gram for it, and adds that likelihood to every product listed for the gram, once per listing; the result holds exactly the products that received something, each exactly once, with confidences equal to those sums and in non-increasing order. A query shorter than N characters finds nothing. Searching has no effect on later searches.",
  ["inputs", "histories", "configurations"],
  "all small catalogues over a small alphabet with all queries up to N+3 characters, gram lengths 1 to 6, and the exported search function on catalogues of 0 to 300 products",
  "No test asserts anything about a search result.",
  ["src/ngram/index.rs", "src/ngram/result_ranker.rs", "src/lib.rs"],
  [("window loop in GramIndex::search", "src/ngram/index.rs"), ("ResultRanker", "src/ngram/result_ranker.rs")],
  ["GramIndex::search and the exported search function"])

p("C08", "A search result satisfies every active filter and loses nothing else",
  "The products returned by a filtered search are exactly those of the unfiltered search that belong to every active category option, carry every active tag and pass every feature filter, still in the order of non-increasing confidence when no sort order is given. Filters combine by conjunction whatever their number or order, and an inactive option or tag has no influence. A filtered search leaves the selection and the index unchanged.",
  ["inputs", "histories"],
  "every subset of category options and tags of a catalogue that contains every combination, times every feature filter combination from a menu, times queries and sort orders; also catalogues up to 300 products",
  "No test calls the exported search function (it needs a JS host).",
  ["src/lib.rs", "src/js_interactable/category_handler.rs", "src/js_interactable/tag_handler.rs", "src/js_interactable/feature_filter.rs"],
  [("filter chain in search", "src/lib.rs"), ("is_valid", "src/js_interactable/*_handler.rs")],
  ["ids yielded by the result producer of the exported search"])

p("C09", "A sort order arranges the result by its key and keeps the result complete",
  "Searching with one of the offered sort orders returns the same products as without it, arranged by title for \"Alphabetical\" (plain character order), by ascending price for \"Price low to high\" and by descending price for \"Price high to low\"; products with equal keys keep catalogue order. The offered orders are exactly these three, each assigning every product of the catalogue a distinct rank. Asking for an order that is not offered gives no result instead of an unordered one.",
  ["inputs", "configurations"],
  "all catalogues of up to four products over a small set of titles and prices including ties, negative, fractional and large prices; catalogue sizes 0 to 300; every result subset produced by queries",
  "No test looks at an order; the round-trip test compares orders only with their own copy.",
  ["src/classic_indexes/order.rs", "src/data/raw_parser.rs", "src/lib.rs"],
  [("OrderIndex::add / add_custom_cmp rank inversion", "src/classic_indexes/order.rs"), ("sort_by_cached_key in search", "src/lib.rs")],
  ["get_orders and the exported search with an order; OrderIndex of the decoded index"])

p("C10", "Categories and tags reflect the catalogue exactly",
  "After loading, the categories are exactly the option names used in the catalogue, each once and in order of first use, each with exactly the values used under that name, each once and in order of first use; the tags are exactly the tag names used, each once. A product belongs to an option or tag if and only if the catalogue lists it so for that product, however often it is repeated and whatever other categories use the same value name.",
  ["inputs"],
  "all assignments of option and tag lists (with repeats, shared names and empty lists) from a small alphabet to up to three products, catalogue sizes up to 300 with structured membership",
  "No test looks inside the category or tag index; the sample data has one real category.",
  ["src/classic_indexes/categorical.rs", "src/classic_indexes/tag.rs", "src/data/raw_parser.rs", "src/js_interactable/category_handler.rs", "src/js_interactable/tag_handler.rs"],
  [("CategoryIndex::index", "src/classic_indexes/categorical.rs"), ("TagIndex::index", "src/classic_indexes/tag.rs")],
  ["category/option/tag cursors, and search restricted to one option or tag"])

p("C11", "Toggling flips exactly one selection and notifies its observers once each",
  "Toggling a category option or tag flips the status of that one item and of nothing else; toggling twice restores the previous state. Each toggle calls, with the new state as its only argument, every general observer and every observer registered for that item once per registration, also when another observer throws, and no other observer. Removing an observer from an item ends one of its registrations for that item and no other; removing one that is not registered changes nothing.",
  ["histories"],
  "all histories of toggle / add general observer / add item observer / remove item observer over three items and three observers (one of which throws) up to a fixed length, plus breadth-first search over the reachable abstract states, for categories and for tags",
  "No test touches the selection handlers (they need JS functions).",
  ["src/js_interactable/category_handler.rs", "src/js_interactable/tag_handler.rs"],
  [("toggle", "src/js_interactable/category_handler.rs, src/js_interactable/tag_handler.rs"), ("remove_option_listener / remove_tag_listener", "same")],
  ["get_status of all items and the recorded observer calls after every step"],
  [("active", "set of selected items", "CategoryHandler, TagHandler"), ("observers", "general and per-item registrations", "CategoryHandler, TagHandler")])

p("C12", "Every product reports its own data and never another product's",
  "A product found by a search reports its own id, its own title, its own (shortened) description, its own price (as the 32-bit float nearest to the given amount) and the URL of its own first image; a product without images reports no image URL (absent or empty), never that of another product. Asking a number for a text feature, a text for a numeric feature, or an unknown feature, reports nothing.",
  ["inputs"],
  "all catalogues of up to four products with every combination of presence or absence of images, equal and different texts, vendors and prices; catalogue sizes up to 300 with every image-presence period",
  "Every product of the sample catalogue has an image and no test reads a product's data.",
  ["src/data/raw_parser.rs", "src/data/features.rs", "src/js_interactable/product_producer.rs", "src/data/product.rs"],
  [("parallel feature lists indexed by product position", "src/data/features.rs"), ("to_intermediate / optimize", "src/data/raw_parser.rs")],
  ["getters of the products yielded by the exported search"])

p("C13", "Tag suggestion returns a best-matching tag or nothing",
  "The similarity of a tag name and a word is the number of equal characters at equal positions divided by the number of characters of the shorter one, and zero if the shorter one has fewer than three characters. For a query split at spaces, a suggestion is returned if and only if some tag and word have similarity above 0.8; it then names a pair whose similarity is the highest of all. In particular a word that is exactly a tag's name (three characters or more, in any script) is always answered with a suggestion of similarity 1.",
  ["inputs"],
  "all pairs of tag names and queries of one and two words over a small alphabet with one-, two- and four-byte characters, all lengths up to 7, and all sets of up to three tags",
  "No test calls it.",
  ["src/lib.rs"],
  [("overlap and arg-max loop", "src/lib.rs")],
  ["tag_suggestion"])

p("C14", "Catalogue text reaches the index as the JSON says, however it is written",
  "Two JSON documents that denote the same catalogue (differing in character escapes, key order, white space or additional unknown members) are indexed to the same searchable content, and the text of every field is the decoded JSON string. A document that is not valid JSON or lacks a required member is refused as a whole without a crash. The command-line indexer writes an image with the same content as the exported index function.",
  ["inputs"],
  "every string field times every way of writing each character from a set (raw, short escape, \\u escape, surrogate pair), every single and double key transposition, extra members at every level, every single missing member, every truncation of a document",
  "The sample document contains no escape in any field other than descriptions, and there is one document.",
  ["src/data/raw_parser.rs", "src/lib.rs", "src/main.rs"],
  [("serde derive on RawProduct", "src/data/raw_parser.rs"), ("index", "src/lib.rs")],
  ["products, tags and categories after index() and initialize()"])

p("C15", "Loading switches the whole index at once, also under concurrency",
  "When an index is loaded while other threads search, list categories, tags or orders, suggest tags, or load, every such call behaves as if it ran entirely before or entirely after the load: a search never combines products of one image with sort ranks of another. After concurrent loads have finished, what is served comes from a single one of the loaded images. No interleaving deadlocks or crashes.",
  ["schedules"],
  "all interleavings at lock operations of two or three threads, each performing one or two operations (load, search with and without order, get_orders, get_tags, get_categories, tag_suggestion), up to a preemption bound",
  "All tests are single-threaded and none calls the exported functions.",
  ["src/lib.rs"],
  [("two global mutexes replaced by initialize and read by search", "src/lib.rs")],
  ["results of every operation and of the final state, compared with every sequential order"],
  [("SHARED_INDEX", "gram index currently served", "src/lib.rs"), ("SHARED_CLASSIC_INDEX", "categories, tags, orders currently served", "src/lib.rs")],
  "the crate is compiled against a stand-in for std whose locks and atomics report to a scheduler")

p("C16", "The last successfully loaded index is served, whatever happened before",
  "Before the first successful load every exported query function reports that nothing is available, without a crash. After any sequence of successful and failed loads, and of any queries in between, all of them answer from the most recently successfully loaded image and from nothing else; a failed load changes nothing. Results and listings obtained earlier keep describing the image they came from.",
  ["histories", "fault_sequences"],
  "all histories up to a fixed length over loads of three images, loads of truncated and empty input, and each query function, starting from the unloaded state",
  "No test loads an index through the exported function, let alone twice.",
  ["src/lib.rs", "src/js_interactable/product_producer.rs", "src/js_interactable/category_handler.rs", "src/js_interactable/tag_handler.rs"],
  [("initialize replaces only after decoding succeeded", "src/lib.rs"), ("handles keep their index alive", "src/js_interactable/*.rs")],
  ["all exported query functions after every step"])

p("C17", "Cursors yield every element once, in order, independently of each other",
  "A result, category, option or tag cursor yields each of its elements exactly once and in order and then reports the end, and keeps reporting the end however often it is asked again. Cursors obtained separately, also over the same data, do not influence each other, whatever the interleaving of their steps with toggles, searches and loads.",
  ["histories"],
  "all interleavings of the steps of two cursors of every pair of kinds to exhaustion and beyond, mixed with toggles, searches and loads, for sequence lengths 0 to 4; single cursors over up to 300 elements",
  "No test uses a cursor.",
  ["src/js_interactable/product_producer.rs", "src/js_interactable/category_handler.rs", "src/js_interactable/tag_handler.rs"],
  [("index fields of the cursors", "src/js_interactable/*.rs")],
  ["next_product, next_item (both kinds), next_tag"],
  [("index", "position of the cursor", "ProductProducer, CategoryIter, CategoryOptionIter, TagIter")])

p("C18", "Indexing runs do not influence each other",
  "Indexing a catalogue gives an image with the same content whether it runs alone, after other runs, or interleaved with other runs on other threads sharing one allocator, and whatever the random order of the hash tables. What one run stored in the shared allocator is never altered by another.",
  ["schedules", "histories", "configurations"],
  "all interleavings, up to a preemption bound, of two threads indexing different catalogues with scheduling points at every hash-table creation; all sequences of up to three runs; a set of hash seeds",
  "Tests run each indexing once per allocator and never look at the result.",
  ["src/data/raw_parser.rs", "src/data/container.rs", "src/data/vendor.rs", "src/ngram/indexer.rs", "src/lib.rs"],
  [("per-run state only, shared arena behind a lock", "src/data/container.rs")],
  ["decoded image content of every run"])

p("C19", "Feature filters accept exactly the products whose value qualifies",
  "A range filter {from, to} accepts exactly the products that have a number for the feature with from <= value <= to, where a bound that is missing or is not a number does not restrict; if neither bound restricts, the filter accepts everything. An exact filter {exact: v} accepts exactly the products whose value for the feature is strictly equal to v (same type and value). A filter whose value is not an object gives no result.",
  ["inputs"],
  "every pair of bounds and every exact value from a menu of numbers (including equal, adjacent, infinite, NaN), strings, booleans, null and missing, for numeric, text and unknown features, over catalogues containing every value, and every pair of such filters",
  "No test builds a filter (they need JS objects).",
  ["src/js_interactable/feature_filter.rs", "src/data/features.rs"],
  [("FeatureFilter::parse and filter", "src/js_interactable/feature_filter.rs"), ("get_js", "src/data/features.rs")],
  ["ids yielded by the exported search with a filter object"])

p("C20", "Stored descriptions are word-aligned prefixes within the length limit",
  "The stored form of a description is the description itself when its UTF-8 form has at most 100 bytes. Otherwise it is the prefix that ends just before the last space that leaves 1 to 100 bytes; if there is no such space, it is the longest prefix of whole characters with at most 100 bytes. The same rule holds for any other limit given to the shortening serialiser, and full text remains searchable by the part that was cut off.",
  ["inputs"],
  "all strings up to 8 characters over one- to four-byte characters and the space with every limit from 0 to 10; all lengths from 0 to 140 with every position of up to two spaces and of a multi-byte character at limit 100",
  "The only test prints results for five strings and asserts nothing.",
  ["src/serialize/collections.rs", "src/data/product.rs"],
  [("limit_string_len", "src/serialize/collections.rs")],
  ["serialize_string_with_limit and descriptions reported by products after loading"])

p("C21", "Search ignores letter case in every script",
  "Replacing characters of the query or of a product's texts by their upper- or lower-case forms (one character for one character, according to the lower-case mapping) does not change which products a search returns nor their confidences. A text containing any Unicode character is found by typing that text.",
  ["inputs"],
  "every Unicode scalar value (except NUL) as a character of a product text and of the query, each of its case variants, in the description, the title and the vendor name",
  "No test searches for anything but one lower-case ASCII word.",
  ["src/lib.rs", "src/ngram/index.rs"],
  [("char::to_lowercase on both sides", "src/lib.rs")],
  ["the exported search"])

p("C22", "Products and indexes compare equal exactly when nothing tells them apart",
  "Two products compare equal exactly if their title, vendor (name and number), id and position agree and their descriptions are equal or one is a non-empty beginning of the other (as after shortening); the comparison is symmetric, and products are ordered by position. Two loads of one image give equal indexes, and indexes of catalogues that differ in any detail are not equal. The number of a product is the decimal number its id ends in, 0 if it ends in none.",
  ["inputs"],
  "all pairs of products over short and long descriptions and every combination of equal and different title, vendor name, vendor number, id and position; all pairs of images that differ in one detail; every short id and every number of up to 19 digits by length and power of two",
  "The round-trip test relies on this comparison but only ever compares equal things; the number of an id is not tested.",
  ["src/data/product.rs", "src/data/vendor.rs", "src/data/container.rs", "src/ngram/index.rs", "src/classic_indexes/mod.rs"],
  [("PartialEq, Ord and get_id of Product", "src/data/product.rs"), ("derived equality of the index parts", "src/ngram/index.rs, src/classic_indexes/*.rs")],
  ["==, cmp and get_id of Product; == of GramIndex and ClassicIndexes"])

p("C23", "An index part built step by step holds exactly what was put into it",
  "Whatever the sequence of steps through the public interface: every vendor name has one vendor, found under exactly that name, whose number is the place at which it was first added; a feature gives the product with position i the i-th value that was added to it, in the type in which it was added, and so does the product of a result; it gives nothing beyond the last, and refuses a value of another type without changing; a category option contains exactly the products that were added to it, however often; a tag contains exactly the products whose list names it, and is found under its number; an order ranks the products by its key under its comparison, equal keys in catalogue order, and the last order added under a name counts. All of this, with numbers, names and exclusive flags, is the same after saving and loading.",
  ["histories", "inputs"],
  "every sequence of up to four vendor names onto three containers, of up to three feature values of every type and name, of four additions to three options; all assignments of tag lists to three products; all keys of up to four products under seven comparisons, every sequence of three orders under three names; up to 66 000 vendors",
  "The tests build these parts once, from one catalogue, and look into none of them.",
  ["src/data/vendor.rs", "src/data/features.rs", "src/classic_indexes/categorical.rs", "src/classic_indexes/tag.rs", "src/classic_indexes/order.rs", "src/data/container.rs"],
  [("VendorManager::insert / get_or_insert / get", "src/data/vendor.rs"), ("FeatureSet::add_* / get / get_js", "src/data/features.rs"), ("CategoryOption::add / contains, Tag::new / contains", "src/classic_indexes"), ("OrderIndex::add / add_custom_cmp / get_orders", "src/classic_indexes/order.rs")],
  ["the parts' own getters, before and after saving and loading"],
  [("tags, by_id", "vendors by name and by number", "VendorManager"), ("columns", "values by feature and position", "FeatureSet")])

p("C24", "The gram index treats every kind of gram and of data alike",
  "Built over grams of any kind (characters, bytes, 32-bit, 64-bit and pointer-sized numbers, arrays, a kind defined elsewhere) and for data of any ordered kind, the index is the same up to renaming the grams and data: the same tree and likelihoods, the same most popular chains, the same lookups, and for every gram of N the data whose texts contain it, once per occurrence, in the order of the data. A datum may be fed in several pieces; it still counts once for the 80 percent limit, which refers to the number of products of the catalogue. For products the same holds after saving and loading. The padded gram of N of a text is its next N - 1 grams, which it takes, and one of padding, or nothing when fewer are left. (No text contains the default value of its kind, which is the padding.)",
  ["inputs"],
  "every assignment of short texts over three grams to up to three pieces with every ownership of pieces by up to three data, for eight kinds of grams, products and strings as data, gram lengths 1 to 4; all lookups and searches up to N + 1 grams",
  "The tests only index characters of product texts, in catalogue order.",
  ["src/ngram/index.rs", "src/ngram/indexer.rs", "src/ngram/result_ranker.rs", "src/serialize/nodes.rs", "src/serialize/all_indexes.rs"],
  [("GramIndex::index_from over any GramAtom and Data", "src/ngram/indexer.rs"), ("HashExtractable and ResultRanker", "src/ngram/result_ranker.rs"), ("GramIndex / GramNode coding", "src/serialize/nodes.rs")],
  ["roots and data of the index, search_gram, search, most_popular_chain"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
