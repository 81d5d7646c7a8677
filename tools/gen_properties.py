#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Growable buffer content equals an ideal string after any edit history",
 "After any sequence of assign, concatenate, append, append-character, prepend, positional insert, strip, formatted print, read-style append, grow and shrink operations on a dynamic buffer, its content is exactly what the same edits produce on an ideal unbounded byte string, with arbitrary bytes (including zero bytes) preserved. Every operation returns a view of exactly the buffer's resulting content, the byte after the content is always a terminating zero, and the recorded size never exceeds the capacity. An invalid source inserts nothing, while assigning an invalid source empties the buffer.",
 ["histories", "inputs"], "all finite sequences of public buffer operations, with arbitrary byte contents and sizes (through several growth steps and past 8/16-bit size limits)",
 "Unit tests run a few fixed short sequences with small ASCII literals; the guarantee is over all histories, sizes and byte values.",
 ["strbuf.c", "strbuf.h"],
 [("single insertion primitive", "strbuf.c:insert_strview_into_buf"), ("concatenation", "strbuf.c:buffer_vcat"), ("assign", "strbuf.c:strbuf_assign"), ("strip", "strbuf.c:strbuf_strip_strview"), ("growth", "strbuf.c:change_buf_capacity")],
 ["returned view", "buffer size/content/terminator after each operation"])

prop("C02", "Fixed-capacity buffers: complete result or emptied, never beyond their memory",
 "On a buffer of fixed capacity (caller memory, static space or stack), an operation whose result fits the capacity produces the complete result, and one whose result does not fit leaves the buffer empty and valid, never truncated. The capacity never changes, equals the supplied memory minus the header and terminator, and growing such a buffer fails and reports an invalid view. No byte outside the supplied memory is ever read or written and no allocator is ever called.",
 ["histories", "inputs", "configurations"], "all operation sequences on fixed buffers of every small capacity (including 0) and all three ways of creating one",
 "Tests use one roomy 200-byte static buffer and a couple of overflow cases; exact-fit and off-by-one capacities per operation are not sampled.",
 ["strbuf.c", "strbuf.h"],
 [("capacity checks", "strbuf.c:insert_strview_into_buf, strbuf_assign, append_char_to_buf, buffer_vcat, strbuf_append_vprintf"), ("emptying", "strbuf.c:empty_buf"), ("creation", "strbuf.c:strbuf_create_fixed")],
 ["content, capacity, terminator", "guard bytes and redzones around the supplied memory"])

prop("C03", "Sources viewing the destination behave like independent copies",
 "For every operation that accepts a source view (assign, append, prepend, insert at index/before/after, strip, and concatenate on dynamic buffers), passing a view of any part of the destination's own content gives exactly the result obtained by passing a separate copy of those bytes. This holds whether or not the operation relocates the buffer, shifts or splits the source, for both dynamic and fixed buffers (concatenate: dynamic only).",
 ["inputs", "histories", "configurations"], "all (source offset, source length, destination position, free capacity, reallocation behaviour) combinations",
 "Tests check one or two self-insert examples; the interesting space is every overlap between source range, insertion point and reallocation.",
 ["strbuf.c"],
 [("source re-basing and splitting", "strbuf.c:insert_strview_into_buf"), ("temporary buffer", "strbuf.c:buffer_vcat"), ("memmove in assign", "strbuf.c:strbuf_assign")],
 ["buffer content compared with the same call given a copied source"])

prop("C04", "All memory goes through the buffer's allocator and is released exactly once",
 "A dynamic buffer obtains, resizes and frees memory only through the allocator it was created with, which always receives that allocator's own application data, a previously returned block (or none) and the requested size. Every block is released exactly once by destroy or handed to the caller by conversion to a C string, nothing leaks, and after a relocation the old block is never touched again. No access ever falls outside the size that was requested from the allocator.",
 ["histories", "inputs", "configurations"], "all operation sequences, with allocators that always move, never move, or move sometimes, and with several buffers sharing or not sharing allocators",
 "The test allocator is realloc, which usually does not move blocks, and the tests neither audit call arguments nor vary relocation.",
 ["strbuf.c", "strbuf.h", "accessories/strbuf_crypt/strbuf_crypt.c"],
 [("capacity change", "strbuf.c:change_buf_capacity"), ("create/destroy", "strbuf.c:create_buf, destroy_buf"), ("C string conversion", "strbuf.c:strbuf_to_cstr"), ("temporary concat buffer", "strbuf.c:buffer_vcat")],
 ["log of allocator calls", "poisoned freed blocks and redzones"])

prop("C05", "Capacity policy: exact start, stepped growth, shrink only on request",
 "A buffer created with an initial capacity has exactly that capacity, an explicit grow guarantees at least the requested capacity, and when an operation has to extend the buffer the new capacity is the needed size rounded up to the configured growth step. No operation other than an explicit shrink ever reduces the capacity, an operation that fits never changes it, and shrink reduces it to exactly the content size without altering the content.",
 ["histories", "configurations"], "all operation sequences and growth steps (several compile-time values)",
 "Tests look at capacity in three fixed situations with the default step only.",
 ["strbuf.c", "strbuf.h"],
 [("rounding", "strbuf.c:round_up_capacity"), ("capacity change", "strbuf.c:change_buf_capacity"), ("grow/shrink", "strbuf.c:strbuf_grow, strbuf_shrink")],
 ["capacity after each operation"])

prop("C06", "Formatted printing into a buffer equals the formatter's full output",
 "Printing to a buffer sets its content, and print-appending extends it, by exactly the text the underlying formatter (the C library's, or prnf when enabled) generates for the same format and arguments, at any length and from any prior content and capacity. If the output does not fit a fixed buffer, or the formatter fails, the buffer is emptied and remains valid. The variadic and argument-list forms are equivalent.",
 ["inputs", "histories"], "all format strings and argument values, prior contents and capacities, dynamic and fixed buffers",
 "Tests format two short strings; boundary lengths (exact fit, one over), embedded zeros, long outputs and formatter failures are not covered.",
 ["strbuf.c"],
 [("measure-then-print", "strbuf.c:strbuf_append_vprintf"), ("char-at-a-time sink", "strbuf.c:strbuf_append_vprnf, char_handler_for_prnf")],
 ["buffer content vs snprintf/snprnf output"])

prop("C07", "Positional insertion places the source exactly where indexed",
 "Inserting at an index puts the source before the character at that index, with negative indexes counted from the end and out-of-range indexes clipped to the nearest end; inserting before or after a view inside the buffer puts the source at that view's start or end. All other characters keep their order and values. A position view lying outside the buffer's content leaves the buffer unchanged.",
 ["inputs"], "all index values (entire int range), all positions and source sizes, dynamic and fixed buffers",
 "Tests insert at a few indexes of one short string; extreme, negative and boundary indexes with varied capacities are unbounded.",
 ["strbuf.c"],
 [("index normalisation and shifting", "strbuf.c:insert_strview_into_buf"), ("before/after", "strbuf.c:strbuf_insert_before_strview, strbuf_insert_after_strview")],
 ["buffer content"])

prop("C08", "Fetch-style append honours the fetcher contract",
 "Appending through a fetch callback calls it exactly once with the address just past the content, the exact free capacity, and the caller's context pointer. If it reports 0 up to that many bytes, precisely those bytes are appended; if it reports a negative or larger count the buffer is emptied and an invalid view is returned. The buffer stays terminated and its capacity is unchanged in every case.",
 ["inputs", "fault_sequences", "histories"], "all prior contents/capacities and all fetcher return values, including misbehaving ones",
 "No unit test calls it at all.",
 ["strbuf.c"],
 [("bounds check on the fetch result", "strbuf.c:strbuf_append_using")],
 ["callback arguments", "content after the call"])

prop("C09", "Creation, destruction and C-string conversion lifecycle is exact and NULL-safe",
 "Creating with a capacity yields an empty buffer, creating with content yields exactly that content, and creating on misaligned, missing or too small memory, with an over-large capacity or without any available allocator yields no buffer. Converting to a C string returns the full content zero-terminated in memory of the same allocator, and destroying or converting always nulls the caller's pointer, including for fixed buffers. Every buffer operation given no buffer does nothing harmful and reports an invalid view (or null).",
 ["inputs", "configurations"], "all initial capacities, contents, memory sizes/alignments and null arguments",
 "Tests check single examples of creation and conversion, never the null-argument or misaligned cases.",
 ["strbuf.c", "strbuf.h"],
 [("argument checks", "strbuf.c:strbuf_create_fixed, strbuf_create_empty"), ("conversion", "strbuf.c:strbuf_to_cstr"), ("destroy", "strbuf.c:strbuf_destroy")],
 ["returned pointers, content, caller's pointer"])

prop("C10", "Sizes never wrap: results that would exceed the integer limit empty the buffer",
 "When an operation's result would be larger than the maximum size a buffer can represent, the buffer is emptied and stays valid; the size and capacity never become negative or wrap, and nothing is written outside the allocation. Results up to and including the maximum size are accepted. Rounding a capacity up near the maximum saturates instead of overflowing.",
 ["inputs", "histories"], "all size combinations around the maximum int, for append, append-character, prepend/insert, concatenate and formatted append",
 "Tests never build buffers anywhere near 2 GB, so no overflow branch is executed.",
 ["strbuf.c"],
 [("overflow predicate", "strbuf.c:add_will_overflow_int"), ("saturating rounding", "strbuf.c:round_up_capacity"), ("uses", "strbuf.c:insert_strview_into_buf, append_char_to_buf, buffer_vcat, strbuf_append_vprintf")],
 ["size/capacity/terminator with huge (reserved, untouched) memory"])

prop("C11", "View operations only look inside their source and never modify it",
 "Every view returned by a trimming, searching, splitting, slicing or dequoting operation lies completely within the source view, and the source's bytes are never modified. No operation reads any byte outside the given views or past the terminator of a given C string. Invalid and empty views, and null pointers where a pointer to a view is optional, are always handled without a fault.",
 ["inputs", "histories"], "all operations, chained arbitrarily, on views placed flush against inaccessible memory, with arbitrary bytes and argument values",
 "Tests use string literals, whose zero terminator hides over-reads by one, and few degenerate arguments.",
 ["strview.c", "strview.h"],
 [("loop bounds", "strview.c:contains_char, find_first, find_last, split_first_delim, split_last_delim"), ("validity checks", "strview.c:strview_split_left, strview_split_right, strview_sub")],
 ["returned views", "redzones around the source"])

prop("C12", "Comparison, equality and prefix tests agree with byte-wise string semantics",
 "Equality and prefix tests are true exactly when the bytes agree (ignoring ASCII letter case only for the case-insensitive forms) and the ordering is the unsigned byte-wise lexicographic order with a proper prefix ordered first, so that it is a consistent total order. Two invalid views match, an invalid view never matches a valid one nor is a prefix of a valid one, and ordering treats an invalid view as empty. Passing a C string or a view as the second operand gives the same answer.",
 ["inputs"], "all pairs (and triples) of byte strings, including bytes above 127, embedded zeros, empty and invalid views",
 "Tests compare a handful of ASCII words.",
 ["strview.c", "strview.h"],
 [("compare", "strview.c:strview_compare"), ("match", "strview.c:strview_is_match_strview, strview_starts_with_strview"), ("case folding", "strview.c:memcmp_nocase")],
 ["returned booleans and signs"])

prop("C13", "Search finds exactly the first or last occurrence",
 "Searching returns the view of the first (or last) occurrence of the needle within the haystack, located inside the haystack and with the needle's length, and an invalid view exactly when there is none; the contains test agrees. Case-insensitive forms differ only by ignoring ASCII letter case. An empty valid needle is found at the start (first) or end (last), and nothing is ever found in or by an invalid view.",
 ["inputs"], "all haystack/needle pairs, including overlapping and near-miss occurrences, needles longer than the haystack and arbitrary bytes",
 "Tests use a few sentences; adversarial self-overlapping patterns and boundary positions are not enumerated.",
 ["strview.c", "strview.h"],
 [("forward scan", "strview.c:find_first"), ("backward scan", "strview.c:find_last"), ("case folding", "strview.c:memcmp_nocase")],
 ["returned view offset and size"])

prop("C14", "Trimming removes exactly the maximal run of listed characters",
 "Trimming the start, end or both ends removes the longest run of characters belonging to the given set from that end and nothing else; the result is a contiguous part of the source whose outer characters are not in the set, or is empty when every character is. Trimming is idempotent, trimming both ends equals trimming one end then the other, and an invalid or empty set removes nothing.",
 ["inputs"], "all source views and character sets (any bytes, as view or C string)",
 "Tests trim a few literals with two or three ASCII characters.",
 ["strview.c", "strview.h"],
 [("trim loops", "strview.c:strview_trim_start_strview, strview_trim_end_strview"), ("membership", "strview.c:contains_char")],
 ["returned view offset and size"])

prop("C15", "Index-based slicing follows clipped, negative-from-end index semantics",
 "A sub-range returns the characters from begin up to end with negative indexes counted from the end and both ends clipped to the source, and an invalid view when the requested range lies wholly outside or is reversed. Splitting by index removes and returns that many characters from the start (or, for a negative count, from the end), clipped to the source, so that the pieces joined together are the original. Popping a character returns and removes the first one, or returns 0 and changes nothing when there is none.",
 ["inputs", "histories"], "all source sizes (from empty to the maximum int) and the whole int range for indexes",
 "Tests sample some indexes on a 10-character string; overflow-prone extremes such as INT_MIN and very large views are not.",
 ["strview.c", "strview.h"],
 [("slicing", "strview.c:strview_sub"), ("splitting", "strview.c:split_index"), ("pop", "strview.c:strview_pop_first_char")],
 ["returned view and remaining source"])

prop("C16", "Delimiter splitting partitions the text losslessly at the right delimiter",
 "Splitting at the first (or last) delimiter returns everything before (after) the first (last) character that belongs to the delimiter set and leaves the rest without that delimiter; if there is no delimiter the whole source is returned and the source becomes invalid. Splitting repeatedly, or all at once up to the number of destination slots, yields every field (including empty ones) in order so that fields and delimiters joined are the original text. With quote exclusion on, delimiters between double quotes are not split points.",
 ["inputs", "histories"], "all texts, delimiter sets, quote placements and destination array sizes",
 "Tests split a few comma lists; adjacent, leading and trailing delimiters with quotes in all combinations are not covered.",
 ["strview.c", "strview.h"],
 [("first/last delimiter", "strview.c:split_first_delim, split_last_delim"), ("split all", "strview.c:strview_split_all")],
 ["returned fields, remaining source, destination array"])

prop("C17", "Splitting left or right of a position is an exact two-way partition",
 "Splitting left of a position view returns everything before the position's start and leaves the rest; splitting right returns everything after the position's end and leaves everything up to it. The returned part and the remaining source always concatenate to the original. If the position does not lie within the source, or either view is invalid, an invalid view is returned and the source is unmodified.",
 ["inputs"], "all sources and all positions inside, at the edges of, overlapping and outside the source",
 "Tests use a few search results as positions; edge, overlapping and foreign positions are not enumerated.",
 ["strview.c"],
 [("left", "strview.c:strview_split_left"), ("right", "strview.c:strview_split_right")],
 ["returned view and remaining source"])

prop("C18", "Line splitting handles every mixture and chunking of line endings",
 "Splitting by line returns, in order, exactly the lines of the text without terminators, where CR, LF, CRLF and LFCR in any mixture each end one line; text without a terminator gives an invalid view and stays in the source. When the text arrives in arbitrary pieces (down to single characters) appended to a buffer and the end-of-line state is carried between calls, the same lines come out as when the text is processed at once.",
 ["inputs", "histories", "schedules"], "all texts over CR, LF and other bytes, all ways of cutting them into chunks and of interleaving arrivals with line extraction",
 "Tests feed one text whole and one character at a time; every mixture of terminators and chunk boundaries is not covered.",
 ["strview.c"],
 [("end-of-line discriminator", "strview.c:strview_split_line")],
 ["sequence of returned lines and the remaining source"])

prop("C19", "Dequoting strips only complete layers of one kind of quote",
 "Dequoting removes matching outer pairs of the same quote character (single or double), repeatedly as long as the outermost pair is of that same kind, and nothing else: text not starting and ending with the same quote character is returned unchanged, whitespace is not trimmed, and the inner text keeps quotes of the other kind. The result is always a valid part of the source and an invalid or single-character source is returned as is.",
 ["inputs"], "all texts built from quotes of both kinds and other characters",
 "Tests check eight literals.",
 ["strview.c"],
 [("layer removal", "strview.c:strview_dequote")],
 ["returned view"])

prop("C20", "Conversions between views and C strings are exact and bounded",
 "Viewing a C string or literal gives exactly its characters, and a null C string gives an invalid view. Writing a view to a destination of given size copies as many leading bytes as fit, always terminates within the size when the size is non-zero, writes nothing beyond it, and touches nothing when the size is zero or the destination is missing. Printing a view through the provided format macros outputs exactly its characters, validity reports whether a view refers to data, and swapping exchanges two views.",
 ["inputs"], "all byte contents, view sizes and destination sizes",
 "Tests cover one or two destination sizes.",
 ["strview.c", "strview.h"],
 [("copy-out", "strview.c:strview_to_cstr"), ("view creation", "strview.c:cstr"), ("print macros", "strview.h:PRIstr, PRIstrarg, cstr_SL")],
 ["destination bytes and guards, returned views"])

prop("C21", "Integer parsing returns the exact value, consumption and error",
 "Parsing an integer of any supported width skips optional leading spaces, accepts an optional sign for signed types and an optional base prefix, consumes the longest run of digits of the base, and yields exactly that number, or reports a range error when it is not representable in the destination type, or an invalid-argument error when there is no number. Each option (binary, hexadecimal, no prefix, no sign, no space) changes only the corresponding rule, and text after the number is left in the source. Every width, through both the consuming and the default-value interfaces, agrees with exact arithmetic up to its limits.",
 ["inputs", "configurations"], "all texts, all integer types, all option combinations; leading zeros and digit strings of any length",
 "Tests try some literals per type; limits +/-1 in every base and option combination, long zero runs and odd bytes are not enumerated.",
 ["strnum.c", "strnum.h"],
 [("signed/unsigned parse", "strnum.c:consume_signed, consume_unsigned"), ("digit loops", "strnum.c:consume_decimal_digits, consume_hex_digits, consume_bin_digits"), ("prefix", "strnum.c:consume_base_prefix"), ("type dispatch", "strnum.h:strnum_value")],
 ["return code, value, remaining source"])

prop("C22", "Failed number parsing changes nothing; defaults are returned instead",
 "When parsing any numeric type fails, neither the destination nor the source view is modified; a successful parse leaves in the source exactly the unconsumed tail. The convenience functions never modify the caller's view and return the parsed value on success and exactly the given default on any failure. Omitting the destination still validates and consumes, and omitting or invalidating the source is an invalid-argument error without a fault.",
 ["inputs"], "all texts (valid, malformed, out of range), all numeric types including floating point, all options, null destination/source",
 "Tests check the untouched-on-error rule for a few inputs and types only.",
 ["strnum.c"],
 [("commit only on success", "strnum.c:consume_signed, consume_unsigned, strnum_consume_float/double/ldouble"), ("defaults", "strnum.c:strnum_i8 .. strnum_ldouble")],
 ["destination sentinel, source view, returned default"])

prop("C23", "Floating point parsing is accurate to rounding noise",
 "For any decimal text with any number of integral and fractional digits and an optional exponent, the parsed float, double or long double differs from the exact decimal value by no more than a few units in the last place of that type (within the type's normal range, however the value is split over digits and exponent), carries the right sign, and is exact for integers up to 2^64 that the type can represent. A value too large for the type is reported as a range error rather than returned as infinity, and zero with any exponent is zero.",
 ["inputs"], "all decimal texts: digit strings of any length, exponents across the type's range, all three types",
 "Tests check a few literals at modest precision.",
 ["strnum.c"],
 [("chunked digit conversion", "strnum.c:make_float_type"), ("exponent", "strnum.c:consume_exponent")],
 ["value versus correctly rounded reference"])

prop("C24", "Floating point grammar and special values are recognised exactly",
 "Floating point parsing accepts optional spaces, an optional sign, digits with an optional point (at least one digit on either side) and an optional exponent, or inf, infinity or nan in any letter case, consumes exactly the longest such text and leaves the rest; anything else is an invalid-argument error. An E not followed by a valid exponent is left unconsumed, an exponent too large for an integer is a range error, and the options forbidding spaces, signs or exponents change only that rule.",
 ["inputs", "configurations"], "all texts over the number alphabet and their mutations, all option combinations, three types",
 "Tests have a few dozen literals; grammar corner cases (dangling points, signs, E, partial words) are combinatorial.",
 ["strnum.c"],
 [("component scan", "strnum.c:process_float_components"), ("special words", "strnum.c:consume_float_special"), ("exponent", "strnum.c:consume_exponent")],
 ["return code, class of value, remaining source"])

prop("C25", "Encryption is standard AES-256-CBC with PKCS#7 and round-trips",
 "Encrypting a buffer replaces its content by the standard AES-256 CBC ciphertext with PKCS#7 padding for the given key and initialisation vector, and decrypting that with the same key and vector restores the original bytes for any content. Both return a view of the buffer's resulting content and leave the key and vector unmodified. A fixed buffer too small for the ciphertext is left holding its original content.",
 ["inputs", "histories"], "all contents and sizes (every residue mod 16), keys, vectors, dynamic and fixed buffers with any spare capacity",
 "The crypt accessory has no unit tests at all.",
 ["accessories/strbuf_crypt/strbuf_crypt.c", "accessories/strbuf_crypt/strbuf_crypt.h", "accessories/strbuf_crypt/aes/"],
 [("CBC and padding", "accessories/strbuf_crypt/strbuf_crypt.c:enc256cbc, dec256cbc"), ("block cipher", "accessories/strbuf_crypt/aes/aes_enc.c, aes_dec.c, aes_keyschedule.c, gf256mul.c, aes_sbox.c, aes_invsbox.c")],
 ["ciphertext versus independent reference, decrypted content"])

prop("C26", "Decrypting arbitrary or damaged data is safe",
 "Decrypting a buffer holding any bytes of any size, with any key, never corrupts memory: the buffer stays valid and terminated with a size between zero and its previous size. If the content is not a whole non-zero number of cipher blocks, or the recovered padding is not valid, decryption fails, reported by an invalid view and an empty buffer. Otherwise the result is exactly the plaintext the standard defines for that ciphertext.",
 ["inputs", "fault_sequences"], "all byte contents: random, truncated, bit-flipped or wrongly keyed ciphertexts; dynamic and fixed buffers",
 "No unit tests cover decryption; only hostile inputs reach the padding logic's edge cases.",
 ["accessories/strbuf_crypt/strbuf_crypt.c"],
 [("padding removal", "accessories/strbuf_crypt/strbuf_crypt.c:dec256cbc"), ("length handling", "accessories/strbuf_crypt/strbuf_crypt.c:strbuf_crypt")],
 ["buffer size, terminator, returned view, redzones"])

prop("C27", "Binary packing and unpacking are inverse and have the declared byte order",
 "Packing an integer of any supported width appends exactly its bytes in the declared (little or big endian) order to the buffer, and unpacking consumes exactly those bytes and returns the same value with its sign. Any sequence of packs followed by the same sequence of unpacks restores all values and leaves nothing over, whatever else is in the buffer. Byte swapping is its own inverse.",
 ["inputs", "histories"], "all values of all eight integer types, both byte orders, arbitrary interleavings and alignments",
 "The pack/unpack accessories have no unit tests.",
 ["accessories/strbuf_pack.h", "accessories/strview_unpack.h", "accessories/xendian.h"],
 [("swap", "accessories/xendian.h:xendian_swap16/32/64, xendian_SWAP"), ("pack", "accessories/strbuf_pack.h"), ("unpack", "accessories/strview_unpack.h")],
 ["buffer bytes, unpacked values, remaining view"])

prop("C28", "Stream I/O accounts for every byte under short and failing reads and writes",
 "Reading into a buffer always issues one read for exactly the free capacity, appends exactly the bytes the system delivered, and returns its result; writing from a buffer or view offers exactly its content and afterwards removes exactly the bytes accepted, keeping the rest in order. On errors or zero-length results the content is unchanged, and over any sequence of partial transfers no byte is lost, duplicated or reordered. The buffer stays valid and terminated throughout and its capacity is not exceeded.",
 ["fault_sequences", "histories", "inputs"], "all sequences of full, short, zero, interrupted and failing reads and writes, on dynamic and fixed buffers",
 "The I/O accessories have no unit tests, and short transfers depend on the system.",
 ["accessories/strbuf_io.c", "accessories/strview_io.c"],
 [("read", "accessories/strbuf_io.c:strbuf_append_read"), ("write", "accessories/strbuf_io.c:strbuf_write, accessories/strview_io.c:strview_write")],
 ["system call arguments, return value, buffer content"])

prop("C29", "Every documented build configuration behaves the same",
 "With any documented combination of build options (growth step, printf support, prnf support, no floating point, default allocator or none, user-supplied default allocator) the library builds and the same calls produce the same observable results, apart from the features the option removes. Without any default allocator, creating a dynamic buffer with no allocator yields no buffer while explicit allocators and fixed buffers keep working; a user-supplied default allocator is used for every buffer created without one.",
 ["configurations", "histories", "inputs"], "all documented option combinations crossed with random operation sequences",
 "The unit tests build exactly one configuration.",
 ["strbuf.c", "strbuf.h", "strnum.c", "strnum.h", "examples/default_custom_allocator/default-custom-alloc.c"],
 [("default allocator selection", "strbuf.c:strbuf_default_allocator"), ("option guards", "strbuf.c, strbuf.h, strnum.c, strnum.h preprocessor conditionals")],
 ["results of the same generated program under each configuration"])

prop("C30", "The URI example decomposes every documented URI form",
 "For every combination of the documented URI forms (optional scheme, user, host, port and path) the example program reports exactly the components the text was composed from, with absent components not reported. Arbitrary other text is handled without a fault, and every reported component is a piece of the given text.",
 ["inputs"], "all URIs composed from the documented grammar with generated components, plus arbitrary strings",
 "The example has no automated test; it prints 27 fixed strings.",
 ["examples/parse-uri/parse-uri.c"],
 [("decomposition", "examples/parse-uri/parse-uri.c:parse_uri"), ("splitting and searching", "strview.c")],
 ["program output"])

prop("C31", "Separate objects are independent: no hidden shared state",
 "The library keeps no hidden mutable state: the result of an operation depends only on its arguments and the objects it is given. Operation sequences on separate buffers, views and numbers therefore give the same results whether they run alone, one after another, interleaved through callbacks (an allocator, fetch function or file transfer that itself uses the library on other objects), or at the same time on different threads, and running them on different threads never races.",
 ["schedules", "histories", "inputs"], "all sets of operation sequences over all library functions on disjoint objects, all interleavings at callbacks, and concurrent execution on threads",
 "The unit tests are single threaded and never re-enter the library from a callback.",
 ["strbuf.c", "strview.c", "strnum.c", "accessories/strbuf_io.c", "accessories/strview_io.c", "accessories/strbuf_crypt/strbuf_crypt.c"],
 [("per-call scratch data", "strbuf.c:strbuf_strip_strview, strbuf_append_vprintf, buffer_vcat"), ("per-buffer allocator", "strbuf.c:create_buf"), ("per-call cipher state", "accessories/strbuf_crypt/strbuf_crypt.c:strbuf_crypt, encdec_with_ctx_on_stack")],
 ["every result and buffer of each sequence, compared with the sequence run alone", "thread sanitizer reports"])

prop("C32", "Results do not depend on compiler, optimisation or the sign of plain char",
 "Built with plain char signed or unsigned, by gcc or clang, at any optimisation level, the library gives the same results for the same calls: all guarantees about buffers, views, number parsing, encryption, packing and stream I/O hold unchanged, including for bytes of 128 and above. Only the range of numbers parsed into plain char follows the type itself.",
 ["configurations", "histories", "inputs"], "builds over {signed, unsigned plain char} x {gcc, clang} x optimisation levels, crossed with the inputs and histories of the other properties",
 "The unit tests run in one build by one compiler on a platform whose plain char is signed.",
 ["strbuf.c", "strview.c", "strnum.c", "accessories/"],
 [("character sets and case folding", "strview.c:contains_char, memcmp_nocase"), ("byte indexed tables", "strbuf.c:strbuf_strip_strview"), ("digit values", "strnum.c:xdigit_value, isbdigit")],
 ["results of every operation against the same oracles in each build"])

prop("C33", "View and number operations are exact on texts up to the integer limit",
 "Views hold up to INT_MAX bytes, and every view operation (slicing, splitting, trimming, searching, comparing, line splitting, dequoting, conversion to and from C strings) gives on texts of any size up to that limit exactly the result its definition gives on short texts, whatever the position of the interesting characters, and never reads outside the text. Number parsing likewise does not depend on how many leading spaces or zeros precede a number, nor on how much text follows it.",
 ["inputs", "histories"], "all texts up to INT_MAX bytes and all operation sequences on views of them, with positions, indexes and sizes over the whole int range",
 "No test uses a text of more than a few dozen characters; sizes near the integer limit need gigabytes of text and only specific positions matter.",
 ["strview.c", "strview.h", "strnum.c"],
 [("index arithmetic", "strview.c:strview_sub, split_index"), ("pointer distances converted to int", "strview.c:strview_split_left, strview_split_right, split_first_delim, split_last_delim"), ("scan bounds", "strview.c:find_first, find_last, strview_trim_start_strview, strview_trim_end_strview"), ("digit runs", "strnum.c:consume_decimal_digits, split_digits")],
 ["position and size of every returned view", "numbers compared with those parsed from the shortened text", "inaccessible pages around the text"])

prop("C34", "Stream I/O, packing and encryption stay exact up to the integer limit",
 "On buffers and views of any size up to INT_MAX bytes, reading requests exactly the free capacity and appends exactly what was delivered, writing offers exactly the content and removes exactly the bytes accepted, packing and unpacking move exactly the packed bytes, and no size ever wraps or is truncated. Packing past the maximum size empties the buffer, and content whose ciphertext would exceed the maximum size is never encrypted beyond the buffer's memory: a dynamic buffer is emptied and an invalid view returned. Encryption and decryption do not depend on how large the capacity is.",
 ["inputs", "histories"], "all operation sequences mixing stream I/O, packing, encryption and buffer edits on dynamic and fixed buffers of up to INT_MAX bytes, with transfers of any length",
 "The tests transfer and encrypt a few dozen bytes; wrapping or truncated sizes only show with more than 32767 or 65535 bytes or within a block of the integer limit.",
 ["accessories/strbuf_io.c", "accessories/strview_io.c", "accessories/strbuf_pack.h", "accessories/strview_unpack.h", "accessories/strbuf_crypt/strbuf_crypt.c"],
 [("size of the ciphertext", "accessories/strbuf_crypt/strbuf_crypt.c:cypher_size, strbuf_crypt"), ("transfer sizes", "accessories/strbuf_io.c:strbuf_append_read, strbuf_write"), ("remaining view", "accessories/strview_io.c:strview_write"), ("packing macros", "accessories/strbuf_pack.h")],
 ["system calls issued with their sizes and addresses", "buffer size, capacity and sampled content after every operation", "bytes after the end of the allocation"])

prop("C35", "Interface macros evaluate their arguments once and take any expression",
 "Every generic interface macro (appending, prepending, inserting, stripping, concatenating and creating buffers; matching, prefix tests, trimming and searching of views; number parsing; packing and byte swaps) behaves like a function call: whatever expression is given for an argument (increments, assignments, conditionals, casts, calls, comma expressions, compound literals, nested uses of the same macro, char arrays, const and non-const pointers, string literals), each buffer, source, position, option and destination argument is evaluated exactly once, the operation is chosen by the argument's type, and the result is what plain variables of the same values give. A packed value is the value of the expression. Space declared with a capacity given as an expression holds exactly that many characters, and unpacking accepts any modifiable object as destination and view (its two arguments may be evaluated more than once and must be free of side effects).",
 ["inputs"], "all combinations of argument expressions, argument types and operand values at the call sites of the interface macros",
 "The tests use plain variables and literals; a macro that evaluates an argument twice, forgets parentheses or picks the wrong function for an argument type shows only for the expression that matters.",
 ["strbuf.h", "strview.h", "strnum.h", "accessories/strbuf_pack.h", "accessories/strview_unpack.h", "accessories/xendian.h"],
 [("generic selection of buffer operations", "strbuf.h:strbuf_append, strbuf_prepend, strbuf_insert_at_index, strbuf_insert_before, strbuf_insert_after, strbuf_strip, strbuf_create"), ("argument counting", "strbuf.h:strbuf_cat, PP_NARG"), ("capacity expressions", "strbuf.h:strbuf_space_t, STRBUF_STATIC_INIT, STRBUF_FIXED_CAP"), ("generic selection of view operations", "strview.h:strview_is_match .. strview_find_last_nocase"), ("generic selection by destination", "strnum.h:strnum_value"), ("packing expressions", "accessories/strbuf_pack.h, accessories/xendian.h:xendian_SWAP")],
 ["number of evaluations of each argument", "result compared with the same operation on plain variables or with the buffer model"])

prop("C36", "Headers work alone, in any order, in any number of files, with any names",
 "Every public header can be included on its own, more than once, in any order, before, after or between other headers of the library and standard headers, in any number of source files of one program, in every supported configuration and with the C dialects and compilers the library accepts (gcc and clang, gnu99 and later; C11 for the parts that use no GNU extension). Everything the header offers then compiles with its declared meaning (no missing declaration, type or constant), the program links with the library without unresolved or duplicate symbols, and each use gives its documented result. The library claims no names outside its own prefixes: users may call their own variables (also those passed to the interface macros) and their own external functions whatever they like.",
 ["inputs"], "all programs of up to three source files that include any sequence of the public and standard headers and use any of their functions and macros with any variable names, in every configuration",
 "The tests are one translation unit per library that includes the standard headers first and always the same headers in the same order, so a missing include, a clash of two headers, a symbol defined twice or a macro that captures the user's variable cannot show.",
 ["strbuf.h", "strview.h", "strnum.h", "accessories/strbuf_io.h", "accessories/strview_io.h", "accessories/strbuf_pack.h", "accessories/strview_unpack.h", "accessories/xendian.h", "accessories/strbuf_crypt/strbuf_crypt.h"],
 [("headers' own includes and guards", "strbuf.h, strview.h, strnum.h, accessories/*.h"), ("functions defined in headers", "accessories/xendian.h, strview.h"), ("variables declared by macros", "strbuf.h:STRBUF_FIXED_CAP, strbuf_cat; accessories/strbuf_pack.h; accessories/strview_unpack.h"), ("external symbols of the library", "strbuf.c, strview.c, strnum.c, accessories/*.c")],
 ["compiler and linker diagnostics of generated programs", "exit status of the program"])

prop("C37", "With the assert option a failed default allocation stops at once",
 "Built with STRBUF_DEFAULT_ALLOCATOR_STDLIB and STRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB, whenever the C library's allocator cannot provide memory for a buffer that uses the default allocator (creating, growing, shrinking, any edit that extends it, encryption's working memory), an assertion fails at that request: the library does not return to the caller, ask for more memory, release anything, or read or write memory it does not own before that. No other buffer is affected, the content of the buffer operated on is still allocated, and no assertion ever fails while allocations succeed or memory is released, nor for buffers with other allocators or in fixed memory.",
 ["histories", "fault_sequences"], "all operation histories on default-allocated, custom-allocated and fixed buffers, with the C library's allocator failing at any one of its requests",
 "The tests never see an allocation fail; whether a failure is noticed depends on which request of which operation fails.",
 ["strbuf.c", "strbuf.h", "accessories/strbuf_crypt/strbuf_crypt.c"],
 [("the asserted default allocator", "strbuf.c:allocfunc_stdlib"), ("every request for memory", "strbuf.c:create_buf, change_buf_capacity, buffer_vcat; accessories/strbuf_crypt/strbuf_crypt.c:strbuf_crypt")],
 ["failed assertions and the allocator calls before them", "content and allocation of every other buffer at that moment"])

prop("C38", "Sources are only read: they may be in read-only memory or shared",
 "No operation writes to a text it is given as a source, not even temporarily (to terminate it, to fold its case, or as a search guard): views, C strings, character sets, delimiters, needles, format strings and their arguments, number texts and data to be written or unpacked may all be in memory that cannot be written, such as string literals, constant data or read-only mappings, and give exactly the same results there. Whatever surrounds the viewed part of a larger text is not written either.",
 ["inputs", "histories"], "all operations taking views, C strings or sets, alone and in histories, with every source text in memory mapped read-only",
 "A temporary change that is undone before returning is invisible to a test whose texts are writable, and literals in the tests are used by few of the operations.",
 ["strview.c", "strview.h", "strbuf.c", "strnum.c", "accessories/strview_io.c", "accessories/strview_unpack.h"],
 [("searching, comparing, trimming, splitting", "strview.c"), ("insertion and concatenation of foreign text", "strbuf.c:insert_strview_into_buf, buffer_vcat"), ("number parsing", "strnum.c")],
 ["faults on a write to a source", "results of the other properties' oracles"])

prop("C39", "Stack use does not grow with the text",
 "The stack an operation needs is bounded by a constant: it does not depend on the size of the texts and buffers involved, on the number of parts, lines, layers of quotes or digits in them, on the size of a character set or needle, or on the capacity. A thread or program with a small stack (a few KB in the embedded builds the library is meant for; the check allows 192 KiB) can therefore use every operation on texts of any size, and they give the same results there.",
 ["inputs", "histories"], "all operations and histories on texts larger than the available stack, whatever their structure",
 "The tests' texts are far smaller than the stack they run on, so a local array sized by the text or a recursion over it costs nothing there.",
 ["strbuf.c", "strview.c", "strnum.c", "accessories/"],
 [("insertion of own text and concatenation", "strbuf.c:insert_strview_into_buf, buffer_vcat"), ("stripping, printing", "strbuf.c:strbuf_strip_strview, strbuf_append_vprintf"), ("searching, splitting, dequoting", "strview.c:find_first, find_last, split_first_delim, split_last_delim, strview_split_all, strview_dequote"), ("digit runs", "strnum.c:consume_decimal_digits, split_digits"), ("encryption and transfers", "accessories/strbuf_crypt/strbuf_crypt.c, accessories/strbuf_io.c, accessories/strview_io.c")],
 ["faults in the inaccessible region below the stack", "results compared with the model"])

prop("C40", "Results do not depend on the locale, and the locale is left alone",
 "Under any locale the program has set (with another decimal point, digit grouping, character classes, case conversion or a multibyte encoding) the library does what it does in the C locale: numbers are read with '.' as the decimal point and without digit grouping, the same texts are accepted, with the same value, error and consumption, INF and NAN are recognised in any case; comparing, searching, trimming, splitting, dequoting, copying and every edit of a buffer treat text as bytes; ignoring case gives the same for letters that all locales convert alike. Only printing follows the locale, and exactly as the C library's printf does. No operation changes the locale. Not claimed: ignoring case for letters the locale converts otherwise (it uses toupper()).",
 ["inputs", "configurations"], "all number texts, options and destination types, all view and edit operations on any bytes, under locales with other decimal points, grouping, case conversion and encodings",
 "The tests run in the C locale only, where a locale dependent function is indistinguishable from one that is not.",
 ["strnum.c", "strview.c", "strbuf.c"],
 [("decimal point and exponent", "strnum.c:process_float_components, consume_exponent"), ("special values", "strnum.c:consume_float_special"), ("digits", "strnum.c:split_digits, consume_decimal_digits, consume_hex_digits"), ("texts as bytes", "strview.c; strbuf.c:strbuf_strip_strview")],
 ["result of a call in the C locale and in another one", "setlocale(LC_ALL, NULL) around a call", "printf in the same locale"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
