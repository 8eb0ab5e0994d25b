#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one place to edit; run to regenerate).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)
T = "test/test.c samples a handful of literal strings"

p("C01", "View operations stay inside their source and only read memory they were given",
  "Every view returned by (or left in the source by) a string-view operation is either invalid or lies wholly inside the view it was derived from, for every valid, empty or invalid argument and every index value. "
  "No view operation reads a byte outside the views, C strings and destinations passed to it (views need not be NUL terminated), and none writes to the viewed data.",
  ["inputs"], "all views (any bytes, any length, unterminated, at either end of mapped memory, empty, invalid), all int indexes including INT_MIN/INT_MAX, all chains of view operations",
  T + " that live inside larger NUL-terminated literals, so an over-read by one byte or a view one byte too long lands in readable memory and is invisible",
  ["strview.c", "strview.h"],
  [("index clipping", "strview.c:strview_sub, split_index"), ("bounded scans", "strview.c:find_first, find_last, contains_char, split_first_delim, split_last_delim"), ("range tests on pos", "strview.c:strview_split_left, strview_split_right")],
  ["returned strview_t", "source view after the call", "memory accesses (ASan redzones, guard pages, read-only pages)"])

p("C02", "Substring search finds exactly the first or last occurrence",
  "find_first (find_last) returns the view of the leftmost (rightmost) place in the haystack where the needle's bytes occur, of the needle's length and inside the haystack, and an invalid view exactly when there is none; an empty valid needle is found at the start (end), an invalid needle or haystack never matches. "
  "The nocase forms do the same under ASCII case folding, contains and contains_nocase agree with the corresponding find_first, and passing the needle as a C string or as a view makes no difference.",
  ["inputs"], "all haystacks and needles (any bytes, overlapping occurrences, needle longer than haystack, needle aliasing haystack, empty, invalid)",
  T + "; partial matches, overlaps, high bytes, matches at the very last position and needles aliasing the haystack are unbounded in number",
  ["strview.c", "strview.h"],
  [("scan loop", "strview.c:find_first"), ("reverse scan loop", "strview.c:find_last"), ("case folding compare", "strview.c:memcmp_nocase"), ("type dispatch", "strview.h:strview_find_* macros")],
  ["returned strview_t position and size"])

p("C03", "Delimiter splitting conserves the source and honours quotes",
  "Splitting at the first (last) delimiter returns exactly the bytes before the first (after the last) byte that belongs to the delimiter set and leaves exactly the rest without that one delimiter, valid even when empty; with no delimiter present the whole source is returned and the source becomes invalid, so repeated splitting ends and tokens plus removed delimiters reassemble the original text. "
  "With quote exclusion on, bytes between a pair of double quotes, paired from the end where the search starts, never act as delimiters and the quotes are kept. "
  "Splitting into an array yields the same tokens as repeated first-splits, reports how many were written, and never writes more than the array holds.",
  ["inputs"], "all source texts, delimiter sets, quote placements (nested, unbalanced), array sizes >= 1, and sequences mixing both directions",
  T + "; consecutive, leading and trailing delimiters combined with quotes and both directions form an unbounded input space",
  ["strview.c", "strview.h"],
  [("forward split", "strview.c:split_first_delim"), ("backward split", "strview.c:split_last_delim"), ("array split", "strview.c:strview_split_all")],
  ["returned tokens", "source view after each split", "dst[] elements and canaries beyond the count"])

p("C04", "Positional slicing follows Python-style indexes and partitions the source",
  "A sub-view [begin,end) with negative indexes counting from the end and clipping to the length equals the corresponding slice of the bytes, and is invalid when the range lies entirely outside or is reversed. "
  "Splitting by index, left of a position or right of a position returns one part and leaves exactly the complementary part in the source (clipping out-of-range indexes; negative indexes split from the end), while a position view that is not within the source yields an invalid view and an unchanged source. "
  "Popping the first character returns that byte and shortens the source by one, or returns 0 leaving an empty or invalid source unchanged.",
  ["inputs"], "all views, all pairs of int indexes, all position views (inside, touching, straddling, before, after, invalid)",
  T + " and a few index pairs; the index plane is 2^64 points with eight boundary regions per length",
  ["strview.c", "strview.h"],
  [("slice", "strview.c:strview_sub"), ("index split", "strview.c:split_index"), ("position splits", "strview.c:strview_split_left, strview_split_right"), ("pop", "strview.c:strview_pop_first_char")],
  ["returned view", "source view after the call"])

p("C05", "Line splitting recognises every terminator mix, however the text is chunked",
  "Repeatedly splitting lines off a text returns the lines delimited by CR, LF, CRLF or LFCR (a CRLF or LFCR pair being one terminator) without the terminators, in order, and reports no line and leaves the source unmodified when no terminator remains. "
  "When the caller keeps an end-of-line state and appends the same text in pieces cut at arbitrary places to what remains, the sequence of lines is the same as for the whole text at once and no byte of the unfinished remainder is lost.",
  ["inputs", "histories"], "all texts over CR/LF/other bytes, all ways of cutting them into appended chunks, with and without the end-of-line state",
  "the tests feed one mixed text whole and a few texts a character at a time; the space of terminator runs times chunkings is unbounded",
  ["strview.c", "strview.h"],
  [("line split", "strview.c:strview_split_line"), ("pending partner state", "strview.c:strview_split_line *eol")],
  ["returned lines", "remaining source", "*eol"])

p("C06", "Matching, prefix tests and ordering are consistent with byte contents",
  "Two views match exactly when both are invalid, or both are valid with equal length and equal bytes (equal under ASCII case folding for nocase); a valid view starts with another valid view exactly when that one's bytes are its prefix, two invalid views start with each other, and a valid view never starts with an invalid one. "
  "Compare is a total order: its sign is that of the first differing unsigned byte, then of the length difference, with an invalid view ordered as an empty one; it is antisymmetric and transitive. "
  "Passing the second operand as a C string or as a view, or changing where the bytes are stored, never changes a result.",
  ["inputs"], "all pairs and triples of views (shared prefixes, bytes >= 0x80, embedded NUL, aliased, empty, invalid)",
  T + "; laws over pairs and triples, unsigned byte order, and validity combinations are not sampled",
  ["strview.c", "strview.h"],
  [("match", "strview.c:strview_is_match_strview, strview_is_match_nocase_strview"), ("prefix", "strview.c:strview_starts_with_strview, strview_starts_with_nocase_strview"), ("order", "strview.c:strview_compare")],
  ["returned bool/int"])

p("C07", "Trimming and dequoting remove exactly what they should and nothing more",
  "Trimming the start, end or both ends removes the longest run of bytes belonging to the given set from that end and keeps every other byte in place; an empty or invalid set removes nothing and the set may be a C string or a view. "
  "Dequoting removes matching outer pairs of the quote character (single or double) that the text starts with, all levels of that same character, and returns any other text unchanged. "
  "Trimming an already trimmed text changes nothing.",
  ["inputs"], "all texts and all trim sets, including sets covering the whole text, high bytes and NUL bytes in view sets, one-character and unbalanced quotes",
  T + "; maximality and non-removal must hold for every set and text",
  ["strview.c", "strview.h"],
  [("trim loops", "strview.c:strview_trim_start_strview, strview_trim_end_strview"), ("quote peel loop", "strview.c:strview_dequote")],
  ["returned view"])

p("C08", "Conversion between views and C strings is exact and bounded",
  "Writing a view to a caller-supplied char array copies the leading min(length, array size - 1) bytes, terminates them with a NUL, touches no byte beyond that terminator or the array, writes nothing for a zero-size or NULL destination, treats a view of negative size as empty, and returns the destination. "
  "Viewing a C string or string literal yields exactly its characters without the NUL, a NULL C string yields an invalid view, printing a view with the provided printf macros emits exactly its bytes, and swapping exchanges two views.",
  ["inputs"], "all views (including invalid, embedded NUL) and all destination sizes from 0 upward",
  T + " with a roomy destination and one truncation; every size around the boundary and untouched tail bytes are not checked",
  ["strview.c", "strview.h"],
  [("bounded copy", "strview.c:strview_to_cstr"), ("view of C string", "strview.c:cstr, strview.h:cstr_SL"), ("printf glue", "strview.h:PRIstr, PRIstrarg")],
  ["destination bytes with canaries", "returned pointer/view"])

p("C09", "Every history of buffer edits yields the contents of the ideal string edits",
  "After any sequence of create, assign, concatenate, append (view, C string, char), prepend, insert (at index with negative and clipped indexes, before, after), strip, grow, shrink and destroy on a dynamic or sufficiently large fixed buffer, the contents equal those of the same edits on an ideal string. "
  "Assigning an invalid view empties the buffer, inserting or appending an invalid view or inserting relative to a view outside the buffer's contents changes nothing, and a null buffer yields an invalid view.",
  ["histories", "inputs"], "all finite operation histories, all argument bytes and sizes, all starting capacities, dynamic and fixed buffers",
  "the tests run short fixed scripts on small buffers; growth boundaries, long histories and interactions between operations are unsampled",
  ["strbuf.c", "strbuf.h"],
  [("insert engine", "strbuf.c:insert_strview_into_buf"), ("assign", "strbuf.c:strbuf_assign"), ("concatenate", "strbuf.c:buffer_vcat"), ("strip", "strbuf.c:strbuf_strip_strview"), ("type dispatch", "strbuf.h generic macros")],
  ["buffer contents after every operation", "returned view"],
  [("strbuf_t", "owned contents: size, capacity, bytes, terminator", "strbuf.h")])

p("C10", "Arguments taken from the destination buffer itself behave as copies",
  "Assign, append, prepend, every insert and strip, on dynamic and fixed buffers, and concatenation on dynamic buffers give the same result when their source (or character set, or position) is a view into the destination buffer as when it is a private copy of those bytes, including when the operation relocates the buffer, splits the source or overlaps it with the insertion point.",
  ["inputs", "histories"], "all buffer contents, all sub-views used as source, all insertion points, all free capacities (fits, grows in place, relocates), several self-sourced arguments at once",
  "the tests try a few placements on one word; relocation times overlap times split point is a large space and most wrong results need a specific combination",
  ["strbuf.c"],
  [("source offset rebasing", "strbuf.c:insert_strview_into_buf src_offset"), ("split source handling", "strbuf.c:insert_strview_into_buf strview_part_left_behind/shifted"), ("temporary build buffer", "strbuf.c:buffer_vcat tmp_buf_needed")],
  ["buffer contents after the operation", "accesses to released memory (poisoned old blocks)"])

p("C11", "Every buffer is always well formed and NUL terminated",
  "After creation and after every operation, successful or failed, a live buffer has 0 <= size <= capacity, a NUL byte right after its contents, and all of its contents and terminator inside the memory it owns and initialised. "
  "Every operation that returns a view of the buffer returns exactly its current contents, and no operation reads uninitialised or released memory or writes outside the buffer's own memory.",
  ["histories", "inputs"], "all operation histories, including failed operations, on dynamic and fixed buffers of every capacity from 0 up",
  "the tests mostly compare contents as C strings at points chosen by the author; the invariants must hold after each step of every history, including overflow and exact-fit steps",
  ["strbuf.c", "strbuf.h"],
  [("terminator writes", "strbuf.c: every mutator writes cstr[size]=0"), ("empty on failure", "strbuf.c:empty_buf"), ("+1 byte allocation", "strbuf.c:create_buf, change_buf_capacity")],
  ["strbuf_t fields and bytes after every call", "sanitizer reports"])

p("C12", "A fixed buffer never outgrows its memory and empties instead of truncating",
  "A buffer placed in caller memory has exactly the capacity its memory (or the declared capacity of a static or stack buffer) allows, and creation returns null for misaligned, missing or too small memory. "
  "An operation whose result does not fit leaves the buffer empty, never truncated or partially updated, and usable again; capacity never changes, no byte outside the supplied memory is ever written, and growing reports failure with an invalid view.",
  ["inputs", "histories"], "all memory sizes and alignments, all capacities, all operations with results one byte below, at and above capacity, all histories continuing after an overflow",
  "the tests use a few capacities; overflow by exactly one for each operation, at every capacity, followed by further use, is not covered and stray writes past the memory go unseen",
  ["strbuf.c", "strbuf.h"],
  [("capacity computation and checks", "strbuf.c:strbuf_create_fixed"), ("static initialisers", "strbuf.h:STRBUF_FIXED_CAP, STRBUF_STATIC_INIT"), ("fit tests", "strbuf.c:insert_strview_into_buf, append_char_to_buf, strbuf_assign, buffer_vcat, strbuf_append_vprintf")],
  ["buffer memory with canaries and guard pages", "strbuf_t fields"])

p("C13", "Memory is obtained and released through the right allocator exactly once",
  "Every allocator call made for a buffer passes the allocator function and app_data the buffer was created with and either no block or a live block from that allocator; every block handed out is released or handed over exactly once, and nothing remains after destroy. "
  "Fixed buffers never cause an allocator call, destroy always clears the caller's pointer, and converting to a C string clears it too and returns the exact contents plus NUL as one block releasable with the same allocator (or the in-place contents of a fixed buffer). "
  "Creation without any usable allocator or with an unrepresentable capacity returns null.",
  ["histories", "configurations"], "all operation histories over several buffers with different allocators and app_data, relocating and in-place allocators, default and explicit allocators",
  "the tests use the standard allocator without observing calls; leaks of temporaries, wrong app_data and double release only appear in particular histories",
  ["strbuf.c", "strbuf.h", "accessories/strbuf_crypt/strbuf_crypt.c"],
  [("allocator copy in the buffer", "strbuf.h:strbuf_t.allocator"), ("release", "strbuf.c:destroy_buf, strbuf_destroy"), ("hand over", "strbuf.c:strbuf_to_cstr"), ("temporary", "strbuf.c:buffer_vcat"), ("default allocator", "strbuf.c:strbuf_default_allocator")],
  ["event log of allocator calls", "set of live blocks at every step"])

p("C14", "Capacity follows the documented policy",
  "A created buffer has exactly the requested capacity (or that of its initial content); an operation that fits changes neither capacity nor the buffer's address; one that does not fit raises the capacity to the needed size rounded up to the next multiple of the configured grow step. "
  "Growing never reduces capacity and provides at least the requested amount while preserving contents, shrinking reduces capacity exactly to the current size, and nothing else ever reduces it.",
  ["histories", "configurations"], "all operation histories and size progressions, all grow-step settings, all initial capacities and grow requests (including negative and smaller ones)",
  "the tests check a few capacities at the default grow step; off-by-one at multiples of the step and needless reallocation are invisible to content checks",
  ["strbuf.c", "strbuf.h"],
  [("rounding", "strbuf.c:round_up_capacity, strbuf.h:STRBUF_CAPACITY_GROW_STEP"), ("resizing", "strbuf.c:change_buf_capacity"), ("grow/shrink", "strbuf.c:strbuf_grow, strbuf_shrink")],
  ["capacity field, buffer address and allocator sizes before/after each call"])

p("C15", "Formatted output is complete or the buffer is empty",
  "printf-style and prnf-style assignment and appending leave in the buffer exactly the text the underlying formatter produces for the same arguments (after the previous contents when appending), growing a dynamic buffer as needed. "
  "If the text does not fit a fixed buffer or the formatter reports an error, the buffer is left empty, valid and usable, never partially updated.",
  ["inputs", "histories", "fault_sequences"], "all formats, arguments and output lengths (including exactly at and one over capacity, embedded NUL from %c), all prior contents, formatter failures",
  "the tests print a few short strings; exact-fit output, failure returns and long output across several growth steps are unsampled",
  ["strbuf.c", "strbuf.h"],
  [("two-pass vsnprintf", "strbuf.c:strbuf_append_vprintf"), ("per-char sink", "strbuf.c:char_handler_for_prnf"), ("completeness test", "strbuf.c:strbuf_vprnf, strbuf_append_vprnf")],
  ["buffer contents versus an independent call of the same formatter"])

p("C16", "Sizes beyond INT_MAX are refused without corruption",
  "An edit, concatenation or formatted append whose result would exceed INT_MAX bytes leaves the buffer empty, well formed and usable and touches no memory outside it, in optimised and unoptimised builds alike. "
  "Requests just at the limit (capacity INT_MAX, rounding a capacity near INT_MAX, fixed memory larger than INT_MAX) are handled without arithmetic overflow and creation with a larger capacity returns null.",
  ["inputs", "configurations"], "all pairs of current size and added size(s) around INT_MAX, for every growing operation, number of concatenated views and build optimisation level",
  "the tests never use gigabyte views; the overflow check can be optimised away and only shows with huge arguments",
  ["strbuf.c"],
  [("overflow test", "strbuf.c:add_will_overflow_int"), ("size accumulation", "strbuf.c:buffer_vcat"), ("capped rounding", "strbuf.c:round_up_capacity"), ("capacity cap", "strbuf.c:strbuf_create_fixed, strbuf_create_empty")],
  ["buffer state, allocator requests and memory accesses around INT_MAX"])

p("C17", "Fetch-into-buffer offers exactly the free space and trusts nothing it returns",
  "Appending through a fetch callback calls it exactly once with the address just after the current contents, the exact free space (possibly 0) and the caller's argument; a result between 0 and that space appends exactly that many bytes and returns the contents. "
  "Any other result (negative or larger than the space) empties the buffer and returns an invalid view, leaving the buffer usable; a null buffer never calls the callback.",
  ["inputs", "fault_sequences"], "all buffer sizes/capacities, all int results of the callback including INT_MIN and INT_MAX, dynamic and fixed buffers, histories of good and bad fetches",
  "the tests use one well behaved and few faulty callbacks; the contract must hold for every return value and fill level",
  ["strbuf.c", "strbuf.h"],
  [("fetch call and result check", "strbuf.c:strbuf_append_using")],
  ["callback arguments", "buffer state and returned view"])

p("C18", "Integer parsing returns the exact mathematical value or the right error",
  "For every text and every integer destination type, parsing succeeds exactly when the text starts with a number the options allow and its mathematical value fits the type, and then stores exactly that value and removes exactly the consumed characters (as many digits as possible). "
  "A number too large or too small for the type gives ERANGE, and text without such a number (including an invalid view or a missing sign's digits) gives EINVAL; nothing ever wraps, saturates or is cut short.",
  ["inputs"], "all texts in decimal, hex and binary with any length and leading zeros, all values around every type limit, all ten integer types plus the fixed-width forms",
  "the tests parse the limits of some types in decimal; limits +/-1 for every type and base, long digit strings and trailing text multiply beyond samples",
  ["strnum.c", "strnum.h"],
  [("digit accumulation with overflow tests", "strnum.c:consume_decimal_digits, consume_hex_digits, consume_bin_digits"), ("range tests", "strnum.c:consume_signed, consume_unsigned"), ("type dispatch", "strnum.h:strnum_value")],
  ["return code, *dst, remaining source"])

p("C19", "Number syntax options accept and refuse exactly the documented forms",
  "Leading whitespace is skipped unless refused by option, a sign is accepted only for signed and floating destinations and not when refused, and 0x/0b prefixes (either case) select hex or binary unless refused, or excluded by the other base's option; a selected prefix without a digit of its base after it is EINVAL. "
  "The binary and hex options accept exactly the digits of that base, the exponent is left unconsumed when refused, and options never otherwise change the value or the characters consumed. Any byte may occur in the text: characters are classified only as values the C library defines (unsigned char).",
  ["inputs", "configurations"], "all 64 option combinations times all texts mixing spaces, signs, prefixes, digits of every base, exponents and junk (including bytes >= 0x80)",
  "the tests try single options on single texts; interactions between options, prefix letters that are also hex digits, and look-alike bytes are not enumerated",
  ["strnum.c", "strnum.h"],
  [("whitespace/sign", "strnum.c:consume_signed, consume_unsigned, consume_sign"), ("prefix", "strnum.c:consume_base_prefix"), ("digit classes", "strnum.c:isbdigit, xdigit_value"), ("exponent option", "strnum.c:process_float_components")],
  ["return code, value, remaining source for each option set"])

p("C20", "Floating point parsing is accurate, total and never invents NaN",
  "Parsing decimal text (digits with optional fraction, optional exponent, optional sign) into float, double or long double stores a value within a few units of relative rounding error of the true value whenever both the digits alone and the result are in the type's normal range, preserves the sign and consumes exactly the number. "
  "inf, infinity and nan in any case yield those values; numeric text never yields NaN or a silent infinity: zero with any representable exponent is zero and overflow is ERANGE; text without a number is EINVAL and an unusable exponent is left unconsumed.",
  ["inputs"], "all decimal texts of any digit count (short, and hundreds of digits before and after the point), all exponents, three types, all special words",
  "the tests compare a few constants; long digit strings, zero mantissas with huge exponents, overflow boundaries and error bounds need an independent oracle over many inputs",
  ["strnum.c", "strnum.h"],
  [("component scan", "strnum.c:process_float_components, consume_exponent, consume_float_special"), ("chunked conversion", "strnum.c:make_float_type")],
  ["return code, value versus correctly rounded strtof/strtod/strtold, remaining source"])

p("C21", "Failed conversions change nothing and default-value forms agree",
  "When a conversion reports an error neither the destination nor the source view is modified, and a null source view is EINVAL for every type; a null destination still validates and consumes. "
  "Each default-value function returns the value the consuming form would store when that form succeeds for the same type, text and options, and the supplied default (any value of the type) otherwise, and never alters the caller's view.",
  ["inputs"], "all destination types, all texts and options, all default values, null and invalid arguments",
  "the tests check error codes but not that destination and source are untouched, and exercise the default-value forms on few inputs",
  ["strnum.c", "strnum.h"],
  [("commit at the end", "strnum.c:consume_signed, consume_unsigned, strnum_consume_*"), ("wrappers", "strnum.c:strnum_i8 ... strnum_ldouble")],
  ["*dst and *src before/after", "wrapper return value"])

p("C22", "File descriptor transfer neither loses, duplicates nor invents bytes",
  "Appending from a descriptor reads exactly once, for exactly the buffer's free space (even when there is none), appends exactly the bytes received and returns the count, leaving the buffer unchanged on end of file or error; writing a buffer or a view writes exactly once, its whole contents (even when empty), removes exactly the bytes accepted from the front and returns the count, leaving it unchanged on error. "
  "Hence for every sequence of short transfers, interruptions, would-block results and errors, the bytes delivered followed by the bytes still held equal the bytes supplied, in order.",
  ["fault_sequences", "histories", "inputs"], "all contents and capacities, all schedules of full, short, zero, EINTR, EAGAIN and fatal read/write results, on pipes, sockets and files",
  "no test exercises the descriptor accessories at all; short and failed transfers have to be injected",
  ["accessories/strbuf_io.c", "accessories/strview_io.c"],
  [("read and append", "accessories/strbuf_io.c:strbuf_append_read"), ("write and remove", "accessories/strbuf_io.c:strbuf_write, accessories/strview_io.c:strview_write")],
  ["arguments and results of read()/write()", "buffer or view after each call", "conservation of the byte stream"])

p("C23", "Packed integers have the stated byte order and round-trip",
  "Packing an integer of any width and signedness (the stdint types and the primitive types) appends exactly sizeof(value) bytes in little or big endian order after the existing contents, and unpacking from a view that holds enough bytes returns the same value and removes exactly those bytes, for any mix of widths and orders and at any alignment. "
  "The byte-swap conversions are their own inverse and leave 8-bit values unchanged.",
  ["inputs", "histories"], "all values of all integer types, all sequences of packs and matching unpacks, all alignments and buffer fill levels",
  "no test exercises packing; sign extension, width dispatch and alignment depend on values and sequence",
  ["accessories/strbuf_pack.h", "accessories/strview_unpack.h", "accessories/xendian.h"],
  [("pack macros", "accessories/strbuf_pack.h:STRBUF_PACK_LE, STRBUF_PACK_BE"), ("unpack macros", "accessories/strview_unpack.h:STRVIEW_UNPACK_LE, STRVIEW_UNPACK_BE"), ("swap", "accessories/xendian.h:xendian_swap16/32/64")],
  ["buffer bytes", "unpacked values", "remaining view"])

p("C24", "Encryption is standard AES-256-CBC with PKCS#7 padding and decrypts back",
  "For every key, initialisation vector and contents, encrypting a dynamic buffer or a fixed buffer with room for the padding leaves exactly the AES-256-CBC PKCS#7 ciphertext of the contents (length rounded up to the next multiple of 16, always adding 1 to 16 bytes) and returns a view of it; decrypting it with the same key and vector restores the contents exactly and returns a view of them. "
  "Key and vector are not modified, the buffer stays NUL terminated, and a fixed buffer without room for the padding is never overrun.",
  ["inputs"], "all keys, vectors, contents and lengths (every residue modulo 16, empty included), dynamic and fixed buffers of every capacity",
  "no test exercises encryption; conformance requires an independent implementation and all length residues",
  ["accessories/strbuf_crypt/strbuf_crypt.c", "accessories/strbuf_crypt/aes"],
  [("CBC and padding", "accessories/strbuf_crypt/strbuf_crypt.c:enc256cbc, dec256cbc"), ("sizing", "accessories/strbuf_crypt/strbuf_crypt.c:cypher_size, strbuf_crypt"), ("block cipher", "accessories/strbuf_crypt/aes/*.c")],
  ["buffer bytes versus a reference AES-256-CBC", "returned view", "allocator log"])

p("C25", "Decrypting corrupt or foreign data is memory safe and well defined",
  "Decrypting any contents (any length, wrong key, corrupted bytes, invalid padding) never reads or writes outside the buffer and always leaves a well-formed buffer no longer than before; a length that is zero or not a multiple of 16, or invalid padding, empties the buffer and returns an invalid view. "
  "If the padding is valid, the result is the CBC decryption without the padding.",
  ["inputs", "fault_sequences"], "all ciphertext bytes and lengths including 0 and non-multiples of 16, all padding byte values, dynamic and fixed buffers",
  "no test exercises decryption; padding errors need specific plaintext tails",
  ["accessories/strbuf_crypt/strbuf_crypt.c"],
  [("padding removal", "accessories/strbuf_crypt/strbuf_crypt.c:dec256cbc")],
  ["buffer fields, bytes and memory accesses after decrypt"])

p("C26", "Distinct buffers and shared constant views are independent across threads",
  "Threads that each operate on their own buffers and views, or concurrently read the same text through their own views, never race on memory and obtain the same results as when run alone, for every part of the library (views, buffers, formatting, number parsing, descriptor transfer, packing, encryption).",
  ["schedules", "histories"], "all interleavings of threads running arbitrary operation sequences on disjoint buffers and shared read-only text",
  "the test program is single threaded; hidden static state would only show under concurrency",
  ["strview.c", "strbuf.c", "strnum.c", "accessories"],
  [("no mutable global state", "strview.c, strbuf.c, strnum.c, accessories/strbuf_crypt/strbuf_crypt.c"), ("read-only default allocator", "strbuf.c:strbuf_default_allocator")],
  ["thread sanitizer reports", "per-thread results versus single-threaded reference"])

p("C27", "Behaviour does not depend on compiler, optimisation, or unrelated build options",
  "Every supported build configuration (each combination of the documented build options, any grow step, default, overridden or absent default allocator, signed or unsigned plain char) compiles, with each public header usable on its own and as documented (its function-like macros evaluate each argument once), and provides everything its options promise. "
  "For the same operations all of them give the same results on every compiler and optimisation level, except for the documented differences in capacity growth and the availability of optional functions.",
  ["configurations", "inputs"], "all combinations of documented build options, gcc and clang, -O0 to -O3, char signedness, times arbitrary operation transcripts",
  "the tests build exactly one configuration; options such as integer-only number parsing or a custom grow step are never compiled",
  ["strview.c", "strview.h", "strbuf.c", "strbuf.h", "strnum.c", "strnum.h", "accessories"],
  [("build options", "strbuf.h:STRBUF_CAPACITY_GROW_STEP, STRBUF_PROVIDE_*, STRBUF_DEFAULT_ALLOCATOR_STDLIB"), ("integer-only mode", "strnum.h:STRNUM_NOFLOAT"), ("weak default allocator", "strbuf.c:strbuf_default_allocator")],
  ["compile results", "hash-chained transcripts of all observable results per configuration"])

p("C28", "A failed allocation caught by the allocator leaves buffers usable",
  "The documentation leaves catching a failed allocation to the allocator, whose only way is not to return, for instance longjmp to a recovery point. Whichever request for memory of whichever creating, growing or editing operation fails so, the buffer variable still refers to a live, well-formed buffer with its former contents (replacing operations may have emptied it, prnf may have written the first part of its output), other buffers are unaffected, and the operation works when tried again. "
  "No block is lost but, at most, one temporary copy of the text being put in (strbuf_to_cstr, which turns the buffer into something else, is not meant).",
  ["fault_sequences", "histories", "inputs"], "all operations on dynamic buffers that request memory, every request of each failing, in every state of the buffer",
  "no test has an allocator that fails; what matters is the state at the moment of every single request",
  ["strbuf.c", "accessories/strbuf_crypt/strbuf_crypt.c"],
  [("buffer variable updated as the block moves", "strbuf.c:change_buf_capacity, strbuf_append_vprintf, strbuf_append_vprnf, char_handler_for_prnf, buffer_vcat"), ("cipher context", "accessories/strbuf_crypt/strbuf_crypt.c:strbuf_crypt"), ("growth before modification", "strbuf.c:insert_strview_into_buf, append_char_to_buf, strbuf_assign")],
  ["buffer variable, block and contents after each failed request", "other buffer", "live blocks", "result of the retried operation"])

p("C29", "The library may be used from within its callbacks on other buffers",
  "The allocator and the fetching function given to strbuf_append_using are user code which runs in the middle of an operation, as is anything a cooperative scheduler runs while read or write waits. Such code may use any function of the library on other buffers and views, to any depth and in any order, including operations that stay suspended while others complete: every operation gives the results, contents and block ownership it has when nothing interrupts it. No operation keeps state outside its arguments, its buffer and its own stack frame (not even per thread).",
  ["schedules", "histories", "inputs"], "all interleavings, at every callback, of operations on distinct buffers within one thread",
  "tests use trivial callbacks, so an operation never starts while another is under way in the same thread",
  ["strbuf.c", "strview.c", "strnum.c", "accessories"],
  [("callbacks under way", "strbuf.c:change_buf_capacity, create_buf, strbuf_append_using"), ("formatter call-back state", "strbuf.c:strbuf_append_vprnf, char_handler_for_prnf"), ("temporary build buffer", "strbuf.c:buffer_vcat"), ("cipher context from the allocator", "accessories/strbuf_crypt/strbuf_crypt.c:strbuf_crypt"), ("descriptor loops", "accessories/strbuf_io.c, accessories/strview_io.c")],
  ["digest of every operation against the undisturbed run", "live blocks per program", "places of suspension"])

p("C30", "Composed operations bring data through the library unchanged",
  "Data put together with any of the buffer functions, sent through descriptors that take and deliver it in arbitrary pieces, and taken apart again with the view functions comes out as it went in: lines under every mixture of terminators with the remainder kept in the buffer between reads; quoted delimited fields split from either end; numbers printed and read back (integers exactly, floating point to the accuracy of the type); records packed, encrypted, framed by a printed length, received, decrypted and unpacked; "
  "placeholders found, split at the position found and replaced, markers put in at found positions and stripped; words joined, split and reversed. Order, equality and search agree with each other, and searching without case equals searching text folded to one case.",
  ["inputs", "histories", "fault_sequences"], "all data, all ways of building it, all partial transfers, in dynamic buffers and fixed buffers with room enough",
  "the tests call one function at a time on its own literals; no test passes what one module produced to another, or a stream's remainder back into the buffer",
  ["strview.c", "strbuf.c", "strnum.c", "accessories"],
  [("stream idiom: split lines, assign the remainder", "strview.c:strview_split_line, strbuf.c:strbuf_assign, accessories/strbuf_io.c"), ("positions handed from views to buffers", "strview.c:strview_find_first, strview_split_left, strview_split_right; strbuf.c:strbuf_insert_before, strbuf_insert_after"), ("formatting against parsing", "strbuf.c:strbuf_append_vprintf, strnum.c"), ("records", "accessories/strbuf_pack.h, strview_unpack.h, accessories/strbuf_crypt/strbuf_crypt.c")],
  ["data received against data sent", "results of related operations against each other", "shape of every buffer", "live blocks"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
