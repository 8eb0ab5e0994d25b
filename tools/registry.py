"""What each check builds and runs."""
_SAN = ["-g", "-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow,nonnull-attribute",
        "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
_CSAN = ["-g", "-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow,nonnull-attribute",
         "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
VARIANTS = {
    # data in exact-size heap blocks, every access checked
    "asan": dict(cc="gcc", flags=["-O1"] + _SAN),
    "asan0": dict(cc="gcc", flags=["-O0"] + _SAN),
    "casan": dict(cc="clang", flags=["-O2"] + _CSAN),
    # production-like code, data against PROT_NONE pages, sources sometimes read-only
    "guard": dict(cc="gcc", flags=["-O2"]),
    "guard3": dict(cc="gcc", flags=["-O3", "-march=native"]),
    "cguard": dict(cc="clang", flags=["-O3"]),
    "guarduc": dict(cc="gcc", flags=["-O2", "-funsigned-char"]),
    # coverage-guided choices (harness/guided.h) over production-like code
    "guided": dict(cc="clang", flags=["-O2", "-g"], guided=True),
    "guidedsan": dict(cc="clang", flags=["-O1"] + _CSAN, guided=True),
    "guard0": dict(cc="gcc", flags=["-O0"]),
    # every branch on, or output of, an uninitialised byte is reported
    "msan": dict(cc="clang", flags=["-O1", "-g", "-fsanitize=memory", "-fno-omit-frame-pointer"]),
    # every unordered conflicting access between threads is reported
    "tsan": dict(cc="gcc", flags=["-O1", "-g", "-fsanitize=thread"]),
    "tsan0": dict(cc="gcc", flags=["-O0", "-g", "-fsanitize=thread"]),
    "ctsan": dict(cc="clang", flags=["-O2", "-g", "-fsanitize=thread"]),
}


CRYPT = dict(src=["strbuf.c", "strview.c", "accessories/strbuf_crypt/strbuf_crypt.c"] +
             ["accessories/strbuf_crypt/aes/" + f + ".c" for f in ("aes256_dec", "aes256_enc", "aes_dec", "aes_enc", "aes_invsbox", "aes_keyschedule", "aes_sbox", "gf256mul", "memxor")],
             inc=["accessories/strbuf_crypt"])

def view(rule, q, t, **kw):
    d = dict(harness=["h_view.c"], src=["strview.c"], rule=rule,
             quick=[("asan", 3 * q), ("guard", 6 * q), ("msan", 3 * q // 2), ("guarduc", 3 * q // 2), ("guided", 200000)],
             thorough=[("asan", t), ("casan", t), ("guard", 3 * t), ("guard3", 3 * t), ("cguard", 3 * t), ("guarduc", 2 * t), ("guard0", t), ("msan", t), ("guided", 6000000), ("guidedsan", 2000000)])
    d.update(kw)
    return d


def buf(rule, q, t, must, **kw):
    d = dict(harness=["h_buf.c"], src=["test/prnf.c", "accessories/strbuf_io.c"] + CRYPT["src"], inc=CRYPT["inc"], rule=rule,
             flags=["-DSTRBUF_PROVIDE_PRINTF", "-DSTRBUF_PROVIDE_PRNF"],
             vflags={"guard": ["-DSTRBUF_CAPACITY_GROW_STEP=7"], "msan": ["-DSTRBUF_CAPACITY_GROW_STEP=1"], "guard3": ["-DSTRBUF_CAPACITY_GROW_STEP=64"],
                     "cguard": ["-DSTRBUF_CAPACITY_GROW_STEP=1000"], "guard0": ["-DSTRBUF_CAPACITY_GROW_STEP=33"], "casan": ["-DSTRBUF_CAPACITY_GROW_STEP=5"],
                     "guarduc": ["-DSTRBUF_CAPACITY_GROW_STEP=40000"]},
             quick=[("asan", 2 * q), ("guard", 4 * q), ("msan", q), ("guarduc", q), ("guided", 80000)],
             thorough=[("asan", t), ("casan", t), ("guard", 2 * t), ("guard3", 2 * t), ("cguard", 2 * t), ("guarduc", t), ("guard0", t), ("msan", t), ("guided", 3000000), ("guidedsan", 500000)],
             must_see=must)
    d.update(kw)
    return d


def small(h, rule, q, t, must, g=200000, **kw):
    d = dict(harness=[h], src=["strbuf.c", "strview.c"], rule=rule,
             quick=[("asan", 3 * q), ("guard", 6 * q), ("msan", 3 * q // 2), ("guarduc", 3 * q // 2), ("guided", g)],
             thorough=[("asan", t), ("casan", t), ("guard", 2 * t), ("guard3", 2 * t), ("cguard", 2 * t), ("guarduc", t), ("guard0", t), ("msan", t), ("guided", 25 * g), ("guidedsan", 8 * g)],
             must_see=must)
    d.update(kw)
    return d


def num(rule, q, t, must, libs=(), **kw):
    return small("h_num.c", rule, q, t, must, src=["strnum.c", "strview.c"], libs=["-lm"] + list(libs), **kw)


# the classification functions of <ctype.h> as real calls, each checked for its argument
_CT = ["isalnum", "isalpha", "isblank", "iscntrl", "isdigit", "isgraph", "islower", "isprint", "ispunct", "isspace", "isupper", "isxdigit", "tolower", "toupper"]
CTYPE = dict(flags=["-D__NO_CTYPE", "-DWATCH_CTYPE"] + ["-fno-builtin-" + f for f in _CT], libs=["-Wl," + ",".join("--wrap=" + f for f in _CT)])


PROPS = {
    "C01": view("chains of 12 random view operations over a pool of views of one text placed against unreadable memory; non-trivial: non-empty text; identity: text + operation sequence", 60000, 6000000,
                must_see=["sub", "split_index", "split_first_delim", "split_last_delim", "split_left", "split_right", "split_line", "trim", "find_first", "find_last", "dequote", "split_all"]),
    "C02": view("haystack/needle pairs, all over a 3-letter alphabet up to 5/3 plus random (planted, overlapping, aliased, one-byte-off); non-trivial: both valid, 0 < needle <= haystack; identity: both texts", 120000, 12000000,
                must_see=["enumerated", "multi-match", "single-match", "no-match", "large-view"]),
    "C03": view("text x delimiter set x quote mode x direction; all texts over {a , \" ;} up to 5 plus random; non-trivial: at least 2 tokens; identity: all of these", 60000, 3000000,
                must_see=["enumerated", "delimiters-split", "set-of-200-or-more", "more-than-65536-pieces"]),
    "C04": view("text with 4 slices, 3 index splits, 3 position splits and pops each, indexes biased to the boundaries and to INT_MIN/INT_MAX; non-trivial: non-empty valid source; identity: text + indexes", 100000, 12000000,
                must_see=["sub-valid", "sub-outside", "pos-inside", "pos-outside", "pos-straddle"]),
    "C05": view("texts over {CR LF a} up to length 7 exhaustively plus random, each whole and cut into random pieces under both caller idioms; non-trivial: at least one line; identity: text", 60000, 4000000,
                must_see=["enumerated", "lines", "piecewise-lines", "large-view"]),
    "C06": view("pairs and triples of derived texts (equal, one bit off, case flipped, prefix, extension, aliased); non-trivial: valid and one not empty; identity: the texts", 80000, 8000000,
                must_see=["enumerated", "equal", "unequal", "prefix", "large-view"]),
    "C07": view("text x character set (from the text, random, aliased) and quoted texts; non-trivial: non-empty text; identity: text + set + quoted text", 120000, 12000000,
                must_see=["trimmed", "nothing-to-trim", "set-of-200-or-more", "multi-level-dequote", "dequoted", "not-quoted"]),
    "C08": view("views copied to destinations of every size around the length, C string and printf round trips; non-trivial: non-empty valid view; identity: text + sizes", 80000, 8000000,
                must_see=["truncated", "complete", "zero-size", "large-view"]),
    "C09": buf("histories of 10-60 operations on up to 3 buffers (dynamic with one of 4 allocators, fixed in guarded memory, static), lengths biased to the remaining room; every operation is judged;  non-trivial: more than 5 observations; identity: operation and argument-length sequence", 20000, 1500000, ["grown", "fitted", "stripped", "position-outside", "refused-creations", "cat-of-many"]),
    "C10": buf("histories of 10-60 operations on up to 3 buffers (dynamic with one of 4 allocators, fixed in guarded memory, static), lengths biased to the remaining room; every operation is judged;  arguments mostly views (or C strings) of the destination itself; non-trivial: more than 5 observations; identity: operation and argument-length sequence", 20000, 1500000, ["self-sourced", "grown", "created-fixed"]),
    "C11": buf("histories of 10-60 operations on up to 3 buffers (dynamic with one of 4 allocators, fixed in guarded memory, static), lengths biased to the remaining room; every operation is judged;  structure, memory ownership, terminator, initialisation and returned view are judged after each; identity: operation and argument-length sequence", 20000, 1500000, ["grown", "fixed-overflow", "self-sourced", "fetched-less-than-written", "encrypted-decrypted", "decrypted-damaged"]),
    "C12": buf("histories of 10-60 operations on up to 3 buffers (dynamic with one of 4 allocators, fixed in guarded memory, static), lengths biased to the remaining room; every operation is judged;  mostly fixed and static buffers, results around and beyond the capacity; identity: operation and argument-length sequence", 20000, 1500000, ["fixed-overflow", "created-fixed", "created-static", "created-local", "cat-of-many", "refused-creations"]),
    "C13": buf("histories of 10-60 operations on up to 3 buffers (dynamic with one of 4 allocators, fixed in guarded memory, static), lengths biased to the remaining room; every operation is judged;  the allocator records every call; identity: operation and argument-length sequence", 20000, 1500000, ["destroyed", "to_cstr", "refused-creations", "created-dynamic", "default-allocator", "no-default-allocator", "created-by-default-allocator", "encrypted-decrypted"]),
    "C14": buf("histories of 10-60 operations on up to 3 buffers (dynamic with one of 4 allocators, fixed in guarded memory, static), lengths biased to the remaining room; every operation is judged;  grow steps 1, 7, 16 and 40000 (thorough: also 5, 33, 64, 1000); identity: operation and argument-length sequence", 20000, 1500000, ["grown", "fitted", "shrunk", "grown-on-request"]),
    "C15": small("h_fmt.c", "1-6 formatted assignments/appends per buffer, texts sized around the remaining room, formats from 11 families, formatter made to fail on either pass; identity: the outputs produced", 90000, 2000000,
                 ["printf-complete", "prnf-complete", "exact-fit-fixed", "fixed-overflow", "formatter-failed-first-pass", "formatter-refused", "long-prnf", "embedded-NUL"],
                 src=["strbuf.c", "strview.c", "test/prnf.c"], inc=["test"], flags=["-DSTRBUF_PROVIDE_PRINTF", "-DSTRBUF_PROVIDE_PRNF", "-U_FORTIFY_SOURCE"], libs=["-Wl,--wrap=vsnprintf"]),
    "C16": small("h_huge.c", "buffers of up to INT_MAX bytes in lazily committed memory and one growing operation around the limit (sums of cat wrap to small values); some real 2 GiB copies; identity: sizes + operation", 0, 0,
                 ["refused-dynamic", "refused-fixed", "succeeded-at-limit", "exactly-INT_MAX", "sum-wraps-small", "memory-beyond-INT_MAX", "refused-capacity", "real-copies", "grown-to-limit", "ordinary-afterwards"],
                 src=["strbuf.c", "strview.c", "test/prnf.c"], inc=["test"], flags=["-DSTRBUF_PROVIDE_PRINTF", "-DSTRBUF_PROVIDE_PRNF"], args=["cpu=120"], parallel=6,
                 vflags={"guard3": ["-DSTRBUF_CAPACITY_GROW_STEP=64"], "guard": ["-DSTRBUF_CAPACITY_GROW_STEP=1000"], "guard0": ["-DSTRBUF_CAPACITY_GROW_STEP=7"]},
                 quick=[("asan", 3500), ("guard", 3500), ("guard0", 3500), ("cguard", 3500)],
                 thorough=[(v, 100000) for v in ("asan", "casan", "asan0", "guard", "guard0", "guard3", "cguard", "guarduc", "msan")]),
    "C17": small("h_fetch.c", "1-8 fetches per buffer with results 0..space, space+1, negative, INT_MIN, INT_MAX, callbacks writing into the offered space; identity: sizes and results", 400000, 10000000,
                 ["filled", "no-space", "part", "nothing-fetched", "negative-result", "too-large-result", "null-buffer", "huge-fetched", "huge-refused"]),
    "C18": num("numbers around the limits of every type, powers of two/ten and staged-accumulation switch points, in 3 bases with leading zeros, signs and trailing junk, each parsed into all 18 integer forms; non-trivial: non-empty; identity: text + options", 500000, 6000000,
               ["out-of-range", "no-number", "at-limit", "in-range", "prefixed"]),
    "C19": num("every text up to 3 characters over 17 that matter (thorough: 4) and random combinations of syntax pieces, each under all 64 option sets, into int, unsigned and double; non-trivial: non-empty; identity: text", 50000, 600000,
               ["enumerated", "no-number", "in-range", "prefixed", "out-of-range"], **CTYPE),
    "C20": num("digit strings of 0-5200 digits around the point with exponents near every threshold and special words, into 3 types; oracle: correctly rounded strtold; non-trivial: non-empty; identity: text + options", 250000, 6000000,
               ["exact", "more-than-20-digits", "overflow", "underflow", "zero-with-exponent", "infinity", "nan", "no-number", "exponent-beyond-int"]),
    "C21": num("every text up to 3 characters over 17 that matter and random numbers, 4 option sets, all 18 integer and 3 floating forms, with and without destination/source, random defaults; non-trivial: non-empty; identity: text + options", 50000, 1000000,
               ["enumerated", "succeeded", "failed-EINVAL", "failed-ERANGE"]),
    "C22": small("h_io.c", "histories of 5-200 reads, writes, grows and shrinks on one buffer (or a view written piecewise), every read()/write() intercepted and answered with full, short, zero, EINTR, EAGAIN or fatal results, or passed to real pipes, sockets and files; identity: size deltas", 30000, 1000000,
                 ["EINTR", "EAGAIN", "fatal-error", "zero", "transferred", "short-read", "filled", "short-write", "emptied", "pipes", "sockets", "files", "end-of-file", "view-histories", "real-histories", "scheduled-histories", "huge-views", "huge-buffers"],
                 src=["strbuf.c", "strview.c", "accessories/strbuf_io.c", "accessories/strview_io.c"], libs=["-Wl,--wrap=read,--wrap=write"], g=50000),
    "C23": small("h_pack.c", "1-60 integers of 16 types in both orders appended after random contents and unpacked from the buffer or a read-only copy at any alignment; non-trivial: more than 10 observations; identity: types, orders and values", 200000, 5000000,
                 ["round-trips", "unpacked-from-copy", "unaligned", "fixed-overflow", "int8_t", "uint64_t", "char", "unsigned long long"]),
    "C24": small("h_crypt.c", "contents of every length residue with random and structured keys and vectors (in exact-size read-only memory) in dynamic and exactly sized fixed buffers, encrypted and decrypted against a reference proven on FIPS-197 and SP 800-38A vectors; identity: contents, key, vector", 24000, 500000,
                 ["no-room", "beyond-INT_MAX", "full-padding-block", "padded", "twice", "other-buffer", "round-trip-dynamic", "round-trip-fixed", "64-KiB-or-more", "beyond-INT_MAX-dynamic"], g=60000, **CRYPT),
    "C25": small("h_crypt.c", "every value of the last plaintext byte x 0-17 matching bytes before it, then random, nearly valid and damaged ciphertexts of any length, judged by a reference decryption; identity: ciphertext, key, vector", 24000, 500000,
                 ["enumerated-padding", "random-bytes", "chosen-padding", "damaged", "empty", "partial-block", "invalid-padding", "empty-plaintext", "valid", "64-KiB-or-more"], g=50000, **CRYPT),
    "C26": dict(technique="runtime monitoring: thread sanitizer race detection plus per-operation result digests compared with a single-threaded run, under injected delays", harness=["h_thread.c"], src=["strbuf.c", "strview.c", "strnum.c", "test/prnf.c", "accessories/strbuf_io.c", "accessories/strview_io.c"] + CRYPT["src"][2:], inc=["test", "accessories/strbuf_crypt"],
                rule="2-8 threads, each a program of 20-80 operations from 29 kinds over all modules on its own buffers and shared read-only text, from a barrier with 4 styles of random delay; every digest is compared with the same program run alone (before or after); non-trivial: more switches between threads than threads; identity: global order in which the operations started",
                flags=["-DSTRBUF_PROVIDE_PRINTF", "-DSTRBUF_PROVIDE_PRNF", "-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB"], libs=["-lm", "-lpthread"],
                quick=[("tsan", 2000), ("ctsan", 2000), ("asan", 2000), ("guard", 6000)],
                thorough=[("tsan", 100000), ("ctsan", 100000), ("tsan0", 40000), ("asan", 50000), ("guard", 300000), ("cguard", 200000), ("guard0", 100000)],
                must_see=["interleaved", "operation-switches", "find", "split", "printf", "prnf", "integers", "floats", "descriptors", "pack", "crypt", "self-sourced", "append_using"],
                assume=["the C library's own functions (printf, malloc, read, write) are thread safe", "the race detector sees the accesses of the executions that happened; unexecuted code is not judged"]),
    "C28": small("h_fail.c", "4-20 operations of 20 kinds on two dynamic buffers, the first, second or a later request for memory of most of them failing by longjmp out of the allocator; buffer variable, block, contents, other buffer and live blocks judged after each failure, then the operation is tried again and compared with a buffer that saw none; non-trivial: at least one failure; identity: operations, failing requests and sizes", 60000, 1500000,
                 ["contents-kept", "retried", "not-failed", "append", "insert_at_index", "append_char", "grow", "create_empty"],
                 src=CRYPT["src"] + ["test/prnf.c"], inc=CRYPT["inc"] + ["test"], flags=["-DSTRBUF_PROVIDE_PRINTF", "-DSTRBUF_PROVIDE_PRNF"]),
    "C29": small("h_coro.c", "2-5 programs of 10-50 operations from 31 kinds over all modules, as coroutines: each may be suspended in the allocator, in the fetching function, in read or write, or between operations, while others run any number of operations; every digest is compared with the same program run alone; non-trivial: a program was resumed at least twice while another was suspended within an operation; identity: sequence of suspensions", 6000, 250000,
                 ["in-allocator", "in-release", "in-fetcher", "in-read", "in-write", "one-suspended-to-the-end", "resumed-while-another-is-suspended-within-an-operation", "printf", "prnf", "floats", "crypt", "self-sourced"],
                 src=["strbuf.c", "strview.c", "strnum.c", "test/prnf.c", "accessories/strbuf_io.c", "accessories/strview_io.c"] + CRYPT["src"][2:], inc=CRYPT["inc"] + ["test"],
                 flags=["-DSTRBUF_PROVIDE_PRINTF", "-DSTRBUF_PROVIDE_PRNF", "-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB"], libs=["-lm", "-Wl,--wrap=read,--wrap=write"],
                 technique="runtime monitoring: coroutine schedules injected at every callback of the library, per-operation digests compared with an undisturbed run (offline), sanitizers and guard pages",
                 quick=[("asan", 6000), ("guard", 20000), ("guard0", 6000), ("cguard", 20000)],
                 thorough=[("asan", 100000), ("casan", 100000), ("guard", 400000), ("guard3", 300000), ("cguard", 300000), ("guarduc", 300000), ("guard0", 200000)]),
    "C30": small("h_flow.c", "one of six flows over several modules (lines and framed, encrypted messages through streams in arbitrary pieces, quoted tables, numbers, templates with found positions, words sorted, folded and reversed) with random data, in dynamic or exactly sized fixed buffers, every text added in one of nine ways; the result is compared with the original data; non-trivial: more than 3 observations; identity: flow, sizes, kinds, pieces", 15000, 300000,
                 ["lines-received", "quoted-fields", "plain-fields", "reals", "integers", "hexadecimal-and-binary", "messages", "placeholders", "placeholders-from-the-end", "markers", "searches", "flow-words"], g=60000,
                 src=["strbuf.c", "strview.c", "strnum.c", "accessories/strbuf_io.c", "accessories/strview_io.c"] + CRYPT["src"][2:], inc=CRYPT["inc"],
                 flags=["-DSTRBUF_PROVIDE_PRINTF"], libs=["-lm", "-Wl,--wrap=read,--wrap=write"],
                 technique="runtime monitoring: end-to-end conservation checked offline against the data that went in, over intercepted streams with injected short, interrupted and refused transfers, sanitizers and guard pages"),
    "C27": dict(custom="matrix", technique="runtime monitoring: hash-chained result transcripts of identical programs recorded from every build configuration and compared by an offline checker", rule="configurations: about 30 fixed (each option, grow steps 1 to 100000, both compilers, -O0..-O3 and -Os, NDEBUG, native instructions, char signedness, LTO, fortify) plus random combinations of all options; each performs the same programs of 100 operations and every operation's digest (contents, results, views; no addresses or capacities) is compared with the reference build; distinct: different digests in the reference transcript"),
}
