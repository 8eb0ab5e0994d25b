"""C27: the same operations in many build configurations.

Every configuration is built from the working tree, performs the same programs (harness/prog.h) and records a digest
of every operation's results; the monitor compares the digests of all configurations with those of the reference build.
Separately each public header is used alone, each option set must provide its functions, and the library must link with
exactly the dependencies its options need."""
import array, json, os, random, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AES = ["accessories/strbuf_crypt/aes/" + f + ".c" for f in
       ("aes256_dec", "aes256_enc", "aes_dec", "aes_enc", "aes_invsbox", "aes_keyschedule", "aes_sbox", "gf256mul", "memxor")]
CRYPT = ["accessories/strbuf_crypt/strbuf_crypt.c"] + AES
LIB = ["strview.c", "strbuf.c", "strnum.c", "accessories/strbuf_io.c", "accessories/strview_io.c"] + CRYPT
INC = ["", "accessories", "accessories/strbuf_crypt"]
REF = dict(cc="gcc", opt="-O1", std="gnu11", uchar=0, printf=1, prnf=1, alloc=1, asrt=0, nofloat=0, grow=0, extra=[])
# fused multiply-add rounds once where two operations round twice: the language allows it, the results are not comparable
NATIVE = ["-march=native", "-ffp-contract=off"]
STRICT = ["-Werror=implicit-function-declaration", "-Werror=int-conversion", "-Werror=incompatible-pointer-types"]

STRVIEW = """cstr strview_to_cstr strview_is_valid strview_contains strview_contains_nocase strview_is_match_strview strview_is_match_cstr
strview_is_match_nocase_strview strview_is_match_nocase_cstr strview_starts_with_cstr strview_starts_with_strview
strview_starts_with_nocase_cstr strview_starts_with_nocase_strview strview_compare strview_sub strview_trim_strview
strview_trim_start_strview strview_trim_end_strview strview_trim_cstr strview_trim_start_cstr strview_trim_end_cstr
strview_find_first_strview strview_find_first_nocase_strview strview_find_first_cstr strview_find_first_nocase_cstr
strview_find_last_strview strview_find_last_nocase_strview strview_find_last_cstr strview_find_last_nocase_cstr
strview_split_all strview_split_first_delim strview_split_last_delim strview_split_index strview_split_left strview_split_right
strview_pop_first_char strview_split_line strview_dequote""".split()
STRBUF = """strbuf_create_empty strbuf_create_init strbuf_create_fixed _strbuf_cat strbuf_vcat strbuf_append_char strbuf_view
strbuf_shrink strbuf_grow strbuf_destroy strbuf_to_cstr strbuf_assign strbuf_append_strview strbuf_append_cstr strbuf_append_using
strbuf_prepend_strview strbuf_prepend_cstr strbuf_insert_at_index_strview strbuf_insert_at_index_cstr
strbuf_insert_before_strview strbuf_insert_before_cstr strbuf_insert_after_strview strbuf_insert_after_cstr
strbuf_strip_strview strbuf_strip_cstr""".split()
PRINTF = "strbuf_printf strbuf_vprintf strbuf_append_printf strbuf_append_vprintf".split()
PRNF = "strbuf_prnf strbuf_vprnf strbuf_append_prnf strbuf_append_vprnf".split()
_I = "uchar ushort uint ulong ullong char short int long llong".split()
INTS = ["strnum_consume_" + t for t in _I] + ["strnum_" + t for t in _I + "i8 i16 i32 i64 u8 u16 u32 u64".split()]
FLOATS = ["strnum_" + c + t for c in ("consume_", "") for t in ("float", "double", "ldouble")]

# name: (headers, code, sources, libraries) -- each must compile with only these headers and link with only these sources
ALONE = {
    "strview.h": (["strview.h"], r'''strview_t v = cstr("a,b"), w = cstr_SL("x"); strview_t t = strview_split_first_delim(&v, ",", true); char eol = 0; strview_split_line(&w, &eol); w = cstr_SL("x");
        int sum = (int)strview_is_match(t, "a") + strview_is_match_nocase(t, w) + strview_starts_with(v, "b") + strview_starts_with_nocase(v, w) + strview_trim(v, " ").size
        + strview_trim_start(v, w).size + strview_trim_end(v, " ").size + strview_find_first(v, w).size + strview_find_first_nocase(v, "b").size + strview_find_last(v, w).size
        + strview_find_last_nocase(v, "b").size + strview_is_valid(STRVIEW_INVALID); return sum == 7 ? 0 : 1;''', ["strview.c"], []),
    "strbuf.h": (["strbuf.h"], r'''static strbuf_space_t(30) sp = STRBUF_STATIC_INIT(30); strbuf_t* s = (strbuf_t*)&sp; strbuf_t* f = STRBUF_FIXED_CAP(20); strbuf_t* d = strbuf_create(10, NULL), *e = strbuf_create((size_t)10, NULL), *g = strbuf_create(cstr("x"), NULL);
        strbuf_assign(&s, cstr("a")); strbuf_append(&f, "b"); strbuf_append(&f, cstr("b")); strbuf_prepend(&s, "c"); strbuf_prepend(&s, cstr("c")); strbuf_insert_at_index(&f, 0, "d"); strbuf_insert_at_index(&f, 0, cstr("d"));
        strbuf_insert_before(&f, strbuf_view(&f), "e"); strbuf_insert_before(&f, strbuf_view(&f), cstr("e")); strbuf_insert_after(&f, strbuf_view(&f), "f"); strbuf_insert_after(&f, strbuf_view(&f), cstr("f"));
        strbuf_strip(&f, "d"); strbuf_strip(&f, cstr("d")); strbuf_cat(&f, cstr("x"), cstr("y")); strbuf_cat(&f, cstr("x"));
        return f->size == 1 && s->size == 3 && !d && !e && !g && STRBUF_CAPACITY_GROW_STEP > 0 ? 0 : 1;''', ["strbuf.c", "strview.c"], []),
    "strbuf.h fixed buffers": (["strbuf.h"], r'''static strbuf_space_t(K ? 12 : 7) sp = STRBUF_STATIC_INIT(K ? 12 : 7); strbuf_t* s = (strbuf_t*)&sp; strbuf_t* f = STRBUF_FIXED_CAP(K ? 9 : 30); strbuf_t* g = STRBUF_FIXED_CAP(3 | 8);
        strbuf_t* all[5]; int caps[5] = {30, 12, 9, 11, 5}; all[0] = g_b; all[1] = s; all[2] = f; all[3] = g; all[4] = g_c;
        for(int i = 0; i < 5; i++) { if(all[i]->capacity != caps[i] || all[i]->size || all[i]->cstr[0]) return 10 + i; while(all[i]->size < caps[i]) strbuf_append_char(&all[i], 'x'); if(all[i]->size != caps[i] || all[i]->cstr[caps[i]]) return 20 + i; }
        for(int i = 0; i < 5; i++) for(int k = 0; k < caps[i]; k++) if(all[i]->cstr[k] != 'x') return 30 + i;
        strbuf_append_char(&f, 'y'); return f->size || g->size != 11;''', ["strbuf.c", "strview.c"], [], [], "enum { K = 1 }; static strbuf_t* g_b = STRBUF_FIXED_CAP(K ? 30 : 4); strbuf_t* g_c = STRBUF_FIXED_CAP(4 | 1);"),
    "macro arguments": (["strbuf.h", "strview.h", "strnum.h", "xendian.h"], r'''strview_t v = cstr("abab"), d = cstr("b"); const char* c = "b"; char m[] = "b"; const strview_t k = d; strview_t r, x; int n = 0, want = 0; int t = 0;
        #define E(x) (n++, (x))
        #define DONE(w) do { want += (w); if(n != want) return 100 + __LINE__ % 100; } while(0)
        t += strview_is_match(E(v), E(d)); t += strview_is_match(E(v), E(c)); t += strview_is_match_nocase(E(v), E(k)); t += strview_is_match_nocase(E(v), E(m)); DONE(8);
        t += strview_starts_with(E(v), E(d)); t += strview_starts_with(E(v), E(c)); t += strview_starts_with_nocase(E(v), E(d)); t += strview_starts_with_nocase(E(v), E(m)); DONE(8);
        r = strview_trim(E(v), E(d)); r = strview_trim(E(v), E(c)); r = strview_trim_start(E(v), E(d)); r = strview_trim_start(E(v), E(m)); r = strview_trim_end(E(v), E(d)); r = strview_trim_end(E(v), E(c)); DONE(12);
        r = strview_find_first(E(v), E(d)); r = strview_find_first(E(v), E(c)); r = strview_find_first_nocase(E(v), E(k)); r = strview_find_first_nocase(E(v), E(m)); DONE(8);
        r = strview_find_last(E(v), E(d)); r = strview_find_last(E(v), E(c)); r = strview_find_last_nocase(E(v), E(d)); r = strview_find_last_nocase(E(v), E(m)); DONE(8);
        strbuf_t* f = STRBUF_FIXED_CAP(200); strbuf_t** p = &f; strbuf_t* none = strbuf_create(E(10), E(NULL)); DONE(2); none = strbuf_create(E(v), E(NULL)); none = strbuf_create(E((size_t)3), E(NULL)); DONE(4);
        r = strbuf_append(E(p), E(c)); r = strbuf_append(E(p), E(d)); r = strbuf_append(E(p), E(m)); r = strbuf_prepend(E(p), E(c)); r = strbuf_prepend(E(p), E(k)); DONE(10);
        r = strbuf_insert_at_index(E(p), E(1), E(c)); r = strbuf_insert_at_index(E(p), E(1), E(d)); DONE(6);
        x = strbuf_view(&f); r = strbuf_insert_before(E(p), E(x), E(c)); r = strbuf_insert_before(E(p), E(x), E(d)); r = strbuf_insert_after(E(p), E(x), E(m)); r = strbuf_insert_after(E(p), E(x), E(d)); DONE(12);
        r = strbuf_strip(E(p), E(c)); r = strbuf_strip(E(p), E(d)); DONE(4);
        r = strbuf_cat(E(p), E(v)); r = strbuf_cat(E(p), E(v), E(d), E(v)); DONE(6);
        unsigned char uc; int i; double fl; strview_t s = cstr("1 2 3"); strview_t* q = &s; t += strnum_value(E(&uc), E(q), E(0)); t += strnum_value(E(&i), E(q), E(0)); t += strnum_value(E(&fl), E(q), E(0)); DONE(9);
        uint16_t u = xendian_SWAP(E((uint16_t)0x1234)); uint32_t w = xendian_pack_BE(E((uint32_t)1)); w = xendian_pack_LE(E(w)); w = xendian_unpack_LE(E(w)); w = xendian_unpack_BE(E(w)); DONE(5);
        return none || u != 0x3412 || w != 1 || f->size != 9 || uc != 1 || i != 2 || fl != 3;''', ["strbuf.c", "strview.c", "strnum.c"], ["-lm"]),
    "strnum.h": (["strnum.h"], r'''strview_t v = cstr("12"); unsigned char a; unsigned short b; unsigned c; unsigned long d; unsigned long long e; char f; short g; int h; long i; long long j; float k; double l; long double m; int r = 0;
        strview_t s = v; r |= strnum_value(&a, &s, 0); s = v; r |= strnum_value(&b, &s, 0); s = v; r |= strnum_value(&c, &s, 0); s = v; r |= strnum_value(&d, &s, 0); s = v; r |= strnum_value(&e, &s, 0); s = v; r |= strnum_value(&f, &s, 0); s = v; r |= strnum_value(&g, &s, 0);
        s = v; r |= strnum_value(&h, &s, 0); s = v; r |= strnum_value(&i, &s, 0); s = v; r |= strnum_value(&j, &s, 0); s = v; r |= strnum_value(&k, &s, 0); s = v; r |= strnum_value(&l, &s, 0); s = v; r |= strnum_value(&m, &s, STRNUM_NOBX | STRNUM_NOSIGN | STRNUM_NOSPACE | STRNUM_NOEXP | STRNUM_DEFAULT);
        return r || a != 12 || b != 12 || c != 12 || d != 12 || e != 12 || f != 12 || g != 12 || h != 12 || i != 12 || j != 12 || k != 12 || l != 12 || m != 12;''', ["strnum.c", "strview.c"], ["-lm"]),
    "strnum.h integers only": (["strnum.h"], r'''strview_t v = cstr("-12"); int a; long long b; short c; unsigned d = 3; strview_t s = v; int r = strnum_value(&a, &s, 0); s = v; r |= strnum_value(&b, &s, 0); s = v; r |= strnum_value(&c, &s, 0); s = v; if(!strnum_value(&d, &s, 0)) r = 1;
        return r || a != -12 || b != -12 || c != -12 || d != 3 || strnum_i32(cstr("0x10"), 0, STRNUM_BASE_HEX) != 16 || strnum_u8(cstr("0b11"), 0, STRNUM_BASE_BIN) != 3;''', ["strnum.c", "strview.c"], [], ["-DSTRNUM_NOFLOAT"]),
    "xendian.h": (["xendian.h"], r'''uint16_t a = 0x1234; int64_t b = -2; unsigned char c = 5; uint32_t d = xendian_pack_BE((uint32_t)1); return xendian_SWAP(xendian_SWAP(a)) != a || xendian_unpack_BE(xendian_pack_BE(b)) != b || xendian_unpack_LE(xendian_pack_LE(c)) != c || *(char*)&d != 0;''', [], []),
    "strbuf_pack.h": (["strbuf_pack.h"], r'''strbuf_t* f = STRBUF_FIXED_CAP(20); uint32_t x = 1; int16_t y = 2; STRBUF_PACK_LE(&f, x); STRBUF_PACK_BE(&f, y); return f->size != 6 || memcmp(f->cstr, "\1\0\0\0\0\2", 6);''', ["strbuf.c", "strview.c"], []),
    "strview_unpack.h": (["strview_unpack.h"], r'''strview_t v = cstr_SL("\1\0\0\0\0\2z"); uint32_t x; int16_t y; STRVIEW_UNPACK_LE(x, v); STRVIEW_UNPACK_BE(y, v); return x != 1 || y != 2 || v.size != 1;''', ["strview.c"], []),
    "strbuf_io.h": (["strbuf_io.h"], r'''strbuf_t* f = STRBUF_FIXED_CAP(20); return strbuf_append_read(&f, -1) != -1 || strbuf_write(-1, &f) > 0;''', ["accessories/strbuf_io.c", "strbuf.c", "strview.c"], []),
    "strview_io.h": (["strview_io.h"], r'''strview_t v = {0, 0}; return strview_write(-1, &v) > 0;''', ["accessories/strview_io.c", "strview.c"], []),
    "strbuf_crypt.h": (["strbuf_crypt.h"], r'''uint8_t key[32] = {1}, iv[16] = {2}; strbuf_t* f = STRBUF_FIXED_CAP(32); strbuf_append(&f, "hello"); strbuf_encrypt(&f, key, iv); if(f->size != 16) return 1; strbuf_decrypt(&f, key, iv); return f->size != 5;''', CRYPT + ["strbuf.c", "strview.c"], []),
}


def flags(c):
    f = ["-std=" + c["std"], c["opt"], "-w"] + (["-funsigned-char"] if c["uchar"] else ["-fsigned-char"]) + c["extra"]
    for k, d in (("printf", "-DSTRBUF_PROVIDE_PRINTF"), ("prnf", "-DSTRBUF_PROVIDE_PRNF"), ("asrt", "-DSTRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB"), ("nofloat", "-DSTRNUM_NOFLOAT")):
        if c[k]:
            f.append(d)
    if c["alloc"] == 1:
        f.append("-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB")
    if c["grow"]:
        f.append("-DSTRBUF_CAPACITY_GROW_STEP=%d" % c["grow"])
    return f


def describe(c):
    return " ".join([c["cc"]] + [x for x in flags(c) if x != "-w"] + ["default-allocator=" + ("none", "stdlib", "application")[c["alloc"]]])


def command(c, repo, harness, exe):
    inc = INC + (["test"] if c["prnf"] else [])
    return ([c["cc"]] + flags(c) + ["-DDEFAULT_ALLOC=%d" % c["alloc"]] + ["-I" + os.path.join(repo, i) for i in inc] + ["-I" + HERE + "/harness", os.path.join(HERE, "harness", harness)] +
            [os.path.join(repo, s) for s in LIB + (["test/prnf.c"] if c["prnf"] else [])] + ["-o", exe] + ([] if c["nofloat"] else ["-lm"]))


def configs(seed, n):
    """a fixed core (each option alone and all compilers/levels), then random combinations"""
    out = []
    for cc in ("gcc", "clang"):
        for opt in ("-O0", "-O2", "-O3"):
            out.append(dict(REF, cc=cc, opt=opt))
    out += [dict(REF, uchar=1, opt="-O2"), dict(REF, cc="clang", uchar=1), dict(REF, nofloat=1), dict(REF, std="gnu99"), dict(REF, cc="clang", std="gnu99", opt="-O2"), dict(REF, printf=0, prnf=0, alloc=0, nofloat=1), dict(REF, printf=1, prnf=0), dict(REF, printf=0, prnf=1, alloc=2),
            dict(REF, grow=1), dict(REF, grow=7, opt="-O2"), dict(REF, grow=1000), dict(REF, grow=4096), dict(REF, grow=64, opt="-O2"), dict(REF, grow=100000), dict(REF, cc="clang", grow=8), dict(REF, grow=255, opt="-O2"), dict(REF, asrt=1), dict(REF, asrt=1, extra=["-DNDEBUG"]), dict(REF, cc="clang", alloc=2, opt="-O3"), dict(REF, alloc=2, opt="-O2", extra=["-flto"]),
            dict(REF, opt="-O2", extra=["-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=3", "-fstack-protector-strong"]),
            dict(REF, opt="-Os"), dict(REF, cc="clang", opt="-Os"), dict(REF, opt="-O3", extra=NATIVE), dict(REF, extra=["-DNDEBUG"]), dict(REF, cc="clang", opt="-O3", extra=NATIVE + ["-DNDEBUG"])]
    r = random.Random(seed)
    while len(out) < n:
        cc = r.choice(["gcc", "clang"])
        c = dict(cc=cc, opt=r.choice(["-O0", "-O1", "-O2", "-O3", "-Os", "-Og"]), std=r.choice(["gnu99", "gnu11", "gnu17", "gnu2x"]), uchar=r.randrange(2), printf=r.randrange(2), prnf=r.randrange(2), alloc=r.randrange(3), asrt=r.randrange(2),
                 nofloat=r.randrange(4) == 0, grow=r.choice([0, 0, r.randrange(1, 40), 1 << r.randrange(1, 18), r.randrange(1, 1 << r.randrange(1, 20))]), extra=[])
        if c["opt"] not in ("-O0",) and r.randrange(4) == 0:
            c["extra"] += ["-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=%d" % r.choice([2, 3])]
        for x in ("-fno-strict-aliasing", "-fstack-protector-strong", "-DNDEBUG", "-fno-builtin", "-fPIC", "-ftrivial-auto-var-init=pattern"):
            if r.randrange(8) == 0:
                c["extra"].append(x)
        if r.randrange(8) == 0:
            c["extra"] += NATIVE
        if cc == "gcc" and r.randrange(10) == 0:
            c["extra"].append("-flto")
        out.append(c)
    return out


def sh(cmd, timeout=300, **kw):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return r.returncode, r.stdout.decode("latin-1"), r.stderr.decode("latin-1")
    except subprocess.TimeoutExpired:
        return 124, "", "timeout"


def alone(job):
    """one header used alone by one compiler: compiles, links with only what it needs, and works"""
    name, cc, std, repo, work, i = job
    heads, code, src, libs = ALONE[name][:4]
    extra = ALONE[name][4] if len(ALONE[name]) > 4 else []
    a, b, exe = [os.path.join(work, "alone%d%s" % (i, s)) for s in ("a.c", "b.c", "")]
    inc = "".join('#include "%s"\n' % h for h in heads) * 2
    open(a, "w").write(inc + (ALONE[name][5] if len(ALONE[name]) > 5 else "") + "int main(void)\n{\n" + code + "\n}\n")
    open(b, "w").write(inc + "int other(void) { return 0; }\n")
    cmd = [cc, "-std=" + std, "-O1", "-w"] + STRICT + extra + ["-I" + os.path.join(repo, x) for x in INC] + [a, b] + [os.path.join(repo, s) for s in src] + ["-o", exe] + libs
    rc, out, err = sh(cmd)
    if rc:
        return "header:" + name, "%s cannot be used on its own (%s %s): %s" % (name, cc, std, first_error(err)), cmd
    rc, out, err = sh([exe])
    if rc:
        return "header-works:" + name, "a program using only %s fails (%s %s): exit %d %s" % (name, cc, std, rc, err[-200:]), cmd
    return None


def first_error(err):
    for l in err.splitlines():
        if "error" in l or "undefined reference" in l:
            return l[-250:]
    return err[-250:]


def provides(job):
    """every function an option set promises exists"""
    c, repo, work, i = job
    names = STRVIEW + STRBUF + INTS + ([] if c["nofloat"] else FLOATS) + (PRINTF if c["printf"] else []) + (PRNF if c["prnf"] else []) + ["strbuf_append_read", "strbuf_write", "strview_write", "strbuf_encrypt", "strbuf_decrypt"]
    src = os.path.join(work, "prov%d.c" % i)
    order = ["strview.h", "strbuf.h", "strnum.h", "strbuf_io.h", "strview_io.h", "strbuf_crypt.h", "strbuf_pack.h", "strview_unpack.h", "xendian.h"]
    random.Random(i).shuffle(order)
    open(src, "w").write("".join('#include "%s"\n' % h for h in order) + "typedef void (*f_t)(void); volatile f_t f[] = {" + ", ".join("(f_t)" + n for n in names) + "};\nint main(void) { for(unsigned i = 0; i < sizeof f / sizeof *f; i++) if(!f[i]) return 1; return 0; }\n")
    exe = os.path.join(work, "prov%d" % i)
    cmd = command(c, repo, "h_matrix.c", exe)
    cmd = [x if not x.endswith("h_matrix.c") else src for x in cmd]
    rc, out, err = sh(cmd + STRICT)
    if rc:
        return "provides", "a build with %s does not provide its functions: %s" % (describe(c), first_error(err)), cmd
    rc, out, err = sh([exe])
    return ("provides", "a function is missing in " + describe(c), cmd) if rc else None


def asserts(job):
    cc, repo, work, i = job
    src, exe = os.path.join(work, "as%d.c" % i), os.path.join(work, "as%d" % i)
    open(src, "w").write('#include <limits.h>\n#include <sys/resource.h>\n#include "strbuf.h"\nint main(int c, char** v)\n{\nstruct rlimit r = {200u << 20, 200u << 20}; setrlimit(RLIMIT_AS, &r); struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z);\n'
                         'if(c > 1) { strbuf_t* b = strbuf_create(5, NULL); strbuf_grow(&b, INT_MAX); return 3; }\nstrbuf_t* b = strbuf_create((size_t)INT_MAX - 100, NULL); return b ? 3 : 4;\n}\n')
    cmd = [cc, "-std=gnu11", "-O1", "-w", "-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB", "-DSTRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB", "-I" + repo, src, repo + "/strbuf.c", repo + "/strview.c", "-o", exe]
    rc, out, err = sh(cmd)
    if rc:
        return "assert-builds", "STRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB does not build (%s): %s" % (cc, first_error(err)), cmd
    for args in ([], ["grow"]):
        rc, out, err = sh([exe] + args)
        if rc != -signal.SIGABRT:
            return "assert", "a failed %s was not caught by the assertion STRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB promises (%s, exit %d)" % ("realloc" if args else "malloc", cc, rc), cmd
    return None


def runtime_capacity(job):
    """strbuf.h: the capacity given to STRBUF_FIXED_CAP within a function may be determined at run time"""
    cc, repo, work, i = job
    src, exe = os.path.join(work, "rt%d.c" % i), os.path.join(work, "rt%d" % i)
    open(src, "w").write('#include "strbuf.h"\nint main(int c, char** v)\n{\n(void)v; int n = c + 10; strbuf_t* b = STRBUF_FIXED_CAP(n);\nfor(int i = 0; i < n; i++) strbuf_append_char(&b, 120);\nreturn b->capacity != 11 || b->size != 11 || b->cstr[11];\n}\n')
    cmd = [cc, "-std=gnu11", "-O1", "-w", "-I" + repo, src, repo + "/strbuf.c", repo + "/strview.c", "-o", exe]
    rc, out, err = sh(cmd)
    if rc:
        return "runtime-capacity", "STRBUF_FIXED_CAP does not compile with a capacity determined at run time, which strbuf.h offers (%s): %s" % (cc, first_error(err)), cmd
    rc, out, err = sh([exe])
    return ("runtime-capacity-works", "STRBUF_FIXED_CAP with a capacity determined at run time: exit %d (%s)" % (rc, cc), cmd) if rc else None


def transcript(c, repo, work, i, seed, n, ops):
    exe = os.path.join(work, "cfg%d" % i)
    cmd = command(c, repo, "h_matrix.c", exe)
    rc, out, err = sh(cmd)
    if rc:
        return dict(c=c, exe=None, bad=("builds", "the configuration does not build: %s: %s" % (describe(c), first_error(err))), cmd=cmd)
    o = exe + ".out"
    rc, out, err = sh([exe, "out=" + o, "seed=%d" % seed, "n=%d" % n, "ops=%d" % ops], 600)
    if rc == 1 and "FAIL" in out:
        return dict(c=c, exe=exe, bad=("default-allocator", "%s: %s" % (describe(c), out.strip())), cmd=cmd)
    if rc:
        return dict(c=c, exe=exe, bad=("crash", "%s: exit %d %s" % (describe(c), rc, (out + err)[-300:])), cmd=cmd)
    d = array.array("Q")
    d.frombytes(open(o, "rb").read())
    os.unlink(o)
    if c is not None and i:
        os.rename(exe, exe + ".keep")
    return dict(c=c, exe=exe + (".keep" if i else ""), bad=None, data=d, cmd=cmd)


def opname(exe, seed, prog, op, ops):
    rc, out, err = sh([exe, "seed=%d" % seed, "from=%d" % prog, "n=1", "ops=%d" % ops, "log=1"])
    for l in out.splitlines():
        if l.startswith("%d:" % op):
            return l
    return ""


def execute(a, work, cfgs, seed, n, ops, nproc, only=None):
    """returns (violations, stats)"""
    repo, bad = a.repo, []
    st = dict(configurations=0, digests=0, compared=0, absent=0, headers=0, option_sets=0, asserts=0, described=[])
    with ThreadPoolExecutor(nproc) as ex:
        fa = []
        if not only:
            names = [(nm, cc, std) for nm in ALONE for cc in ("gcc", "clang") for std in ("gnu99", "gnu11", "gnu2x")]
            fa = [ex.submit(alone, (nm, cc, std, repo, work, i)) for i, (nm, cc, std) in enumerate(names)]
            prov = [dict(REF, cc=cc, printf=p, prnf=q, alloc=al, nofloat=nf) for cc in ("gcc", "clang") for p in (0, 1) for q in (0, 1) for al in (0, 1) for nf in (0, 1)]
            if a.tier == "quick":
                prov = [c for k, c in enumerate(prov) if (c["cc"] == "gcc") == (k % 2 == 0) or (k // 2) % 3 == 0]
            fp = [ex.submit(provides, (c, repo, work, i)) for i, c in enumerate(prov)]
            fr = [ex.submit(runtime_capacity, (cc, repo, work, i)) for i, cc in enumerate(("gcc", "clang"))]
            fs = [ex.submit(asserts, (cc, repo, work, i)) for i, cc in enumerate(("gcc", "clang"))]
            st["headers"], st["option_sets"], st["asserts"] = len(fa), len(fp), len(fs)
            fa = fa + fp + fs + fr
        ft = [ex.submit(transcript, c, repo, work, i, seed, n, ops) for i, c in enumerate([REF] + cfgs)]
        for f in fa:
            r = f.result()
            if r:
                bad.append(dict(key="C27:" + r[0], message=r[1], command=" ".join(r[2])))
        res = [f.result() for f in ft]
    ref = res[0]
    for r in res:
        st["configurations"] += 1
        if r["bad"]:
            bad.append(dict(key="C27:" + r["bad"][0], message=r["bad"][1], command=" ".join(r["cmd"]), config=r["c"], kind="config"))
    if ref["bad"]:
        return bad, st
    rd = ref["data"]
    st["distinct_digests"] = len(set(rd))
    st["digests"] = len(rd)
    for r in res[1:]:
        if r["bad"]:
            continue
        d = r["data"]
        if len(d) != len(rd):
            bad.append(dict(key="C27:transcript", message="%s performed %d operations instead of %d" % (describe(r["c"]), len(d), len(rd)), config=r["c"], kind="config"))
            continue
        st["compared"] += len(d) - d.count(0)
        st["absent"] += d.count(0)
        if len(st["described"]) < 1000:
            st["described"].append(describe(r["c"]))
        if d.tobytes() == rd.tobytes():
            continue
        for i in range(len(d)):
            if d[i] and rd[i] and d[i] != rd[i]:
                p, k = divmod(i, ops)
                l1, l2 = opname(ref["exe"], seed, p, k, ops), opname(r["exe"], seed, p, k, ops)
                name = l1.rsplit(" = ", 1)[-1].rsplit(" ", 1)[0] if " = " in l1 else "?"
                bad.append(dict(key="C27:differs:" + name.replace(" ", "-"), message="operation %d of program %d (%s) gives a different result with %s than with %s" % (k, p, name, describe(r["c"]), describe(REF)),
                                config=r["c"], kind="config", program=p, operation=k, reference=l1[:1500], observed=l2[:1500]))
                break
    return bad, st


def run(a, p, work, t0):
    import check as C
    quick = a.tier == "quick"
    nc, n, ops = (40, 300, 100) if quick else (700, 3000, 100)
    nc = max(int(nc * a.scale), 20)
    bad, st = execute(a, work, configs(a.seed, nc), a.seed, n, ops, C.NPROC)
    known = C.known_findings("C27")
    seen = {}
    for b in bad:
        seen.setdefault(b["key"], b)
    for k in sorted(seen):
        if k in known:
            C.log("KNOWN-FINDING: property=C27 %s %s" % (k, known[k]))
    viol = [seen[k] for k in sorted(seen) if k not in known]
    for b in viol:
        C.report("C27", dict(b, property="C27", seed=a.seed, tier=a.tier, n=n, ops=ops, how="python3 check.py C27 --replay <this file>"))
    cov = dict(evaluations=st["compared"] + st["headers"] + st["option_sets"], distinct_nontrivial=st.get("distinct_digests", 0), rule=p["rule"],
               samples=[d for d in st["described"][:10]] or ["(no configuration could be compared)"],
               observations=st["compared"], configurations=st["configurations"], digests_per_configuration=st["digests"], digests_compared=st["compared"], operations_absent_by_option=st["absent"],
               headers_used_alone=st["headers"], option_sets_linked=st["option_sets"], assertion_builds=st["asserts"])
    C.write_evidence("C27", a.tier, a.seed, "exploration", cov, p.get("assume", []), t0, len(viol))
    if viol:
        return 1
    if not st["compared"]:
        raise C.Inconclusive("no digests were compared")
    C.log("OK property=C27 tier=%s seed=%d configurations=%d digests=%d wall=%.1fs" % (a.tier, a.seed, st["configurations"], st["compared"], time.time() - t0))
    return 0


def replay(a, p, work, rec):
    import check as C
    cfgs = [rec["config"]] if rec.get("kind") == "config" else []
    a.tier = rec.get("tier", "quick")
    bad, st = execute(a, work, cfgs, rec["seed"], rec["n"], rec["ops"], C.NPROC, only=bool(cfgs))
    bad = [b for b in bad if b["key"] == rec["key"]] or bad
    for b in bad[:5]:
        C.log("  %s: %s" % (b["key"], b["message"]))
        for k in ("reference", "observed", "command"):
            if b.get(k):
                C.log("    %s: %s" % (k, b[k][:1500]))
    if bad:
        C.log("VIOLATION property=C27 replay=%s" % a.replay)
        return 1
    return 0
