/*	Monitors C01..C08: string views (strview.h).
	Every oracle works on plain byte arrays and offsets and shares no code with the library. */
#include "vh.h"
#include <inttypes.h>
#include "strview.h"
/* an argument that counts how often it is evaluated */
static int g_once;
#define ONE(x) (g_once++, (x))

#define BIG 70000
static char g_a[BIG + 16], g_b[BIG + 16], g_c[BIG + 16];

/* ---------------------------------------------------------------- helpers */
static strview_t mkview(const char* bytes, int n)
{
	char* p = vh_place(bytes, n, chance(70));
	if(chance(25)) vh_protect(p);
	return (strview_t){.data = p, .size = n};
}
static char* mkcstr(const char* bytes, int n)	/* NUL terminated, terminator against the guard */
{
	g_c[0] = 0;
	char* tmp = malloc(n + 1);
	memcpy(tmp, bytes, n); tmp[n] = 0;
	char* p = vh_place(tmp, n + 1, true);
	free(tmp);
	return p;
}
static int is_in(const char* set, int nset, char c)
{
	for(int i = 0; i < nset; i++) if(set[i] == c) return 1;
	return 0;
}
static unsigned fold(unsigned char c) { return (c >= 'a' && c <= 'z') ? c - 32u : c; }
static bool eq_bytes(const char* a, const char* b, int n, bool nocase)
{
	for(int i = 0; i < n; i++)
	{
		unsigned char x = a[i], y = b[i];
		if(nocase ? fold(x) != fold(y) : x != y) return false;
	}
	return true;
}
/* result must be exactly base[off..off+len) (an empty one may sit anywhere inside base[lo..hi]) */
static void expect_range(const char* key, strview_t r, const char* base, int lo, int hi, int off, int len, const char* what)
{
	if(len > 0)
		CHECK(r.data == base + off && r.size == len, key, "%s: expected [%d,+%d) got data offset %td size %d", what, off, len, r.data ? r.data - base : (ptrdiff_t)-999999, r.size);
	else
		CHECK(r.data && r.size == 0 && base + lo <= r.data && r.data <= base + hi, key, "%s: expected valid empty view, got %s size %d offset %td", what, r.data ? "data" : "invalid", r.size, r.data ? r.data - base : (ptrdiff_t)-999999);
}
static void expect_invalid(const char* key, strview_t r, const char* what)
{
	CHECK(r.data == NULL && r.size == 0, key, "%s: expected an invalid view, got size %d data %s", what, r.size, r.data ? "non-null" : "null");
}
static void expect_same(const char* key, strview_t now, strview_t before, const char* what)
{
	CHECK(now.data == before.data && now.size == before.size, key, "%s: source view changed: size %d->%d", what, before.size, now.size);
}
/* a view of about INT_MAX bytes of zeros; NULL where shadow memory makes it too expensive */
static char* g_hv;
static char* huge_view(int* n)
{
	#ifdef VH_MSAN
	return NULL;
	#endif
	if(!g_hv)
	{
		g_hv = mmap(NULL, (size_t)INT_MAX + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if(g_hv == MAP_FAILED) g_hv = (char*)-1;
	}
	if(g_hv == (char*)-1) return NULL;
	*n = chance(40) ? INT_MAX - (int)rnd(3) : (int)rndr(1 << 30, INT_MAX);
	return g_hv;
}
static int gen_len(void)
{
	int r = rnd(3000);
	if(r < 2) return rndr(60000, BIG);
	if(r < 6) return (1 << (11 + rnd(6))) + (int)rndr(-2, 2);	/* 2 KiB to 64 KiB */
	if(r < 7) return 10000;
	return rnd_size(1500);
}

/* ================================================================ C02 find */
static void find_case(const char* hay, int nh, bool hay_ok, const char* nee, int nn, bool nee_ok, int alias_off)
{
	strview_t h = hay_ok ? mkview(hay, nh) : STRVIEW_INVALID;
	strview_t nv = !nee_ok ? STRVIEW_INVALID : (alias_off >= 0 && hay_ok) ? (strview_t){.data = h.data + alias_off, .size = nn} : mkview(nee, nn);
	bool has_nul = nee_ok && memchr(nee, 0, nn) != NULL;
	char* nc = !nee_ok ? NULL : has_nul ? NULL : mkcstr(nee, nn);
	const char* ncc = nc;
	for(int nocase = 0; nocase < 2; nocase++)
	{
		int first = -1, last = -1, cnt = 0;
		if(hay_ok && nee_ok)
			for(int i = 0; i + nn <= nh; i++)
				if(eq_bytes(hay + i, nee, nn, nocase)) { if(first < 0) first = i; last = i; cnt++; }
		if(cnt > 1) vh_count("multi-match"); else if(cnt == 1) vh_count("single-match"); else vh_count("no-match");
		for(int form = 0; form < 3; form++)
		{
			strview_t f, l; bool c;
			if(form && nee_ok && has_nul) continue;
			g_once = 0;
			if(form == 0)
			{
				f = nocase ? strview_find_first_nocase(ONE(h), ONE(nv)) : strview_find_first(ONE(h), ONE(nv));
				l = nocase ? strview_find_last_nocase(ONE(h), ONE(nv)) : strview_find_last(ONE(h), ONE(nv));
			}
			else if(form == 1)
			{
				f = nocase ? strview_find_first_nocase(ONE(h), ONE(ncc)) : strview_find_first(ONE(h), ONE(ncc));
				l = nocase ? strview_find_last_nocase(ONE(h), ONE(ncc)) : strview_find_last(ONE(h), ONE(ncc));
			}
			else
			{
				f = nocase ? strview_find_first_nocase(ONE(h), ONE(nc)) : strview_find_first(ONE(h), ONE(nc));
				l = nocase ? strview_find_last_nocase(ONE(h), ONE(nc)) : strview_find_last(ONE(h), ONE(nc));
			}
			CHECK(g_once == 4, "C02:evaluations", "the 4 arguments of two searches were evaluated %d times", g_once);
			char w[60]; snprintf(w, sizeof w, "%s form%d", nocase ? "nocase" : "case", form);
			if(first < 0)
			{
				expect_invalid("C02:find_first:phantom", f, w);
				expect_invalid("C02:find_last:phantom", l, w);
			}
			else
			{
				CHECK(f.data == h.data + first && f.size == nn, "C02:find_first:wrong", "%s hay=%s needle=%s expected %d got %td size %d", w, vh_q(hay, nh), vh_q(nee, nn), first, f.data ? f.data - h.data : (ptrdiff_t)-1, f.size);
				CHECK(l.data == h.data + last && l.size == nn, "C02:find_last:wrong", "%s hay=%s needle=%s expected %d got %td size %d", w, vh_q(hay, nh), vh_q(nee, nn), last, l.data ? l.data - h.data : (ptrdiff_t)-1, l.size);
			}
			if(form == 0)
			{
				c = nocase ? strview_contains_nocase(h, nv) : strview_contains(h, nv);
				CHECK(c == (first >= 0), "C02:contains", "%s hay=%s needle=%s got %d", w, vh_q(hay, nh), vh_q(nee, nn), c);
			}
		}
	}
	if(vh_want_sample()) vh_sample("find hay=%s needle=%s", vh_q(hay_ok ? hay : NULL, nh), vh_q(nee_ok ? nee : NULL, nn));
	vh_trace("find hay=%s needle=%s alias=%d", vh_q(hay_ok ? hay : NULL, nh), vh_q(nee_ok ? nee : NULL, nn), alias_off);
	vh_case(vh_mix(vh_hash_bytes(vh_hash_bytes(1, hay, nh), nee, nn), hay_ok * 2 + nee_ok), hay_ok && nee_ok && nn > 0 && nn <= nh);
}
static int enum_str(char* dst, uint64_t* idx, const char* alpha, int maxlen)	/* decode one string of length 0..maxlen */
{
	int k = strlen(alpha); uint64_t total = 0, pw = 1;
	for(int i = 0; i <= maxlen; i++) { total += pw; pw *= k; }
	uint64_t v = *idx % total; *idx /= total;
	int len = 0; pw = 1;
	while(v >= pw) { v -= pw; pw *= k; len++; }
	for(int i = 0; i < len; i++) { dst[i] = alpha[v % k]; v /= k; }
	return len;
}
static void run_C02(uint64_t i)
{
	if(i < 364 * 40)
	{
		uint64_t x = i;
		int nh = enum_str(g_a, &x, "aAb", 5), nn = enum_str(g_b, &x, "aAb", 3);
		find_case(g_a, nh, true, g_b, nn, true, -1);
		vh_count("enumerated");
		return;
	}
	int nh = gen_len(), nn, alias = -1;
	bool hay_ok = !chance(2), nee_ok = !chance(3);
	rnd_text(g_a, nh, -1);
	switch(rnd(8))
	{
		case 0: nn = rnd_size(40); rnd_text(g_b, nn, -1); break;
		case 1: nn = 0; break;
		case 2: nn = nh + 1 + rnd(3); rnd_text(g_b, nn, -1); memcpy(g_b, g_a, nh); break;
		case 3: nn = nh; memcpy(g_b, g_a, nh); if(nn && chance(50)) g_b[rnd(nn)] ^= chance(50) ? 0x20 : 0x80; break;
		default:
		{
			int o = rnd(nh + 1); nn = chance(70) ? (int)rnd(9) : (int)rnd(nh - o + 1);
			if(nh > 3000 && nn > 100) nn = rnd(100);	/* keeps the quadratic oracle cheap */
			if(chance(15)) o = nh;	/* suffix matches */
			if(o + nn > nh) o = nh - nn;
			if(o < 0) { o = 0; nn = nh; }
			memcpy(g_b, g_a + o, nn);
			if(chance(25)) for(int k = 0; k < nn; k++) { unsigned char c = g_b[k]; if((c | 32) >= 'a' && (c | 32) <= 'z' && chance(50)) g_b[k] ^= 0x20; }
			else if(nn && chance(25)) g_b[chance(50) ? nn - 1 : (int)rnd(nn)] ^= "\x20\x01\x80\x40"[rnd(4)];
			else if(chance(20)) alias = o;
			if(nh > nn && chance(15)) { memmove(g_a + nh - nn, g_b, nn); alias = -1; }
			if(nh > nn && chance(15)) { memmove(g_a, g_b, nn); alias = -1; }
		}
	}
	find_case(g_a, nh, hay_ok, g_b, nn, nee_ok, nee_ok && hay_ok ? alias : -1);
}

/* ================================================================ C03 delimiter split */
static int model_first(const char* t, int lo, int hi, const char* d, int nd, bool quotes)
{
	bool q = false;
	for(int i = lo; i < hi; i++)
	{
		if(quotes && t[i] == '"') q = !q;
		if(!q && is_in(d, nd, t[i])) return i;
	}
	return -1;
}
static int model_last(const char* t, int lo, int hi, const char* d, int nd, bool quotes)
{
	bool q = false;
	for(int i = hi - 1; i >= lo; i--)
	{
		if(quotes && t[i] == '"') q = !q;
		if(!q && is_in(d, nd, t[i])) return i;
	}
	return -1;
}
static void split_case(const char* t, int n, const char* delims, int nd, int qmode)	/* qmode 0 off 1 on 2 mixed */
{
	strview_t whole = mkview(t, n), src = whole;
	char* d = delims ? mkcstr(delims, nd) : NULL;
	int lo = 0, hi = n, steps = 0;
	bool valid = true;
	int dirs = rnd(3);	/* 0 first only, 1 last only, 2 mixed */
	int ntok = 0;
	if(!delims) nd = 0;
	while(steps++ < 3000)
	{
		bool q = qmode == 2 ? chance(50) : qmode;
		bool last = dirs == 2 ? chance(50) : dirs;
		strview_t before = src;
		vh_trace("split_%s src=%s delims=%s quotes=%d", last ? "last" : "first", vh_q(before.data, before.size), vh_q(d, nd), q);
		strview_t tok = last ? strview_split_last_delim(&src, d, q) : strview_split_first_delim(&src, d, q);
		if(!valid)
		{
			expect_invalid("C03:split-of-invalid", tok, "splitting an invalid view");
			expect_invalid("C03:split-of-invalid", src, "source after splitting an invalid view");
			break;
		}
		int p = last ? model_last(t, lo, hi, d, nd, q) : model_first(t, lo, hi, d, nd, q);
		const char* kt = last ? "C03:last:token" : "C03:first:token"; const char* kr = last ? "C03:last:rest" : "C03:first:rest";
		if(p < 0)
		{
			expect_range(kt, tok, whole.data, 0, n, lo, hi - lo, "token without delimiter");
			expect_invalid(kr, src, "source without delimiter");
			valid = false;
		}
		else
		{
			vh_count("delimiters-split");
			if(last)
			{
				expect_range(kt, tok, whole.data, 0, n, p + 1, hi - p - 1, "last token");
				expect_range(kr, src, whole.data, 0, n, lo, p - lo, "source after last split");
				hi = p;
			}
			else
			{
				expect_range(kt, tok, whole.data, 0, n, lo, p - lo, "first token");
				expect_range(kr, src, whole.data, 0, n, p + 1, hi - p - 1, "source after first split");
				lo = p + 1;
			}
			/* continue from the library's own view of an empty remainder, model stays exact */
		}
		ntok++;
	}
	CHECK(!valid || steps >= 3000, "C03:termination", "splitting did not end");
	/* split_all */
	for(int k = 0; k < 2 + (n > 65000); k++)
	{
		int cap = 1 + (k == 1 ? rnd_size(40) : k ? n + 1 : ntok + (int)rndr(-1, 2));
		if(cap < 1) cap = 1;
		bool q = qmode == 2 ? chance(50) : qmode;
		strview_t* dst = (strview_t*)vh_place(NULL, sizeof(strview_t) * (size_t)cap, true);
		memset((void*)dst, 0xA5, sizeof(strview_t) * (size_t)cap);
		int cnt = strview_split_all(cap, dst, whole, d, q);
		int l = 0, m = 0; bool more = true;
		while(more && m < cap)
		{
			int p = model_first(t, l, n, d, nd, q);
			CHECK(m < cnt, "C03:split_all:count", "returned %d, expected more tokens (capacity %d) text=%s delims=%s q=%d", cnt, cap, vh_q(t, n), vh_q(d, nd), q);
			expect_range("C03:split_all:token", dst[m], whole.data, 0, n, l, (p < 0 ? n : p) - l, "split_all token");
			if(p < 0) more = false; else l = p + 1;
			m++;
		}
		if(m > 65536) vh_count("more-than-65536-pieces");
		CHECK(cnt == m, "C03:split_all:count", "returned %d expected %d text=%s delims=%s q=%d", cnt, m, vh_q(t, n), vh_q(d, nd), q);
		for(int i = m; i < cap; i++)
		{
			unsigned char* b = (unsigned char*)&dst[i];
			for(size_t j = 0; j < sizeof(strview_t); j++) CHECK(b[j] == 0xA5, "C03:split_all:overwrite", "element %d beyond count %d written", i, m);
		}
	}
	strview_t inv = STRVIEW_INVALID;
	if(chance(2))
	{
		strview_t e[2];
		CHECK(strview_split_all(2, e, inv, d, false) == 0, "C03:split_all:invalid", "invalid source gave tokens");
		expect_invalid("C03:null", strview_split_first_delim(NULL, d, false), "NULL source");
		expect_invalid("C03:null", strview_split_last_delim(NULL, d, false), "NULL source");
	}
	CHECK(!memcmp(whole.data, t, n), "C03:modified", "source bytes modified");
	if(vh_want_sample() && n) vh_sample("split text=%s delims=%s quotes=%d", vh_q(t, n), vh_q(delims, nd), qmode);
	vh_case(vh_mix(vh_hash_bytes(vh_hash_bytes(2, t, n), delims ? delims : "?", delims ? nd : 1), qmode * 4 + dirs), ntok > 1);
}
static void run_C03(uint64_t i)
{
	if(i < 1365 * 3)
	{
		uint64_t x = i / 3;
		int n = enum_str(g_a, &x, "a,\";", 5);
		split_case(g_a, n, (i & 1) ? "," : ",;", (i & 1) ? 1 : 2, i % 3);
		vh_count("enumerated");
		return;
	}
	static const char* ds[] = {",", ";", ",;", " \t", "", "a", "ab", "\r\n", ":", "\xff", ",\x80", "aAbB", "=&"};
	int n = rnd(1500) == 0 ? (int)rndr(65000, BIG) : chance(96) ? rnd_size(160) : gen_len();
	const char* d = ds[rnd(sizeof ds / sizeof *ds)];
	static char rd[800]; int nd = strlen(d); bool pieces = rnd(4000) == 0;
	if(pieces) n = (int)rndr(65600, BIG);
	rnd_text(g_a, n, -1);
	if(chance(25)) { nd = 1 + rnd(5); if(rnd(100) == 0) { nd = chance(50) ? 256 + (int)rnd(3) : 200 + (int)rnd(550); vh_count("set-of-200-or-more"); } for(int k = 0; k < nd; k++) do rd[k] = n && chance(70) ? g_a[rnd(n)] : (char)rnd(256); while((rd[k] == 0 || rd[k] == '"') && (rd[k] = 'x', 0)); d = rd; }
	int q = rnd(3);
	/* sprinkle delimiters and quotes */
	for(int k = 0; k < n; k++)
	{
		if(pieces) { g_a[k] = nd && chance(99) ? d[rnd(nd)] : 'z'; continue; }
		int r = n > 60000 ? rnd(20000) : rnd(12);
		if(n > 60000 && is_in(d, nd, g_a[k])) g_a[k] = 'z';
		if(n > 60000 && g_a[k] == '"') g_a[k] = 'q';
		if(r < 2 && nd) g_a[k] = d[rnd(nd)];
		else if(r == 2) g_a[k] = '"';
	}
	if(chance(3)) d = NULL;
	split_case(g_a, n, d, nd, q);
}

/* ================================================================ C04 positional */
static void run_C04(uint64_t i)
{
	int n, pre, post;
	if(i < 20000) n = rnd(6); else n = gen_len();
	pre = rnd(4); post = rnd(4);
	bool huge = false; int hn; char* hv = NULL;
	if(rnd(100) == 0 && (hv = huge_view(&hn))) { huge = true; n = hn; pre = post = 0; vh_count("huge-view"); }
	else rnd_text(g_a, pre + n + post, -1);
	strview_t block = huge ? (strview_t){.data = hv, .size = n} : mkview(g_a, pre + n + post);
	strview_t src = {.data = block.data + pre, .size = n};
	int kind = huge ? 50 : rnd(100); bool ok = true;
	if(kind < 3) { src = STRVIEW_INVALID; ok = false; n = 0; }
	uint64_t sig = vh_mix(vh_hash_bytes(3, g_a + pre, huge ? 0 : n), ok + 2ull * n);
	/* sub */
	for(int k = 0; k < 4; k++)
	{
		int b = rnd_index(n), e = rnd_index(n);
		strview_t r = strview_sub(src, b, e);
		vh_trace("sub n=%d b=%d e=%d valid=%d", n, b, e, ok);
		int64_t B = b, E = e;
		if(B < 0) B += n;
		if(E < 0) E += n;
		if(!ok) expect_invalid("C04:sub:invalid-source", r, "sub of invalid");
		else if(n == 0) expect_range("C04:sub:empty-source", r, src.data, 0, 0, 0, 0, "sub of empty");
		else if(B <= E && B < n && E >= 0)
		{
			if(B < 0) B = 0;
			if(E > n) E = n;
			char w[80]; snprintf(w, sizeof w, "sub(len %d, %d, %d)", n, b, e);
			expect_range("C04:sub:range", r, src.data, 0, n, (int)B, (int)(E - B), w);
			vh_count("sub-valid");
		}
		else { char w[80]; snprintf(w, sizeof w, "sub(len %d, %d, %d)", n, b, e); expect_invalid("C04:sub:outside", r, w); vh_count("sub-outside"); }
		sig = vh_mix(sig, ((uint64_t)(unsigned)b << 32) | (unsigned)e);
	}
	/* split_index */
	for(int k = 0; k < 3; k++)
	{
		int idx = rnd_index(n);
		strview_t s = src, r = strview_split_index(&s, idx);
		vh_trace("split_index n=%d idx=%d", n, idx);
		int64_t at = idx < 0 ? (int64_t)idx + n : idx;
		if(at < 0) at = 0;
		if(at > n) at = n;
		char w[60]; snprintf(w, sizeof w, "split_index(len %d, %d)", n, idx);
		if(!ok) { expect_invalid("C04:split_index:invalid", r, w); expect_same("C04:split_index:invalid", s, src, w); }
		else if(idx >= 0)
		{
			expect_range("C04:split_index:part", r, src.data, 0, n, 0, (int)at, w);
			expect_range("C04:split_index:rest", s, src.data, 0, n, (int)at, (int)(n - at), w);
		}
		else
		{
			expect_range("C04:split_index:part", r, src.data, 0, n, (int)at, (int)(n - at), w);
			expect_range("C04:split_index:rest", s, src.data, 0, n, 0, (int)at, w);
		}
		sig = vh_mix(sig, (unsigned)idx);
	}
	if(chance(2)) expect_invalid("C04:split_index:null", strview_split_index(NULL, rnd_index(3)), "NULL source");
	/* split_left / split_right */
	for(int k = 0; k < 3; k++)
	{
		int64_t tot = (int64_t)pre + (ok ? n : 0) + post;
		int a = vh_clampi(rnd(tot + 1)), len = vh_clampi(rnd(tot - a + 1));	/* offsets within the block */
		strview_t pos = {.data = block.data + a, .size = len};
		int pk = rnd(12);
		if(pk == 0) pos = STRVIEW_INVALID;
		else if(pk == 1) { static char other[4] = "abc"; pos = (strview_t){.data = other, .size = rnd(4)}; }
		else if(pk < 7 && ok) { a = vh_clampi(pre + rnd((int64_t)n + 1)); len = rnd((int64_t)pre + n - a + 1); pos = (strview_t){.data = block.data + a, .size = len}; }
		for(int right = 0; right < 2; right++)
		{
			strview_t s = src;
			vh_trace("split_%s n=%d block=%" PRId64 " pos a=%d len=%d kind=%d", right ? "right" : "left", n, tot, a - pre, len, pk);
			strview_t r = right ? strview_split_right(&s, pos) : strview_split_left(&s, pos);
			char w[90]; snprintf(w, sizeof w, "split_%s(len %d, pos [%d,+%d) kind %d)", right ? "right" : "left", n, a - pre, len, pk);
			if(!ok || pk <= 1) { expect_invalid("C04:split_pos:foreign", r, w); expect_same("C04:split_pos:foreign", s, src, w); continue; }
			int ps = a - pre, pe = ps + len;
			bool starts_in = ps >= 0 && ps <= n, ends_in = pe >= 0 && pe <= n;
			int at = right ? pe : ps;
			if(starts_in && ends_in)
			{
				vh_count("pos-inside");
				expect_range(right ? "C04:split_right:part" : "C04:split_left:part", r, src.data, 0, n, right ? at : 0, right ? n - at : at, w);
				expect_range(right ? "C04:split_right:rest" : "C04:split_left:rest", s, src.data, 0, n, right ? 0 : at, right ? at : n - at, w);
			}
			else if(!starts_in && !ends_in)
			{
				expect_invalid("C04:split_pos:outside", r, w); expect_same("C04:split_pos:outside", s, src, w); vh_count("pos-outside");
			}
			else if(r.data == NULL) { expect_same("C04:split_pos:straddle", s, src, w); vh_count("pos-straddle"); }
			else
			{
				/* straddling a border: if it splits, it must split at the border that lies inside */
				CHECK(at >= 0 && at <= n, "C04:split_pos:straddle", "%s split at a point outside the source", w);
				expect_range("C04:split_pos:straddle", r, src.data, 0, n, right ? at : 0, right ? n - at : at, w);
				expect_range("C04:split_pos:straddle", s, src.data, 0, n, right ? 0 : at, right ? at : n - at, w);
				vh_count("pos-straddle");
			}
			sig = vh_mix(sig, ((uint64_t)(unsigned)ps << 32) | (unsigned)pe);
		}
	}
	if(chance(2))
	{
		expect_invalid("C04:split_pos:null", strview_split_left(NULL, src), "NULL source");
		expect_invalid("C04:split_pos:null", strview_split_right(NULL, src), "NULL source");
		CHECK(strview_pop_first_char(NULL) == 0, "C04:pop:null", "pop of NULL");
	}
	/* pop */
	strview_t s = src;
	int pops = huge || chance(90) ? (int)rnd(4) : n + 2;
	for(int k = 0; k < pops; k++)
	{
		strview_t b = s;
		char c = strview_pop_first_char(&s);
		if(b.size)
		{
			CHECK(c == b.data[0], "C04:pop:char", "popped %d expected %d", c, b.data[0]);
			expect_range("C04:pop:rest", s, b.data, 0, b.size, 1, b.size - 1, "pop rest");
		}
		else { CHECK(c == 0, "C04:pop:empty", "popped %d from empty", c); expect_same("C04:pop:empty", s, b, "pop of empty"); }
	}
	CHECK(huge || !memcmp(block.data, g_a, block.size), "C04:modified", "source bytes modified");
	if(vh_want_sample() && !huge) vh_sample("positional text=%s", vh_q(src.data, n));
	vh_case(sig, ok && n > 0);
}

/* ================================================================ C05 lines */
/* reference segmentation: returns number of lines; lines as [off,len); rest offset */
static int model_lines(const char* t, int n, int (*lines)[2], int* rest)
{
	int k = 0, start = 0, i = 0;
	while(i < n)
	{
		if(t[i] == '\r' || t[i] == '\n')
		{
			lines[k][0] = start; lines[k][1] = i - start; k++;
			if(i + 1 < n && (t[i + 1] == '\r' || t[i + 1] == '\n') && t[i + 1] != t[i]) i++;
			start = i + 1;
		}
		i++;
	}
	*rest = start;
	return k;
}
static int (*g_lines)[2];
static void lines_case(const char* t, int n)
{
	int rest, nl = model_lines(t, n, g_lines, &rest);
	uint64_t sig = vh_hash_bytes(5, t, n);
	/* A: whole text, without and with state */
	for(int mode = 0; mode < 2; mode++)
	{
		strview_t whole = mkview(t, n), src = whole;
		char eol = 0;
		int k = 0, end_off = 0;
		for(;;)
		{
			strview_t before = src;
			strview_t l = strview_split_line(&src, mode ? &eol : NULL);
			if(!l.data)
			{
				expect_invalid("C05:whole:invalid", l, "no line");
				expect_same("C05:whole:source-changed", src, before, "split_line without a terminator");
				CHECK(k == nl, "C05:whole:missing-line", "found %d lines, expected %d in %s", k, nl, vh_q(t, n));
				CHECK(before.size == n - rest, "C05:whole:rest", "remainder %d bytes expected %d in %s", before.size, n - rest, vh_q(t, n));
				break;
			}
			CHECK(k < nl, "C05:whole:extra-line", "more than %d lines in %s", nl, vh_q(t, n));
			expect_range("C05:whole:line", l, whole.data, end_off, n, g_lines[k][0], g_lines[k][1], "line");
			int next = k + 1 < nl ? g_lines[k + 1][0] : rest;
			expect_range("C05:whole:source", src, whole.data, 0, n, next, n - next, "source after line");
			end_off = g_lines[k][0];
			k++;
		}
	}
	/* B: fed in pieces; 0: the caller keeps the returned remainder, 1: the caller keeps everything until a line is found */
	for(int idiom = 0; idiom < 2; idiom++)
	{
		char* acc = malloc(n + 1); int na = 0;
		char eol = 0; int k = 0, fed = 0, style = rnd(3);
		while(fed < n || fed == 0)
		{
			int c = n > 5000 ? 1 + (int)rnd(n + 1) : style == 0 ? 1 : style == 1 ? 1 + (int)rnd(3) : 1 + (int)rnd(n + 1);
			if(chance(5)) c = 0;	/* an empty piece */
			if(c > n - fed) c = n - fed;
			memcpy(acc + na, t + fed, c); na += c; fed += c;
			vh_trace("feed %s state=%d eol=%d", vh_q(acc, na), idiom, eol);
			strview_t src = mkview(acc, na), base = src;
			for(;;)
			{
				strview_t before = src;
				char eol_before = eol;
				strview_t l = strview_split_line(&src, &eol);
				if(!l.data)
				{
					expect_same("C05:chunk:source-changed", src, before, "split_line without a terminator (piecewise)");
					CHECK(eol == eol_before, "C05:chunk:state-changed", "state changed from %d to %d without a line", eol_before, eol);
					break;
				}
				CHECK(k < nl, "C05:chunk:extra-line", "idiom %d: more than %d lines feeding %s", idiom, nl, vh_q(t, n));
				CHECK(l.size == g_lines[k][1] && !memcmp(l.data, t + g_lines[k][0], l.size), "C05:chunk:line", "idiom %d line %d is %s expected %s", idiom, k, vh_q(l.data, l.size), vh_q(t + g_lines[k][0], g_lines[k][1]));
				k++;
				vh_count("piecewise-lines");
				if(idiom && chance(50)) break;
			}
			/* keep what the library left */
			int left = src.size, off = left ? (int)(src.data - base.data) : na;
			CHECK(left == na - off, "C05:chunk:rest", "remainder is not the tail");
			memmove(acc, acc + off, left); na = left;
			vh_release_all();
			if(n == 0) break;
			if(fed == n)
			{
				/* drain any lines left over by early breaks */
				strview_t s2 = mkview(acc, na), b2 = s2;
				strview_t l;
				while((l = strview_split_line(&s2, &eol)).data)
				{
					CHECK(k < nl && l.size == g_lines[k][1] && !memcmp(l.data, t + g_lines[k][0], l.size), "C05:chunk:line", "idiom %d line %d is %s", idiom, k, vh_q(l.data, l.size));
					k++;
				}
				int o2 = s2.size ? (int)(s2.data - b2.data) : na;
				const char* r = acc + o2; int nr = na - o2;
				if(eol && nr && (r[0] == '\r' || r[0] == '\n') && r[0] != eol) { r++; nr--; }
				CHECK(k == nl, "C05:chunk:missing-line", "idiom %d found %d of %d lines feeding %s", idiom, k, nl, vh_q(t, n));
				CHECK(nr == n - rest && !memcmp(r, t + rest, nr), "C05:chunk:rest", "idiom %d remainder %s expected %s", idiom, vh_q(r, nr), vh_q(t + rest, n - rest));
				break;
			}
		}
		free(acc);
	}
	if(vh_want_sample() && nl > 1) vh_sample("lines of %s: %d, remainder %d", vh_q(t, n), nl, n - rest);
	vh_count_n("lines", nl);
	vh_case(sig, nl > 0);
}
static void run_C05(uint64_t i)
{
	if(!g_lines) g_lines = malloc(sizeof(*g_lines) * (BIG + 1));
	vh_trace("lines case");
	if(i < 3280)	/* all texts over {CR, LF, a} up to length 7 */
	{
		uint64_t x = i;
		int n = enum_str(g_a, &x, "\r\na", 7);
		lines_case(g_a, n); vh_count("enumerated");
		return;
	}
	int n = rnd(1500) == 0 ? (int)rndr(65000, BIG) : chance(95) ? rnd_size(120) : rnd_size(4000);
	int style = n > 60000 ? 5 : rnd(6), gap = n > 60000 ? 20000 : 2 + (int)rnd(800);
	static const char crlf[] = "\r\n";
	if(style == 5) for(int k = 0; k < n; k++) { g_a[k] = rnd(gap) ? 'a' + k % 26 : crlf[rnd(2)]; if(k && g_a[k - 1] < ' ' && rnd(3) == 0) g_a[k] = crlf[rnd(2)]; }
	else if(style == 0) rnd_text(g_a, n, 5);
	else if(style == 1) rnd_text(g_a, n, 6);
	else if(style == 2) rnd_text(g_a, n, -1);
	else
	{
		rnd_text(g_a, n, VH_N_ALPHA);
		for(int k = 0; k < n; k++) if(chance(style == 3 ? 15 : 45)) g_a[k] = crlf[rnd(2)];
	}
	lines_case(g_a, n);
	if(chance(1))
	{
		char e = '\r'; strview_t inv = STRVIEW_INVALID;
		expect_invalid("C05:null", strview_split_line(NULL, &e), "NULL source");
		expect_invalid("C05:null", strview_split_line(&inv, &e), "invalid source");
		expect_invalid("C05:null", strview_split_line(&inv, NULL), "invalid source");
		expect_invalid("C05:null", inv, "invalid source after");
	}
}

/* ================================================================ C06 comparison */
typedef struct { char b[BIG]; int n; bool ok; } item_t;
static int model_cmp(const item_t* a, const item_t* b)
{
	int na = a->ok ? a->n : 0, nb = b->ok ? b->n : 0;
	for(int i = 0; i < na && i < nb; i++)
		if((unsigned char)a->b[i] != (unsigned char)b->b[i]) return (unsigned char)a->b[i] < (unsigned char)b->b[i] ? -1 : 1;
	return na < nb ? -1 : na > nb;
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static void run_C06(uint64_t i)
{
	static item_t it[3];
	strview_t v[3]; char* c[3];
	uint64_t sig = 6;
	int nit = 3;
	if(i < 364 * 85)
	{
		uint64_t x = i;
		it[0].n = enum_str(it[0].b, &x, "aA\x80", 5); it[0].ok = true;
		it[1].n = enum_str(it[1].b, &x, "aA\x80\xff", 3); it[1].ok = true;
		nit = 2; vh_count("enumerated");
	}
	else for(int k = 0; k < nit; k++)
	{
		it[k].ok = !chance(4);
		if(k == 0 || chance(15)) { it[k].n = chance(95) ? rnd_size(60) : rnd(30) ? (chance(50) ? gen_len() : (1 << (8 + rnd(6))) + (int)rndr(-1, 1)) : (int)rndr(65000, BIG - 10); if(it[k].n > BIG - 10) it[k].n = BIG - 10; rnd_text(it[k].b, it[k].n, -1); }
		else
		{
			item_t* o = &it[rnd(k)];
			it[k].n = o->n; memcpy(it[k].b, o->b, o->n);
			switch(rnd(8))
			{
				case 0: break;	/* equal */
				case 1: if(it[k].n) it[k].b[rnd(it[k].n)] ^= 1 << rnd(8); break;
				case 2: if(it[k].n) it[k].b[it[k].n - 1] ^= chance(50) ? 0x20 : 1 << rnd(8); break;
				case 3: it[k].n = it[k].n && chance(30) ? it[k].n - 1 : (int)rnd(it[k].n + 1); break;	/* prefix */
				case 4: if(it[k].n < BIG - 10) { rnd_text(it[k].b + it[k].n, 4, -1); it[k].n += 1 + rnd(4); } break;	/* extension */
				case 5: for(int j = 0; j < it[k].n; j++) { unsigned char ch = it[k].b[j] | 32; if(ch >= 'a' && ch <= 'z' && chance(50)) it[k].b[j] ^= 0x20; } break;
				case 6: if(it[k].n) { it[k].b[rnd(it[k].n)] ^= 0x20; it[k].n = chance(50) ? it[k].n : (int)rnd(it[k].n + 1); } break;
				case 7: if(it[k].n) it[k].b[rnd(it[k].n)] = (char)rnd(256); break;
			}
		}
	}
	for(int k = 0; k < nit; k++)
	{
		v[k] = it[k].ok ? mkview(it[k].b, it[k].n) : STRVIEW_INVALID;
		bool nul = it[k].ok && memchr(it[k].b, 0, it[k].n);
		c[k] = !it[k].ok ? NULL : nul ? (char*)-1 : mkcstr(it[k].b, it[k].n);
		sig = vh_mix(vh_hash_bytes(sig, it[k].b, it[k].ok ? it[k].n : 0), it[k].ok);
	}
	for(int a = 0; a < nit; a++) for(int b = 0; b < nit; b++)
	{
		item_t *x = &it[a], *y = &it[b];
		strview_t va = v[a], vb = v[b];
		if(a == b && x->ok && chance(50)) vb = mkview(y->b, y->n);	/* same bytes elsewhere */
		const char* qa = vh_q(va.data, va.size); const char* qb = vh_q(vb.data, vb.size);
		vh_trace("compare %s %s", qa, qb);
		bool eq = x->ok == y->ok && (!x->ok || (x->n == y->n && eq_bytes(x->b, y->b, x->n, false)));
		bool eqn = x->ok == y->ok && (!x->ok || (x->n == y->n && eq_bytes(x->b, y->b, x->n, true)));
		g_once = 0;
		CHECK(strview_is_match(ONE(va), ONE(vb)) == eq, "C06:match", "%s %s expected %d", qa, qb, eq);
		CHECK(strview_is_match_nocase(ONE(va), ONE(vb)) == eqn, "C06:match_nocase", "%s %s expected %d", qa, qb, eqn);
		int sw = -1, swn = -1;	/* -1: not specified */
		if(x->ok && y->ok) { sw = x->n >= y->n && eq_bytes(x->b, y->b, y->n, false); swn = x->n >= y->n && eq_bytes(x->b, y->b, y->n, true); }
		else if(!x->ok && !y->ok) sw = swn = 1;
		else if(!y->ok) sw = swn = 0;
		else if(y->n) sw = swn = 0;
		bool r1 = strview_starts_with(ONE(va), ONE(vb)), r2 = strview_starts_with_nocase(ONE(va), ONE(vb));
		CHECK(sw < 0 || r1 == sw, "C06:starts_with", "%s %s expected %d", qa, qb, sw);
		CHECK(swn < 0 || r2 == swn, "C06:starts_with_nocase", "%s %s expected %d", qa, qb, swn);
		CHECK(g_once == 8, "C06:evaluations", "the 8 arguments of four comparisons were evaluated %d times", g_once);
		int m = model_cmp(x, y), r = strview_compare(va, vb);
		CHECK(sgn(r) == m, "C06:compare", "%s %s expected sign %d got %d", qa, qb, m, r);
		if(m) vh_count("unequal"); else vh_count("equal");
		if(c[b] != (char*)-1)
		{
			char* s = c[b]; const char* cs = s;
			CHECK(strview_is_match(va, cs) == eq && strview_is_match(va, s) == eq, "C06:match:cstr", "%s %s expected %d", qa, qb, eq);
			CHECK(strview_is_match_nocase(va, cs) == eqn && strview_is_match_nocase(va, s) == eqn, "C06:match_nocase:cstr", "%s %s expected %d", qa, qb, eqn);
			bool s1 = strview_starts_with(va, cs), s2 = strview_starts_with(va, s), s3 = strview_starts_with_nocase(va, cs), s4 = strview_starts_with_nocase(va, s);
			CHECK(sw < 0 || (s1 == sw && s2 == sw), "C06:starts_with:cstr", "%s %s expected %d", qa, qb, sw);
			CHECK(swn < 0 || (s3 == swn && s4 == swn), "C06:starts_with_nocase:cstr", "%s %s expected %d", qa, qb, swn);
		}
		if(sw == 1) vh_count("prefix");
	}
	/* aliased sub-views of one block */
	if(it[0].ok && it[0].n)
	{
		int n = it[0].n, o1 = rnd(n), l1 = rnd(n - o1 + 1), o2 = chance(40) ? o1 : (int)rnd(n), l2 = rnd(n - o2 + 1);
		strview_t p = {v[0].data + o1, l1}, q = {v[0].data + o2, l2};
		bool e = l1 == l2 && !memcmp(it[0].b + o1, it[0].b + o2, l1);
		CHECK(strview_is_match(p, q) == e, "C06:match:alias", "off %d/%d len %d/%d", o1, o2, l1, l2);
		CHECK(strview_is_match_nocase(p, q) == (l1 == l2 && eq_bytes(it[0].b + o1, it[0].b + o2, l1, true)), "C06:match_nocase:alias", "off %d/%d len %d/%d", o1, o2, l1, l2);
		CHECK(strview_starts_with(p, q) == (l1 >= l2 && !memcmp(it[0].b + o1, it[0].b + o2, l2)), "C06:starts_with:alias", "off %d/%d len %d/%d", o1, o2, l1, l2);
		CHECK(strview_starts_with_nocase(p, q) == (l1 >= l2 && eq_bytes(it[0].b + o1, it[0].b + o2, l2, true)), "C06:starts_with_nocase:alias", "off %d/%d len %d/%d", o1, o2, l1, l2);
		static item_t x, y; x.ok = y.ok = true; x.n = l1; memcpy(x.b, it[0].b + o1, l1); y.n = l2; memcpy(y.b, it[0].b + o2, l2);
		CHECK(sgn(strview_compare(p, q)) == model_cmp(&x, &y), "C06:compare:alias", "off %d/%d len %d/%d", o1, o2, l1, l2);
	}
	if(vh_want_sample()) vh_sample("compare %s with %s", vh_q(v[0].data, v[0].size), vh_q(v[1].data, v[1].size));
	vh_case(sig, it[0].ok && it[1].ok && (it[0].n || it[1].n));
}

/* ================================================================ C07 trim, dequote */
static void run_C07(uint64_t i)
{
	int n, ns; bool ok = !chance(2), set_ok = !chance(3);
	(void)i;
	n = gen_len();
	rnd_text(g_a, n, -1);
	ns = rnd(4) ? (int)rnd(5) : rnd_size(60);
	if(rnd(200) == 0) { ns = chance(30) ? 256 << rnd(4) : 200 + (int)rnd(400); vh_count("set-of-200-or-more"); }
	for(int k = 0; k < ns; k++) g_b[k] = n && chance(70) ? g_a[chance(50) ? rnd(n) : chance(50) ? rnd(n < 3 ? n : 3) : n - 1 - rnd(n < 3 ? n : 3)] : (char)rnd(256);
	/* make runs of set members at the ends */
	int run = rnd(6);
	if(ns && rnd(60) == 0) { n = 1000 + (int)rnd(2000); rnd_text(g_a, n, -1); run = chance(50) ? (int)rnd(n) : rnd_size(n); if(chance(50)) ns = 1; vh_count("long-run"); }
	if(ns && n) { int r = run, s = rnd(4) ? (int)rnd(6) : run; for(int k = 0; k < r && k < n; k++) g_a[k] = g_b[rnd(ns)]; for(int k = 0; k < s && k < n; k++) g_a[n - 1 - k] = g_b[rnd(ns)]; }
	if(chance(5) && ns) for(int k = 0; k < n; k++) g_a[k] = g_b[rnd(ns)];
	strview_t v = ok ? mkview(g_a, n) : STRVIEW_INVALID;
	if(!ok) n = 0;
	strview_t set = set_ok ? mkview(g_b, ns) : STRVIEW_INVALID;
	if(!set_ok) ns = 0;
	bool nul = set_ok && memchr(g_b, 0, ns);
	char* cs = !set_ok ? NULL : nul ? NULL : mkcstr(g_b, ns);
	const char* ccs = cs;
	int lo = 0, hi = n, hi2 = n;
	while(lo < n && is_in(g_b, ns, g_a[lo])) lo++;
	while(hi2 > 0 && is_in(g_b, ns, g_a[hi2 - 1])) hi2--;
	while(hi > lo && is_in(g_b, ns, g_a[hi - 1])) hi--;
	for(int form = 0; form < 3; form++)
	{
		if(form && nul) break;
		g_once = 0;
		strview_t s = form == 0 ? strview_trim_start(ONE(v), ONE(set)) : form == 1 ? strview_trim_start(ONE(v), ONE(ccs)) : strview_trim_start(ONE(v), ONE(cs));
		strview_t e = form == 0 ? strview_trim_end(ONE(v), ONE(set)) : form == 1 ? strview_trim_end(ONE(v), ONE(ccs)) : strview_trim_end(ONE(v), ONE(cs));
		strview_t b = form == 0 ? strview_trim(ONE(v), ONE(set)) : form == 1 ? strview_trim(ONE(v), ONE(ccs)) : strview_trim(ONE(v), ONE(cs));
		CHECK(g_once == 6, "C07:evaluations", "the 6 arguments of three trims were evaluated %d times", g_once);
		vh_trace("trim %s set=%s form=%d", vh_q(v.data, n), vh_q(set.data, ns), form);
		if(!ok)
		{
			expect_invalid("C07:trim:invalid", s, "trim_start of invalid"); expect_invalid("C07:trim:invalid", e, "trim_end of invalid"); expect_invalid("C07:trim:invalid", b, "trim of invalid");
			continue;
		}
		expect_range("C07:trim_start", s, v.data, 0, n, lo, n - lo, "trim_start");
		expect_range("C07:trim_end", e, v.data, 0, n, 0, hi2, "trim_end");
		expect_range("C07:trim", b, v.data, 0, n, lo, hi - lo, "trim");
		strview_t b2 = form == 0 ? strview_trim(b, set) : form == 1 ? strview_trim(b, ccs) : strview_trim(b, cs);
		CHECK(b2.size == b.size && (b.size == 0 || b2.data == b.data), "C07:trim:idempotent", "second trim changed the result");
	}
	if(lo || hi2 < n) vh_count("trimmed"); else vh_count("nothing-to-trim");
	/* a set taken from the text itself */
	if(ok && n)
	{
		int o = rnd(n), l = rnd((n - o > 4 ? 4 : n - o) + 1), lo2 = 0, hi3 = n;
		strview_t self = {v.data + o, l};
		while(lo2 < n && is_in(g_a + o, l, g_a[lo2])) lo2++;
		while(hi3 > lo2 && is_in(g_a + o, l, g_a[hi3 - 1])) hi3--;
		expect_range("C07:trim:self-set", strview_trim(v, self), v.data, 0, n, lo2, hi3 - lo2, "trim by own bytes");
	}
	uint64_t sig = vh_mix(vh_hash_bytes(vh_hash_bytes(7, g_a, n), g_b, ns), ok * 2 + set_ok);
	/* dequote */
	int m = chance(80) ? rnd_size(24) : rnd_size(300);
	char* t = g_c;
	rnd_text(t, m, chance(50) ? 9 : -1);
	if(chance(60))
	{
		char q = chance(50) ? '"' : chance(60) ? '\'' : (char)rnd(256);
		int d = rnd(5);
		for(int k = 0; k < d && k < m - 1 - k; k++) t[k] = t[m - 1 - k] = chance(90) ? q : "\"'x"[rnd(3)];
		if(m && chance(20)) t[chance(50) ? 0 : m - 1] = q;
	}
	strview_t dv = chance(98) ? mkview(t, m) : STRVIEW_INVALID;
	strview_t r = strview_dequote(dv);
	vh_trace("dequote %s", vh_q(dv.data, dv.size));
	if(!dv.data) expect_invalid("C07:dequote:invalid", r, "dequote of invalid");
	else
	{
		int a = 0, b = m, lv = 0;
		if(m > 1 && (t[0] == '"' || t[0] == '\''))
			while(b - a > 1 && t[a] == t[0] && t[b - 1] == t[0]) { a++; b--; lv++; }
		char w[500]; snprintf(w, sizeof w, "dequote %s", vh_q(t, m));
		expect_range("C07:dequote", r, dv.data, 0, m, a, b - a, w);
		if(lv > 1) vh_count("multi-level-dequote"); else if(lv) vh_count("dequoted"); else vh_count("not-quoted");
		sig = vh_hash_bytes(sig, t, m);
	}
	if(vh_want_sample()) vh_sample("trim %s by %s; dequote %s", vh_q(v.data, n), vh_q(set.data, ns), vh_q(dv.data, dv.size));
	vh_case(sig, ok && n);
}

/* ================================================================ C08 C strings */
static char* g_huge;
#define HUGE_BYTES 0xA0000000ull
static void run_C08(uint64_t i)
{
	int n = gen_len(); bool ok = !chance(3);
	(void)i;
	rnd_text(g_a, n, -1);
	if(n > 1000 && chance(50)) for(int k = 0; k < n; k++) if(!g_a[k]) g_a[k] = 'z';
	strview_t v = ok ? mkview(g_a, n) : STRVIEW_INVALID;
	if(!ok) n = 0;
	uint64_t sig = vh_mix(vh_hash_bytes(8, g_a, n), ok);
	if(chance(5))	/* a negative size counts as empty */
	{
		int ds = 1 + rnd(20);
		char* dst = vh_place(NULL, ds, true);
		memset(dst, 0xC3, ds);
		strview_t neg = {.data = v.data, .size = chance(30) ? INT_MIN : -1 - (int)rnd(100)};
		CHECK(strview_to_cstr(dst, ds, neg) == dst && dst[0] == 0, "C08:to_cstr:negative", "a view of size %d gave %s", neg.size, vh_q(dst, ds));
		for(int j = 1; j < ds; j++) CHECK(dst[j] == (char)0xC3, "C08:to_cstr:overwrite", "byte %d of %d changed by a view of negative size", j, ds);
		vh_count("negative-size");
	}
	for(int k = 0; k < 3; k++)
	{
		int ds = chance(60) ? n + (int)rndr(-2, 3) : rnd_size(2000);
		if(chance(10)) ds = rnd(3);
		if(ds < 0) ds = 0;
		char* dst = vh_place(NULL, ds, true);
		if(ds) memset(dst, 0xC3, ds);
		vh_trace("to_cstr size=%d view=%s", ds, vh_q(v.data, n));
		char* r = strview_to_cstr(dst, ds, v);
		CHECK(r == dst, "C08:to_cstr:return", "returned %p expected %p", (void*)r, (void*)dst);
		if(ds)
		{
			int want = n < ds - 1 ? n : ds - 1;
			CHECK(!memcmp(dst, g_a, want), "C08:to_cstr:content", "size %d view %s got %s", ds, vh_q(v.data, n), vh_q(dst, ds));
			CHECK(dst[want] == 0, "C08:to_cstr:terminator", "size %d view %s got %s", ds, vh_q(v.data, n), vh_q(dst, ds));
			for(int j = want + 1; j < ds; j++) CHECK(dst[j] == (char)0xC3, "C08:to_cstr:overwrite", "byte %d of %d beyond the terminator at %d changed", j, ds, want);
			if(want < n) vh_count("truncated"); else vh_count("complete");
		}
		else vh_count("zero-size");
		sig = vh_mix(sig, ds);
	}
	if(chance(5)) CHECK(strview_to_cstr(NULL, rnd(5), v) == NULL, "C08:to_cstr:null", "NULL destination");
	if(rnd(2000) == 0)	/* a destination larger than INT_MAX */
	{
		if(!g_huge)
		{
			g_huge = mmap(NULL, HUGE_BYTES, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if(g_huge == MAP_FAILED) g_huge = (char*)-1;
		}
		if(g_huge != (char*)-1)
		{
			memset(g_huge, 0xC3, n + 8);
			size_t ds = chance(50) ? (size_t)INT_MAX + 1 + rnd(20) : 0x90000000ull + rnd(1000);
			CHECK(strview_to_cstr(g_huge, ds, v) == g_huge && !memcmp(g_huge, g_a, n) && g_huge[n] == 0 && g_huge[n + 1] == (char)0xC3, "C08:to_cstr:huge", "destination size %zu", ds);
			vh_count("huge-destination");
		}
	}
	/* cstr */
	if(ok)
	{
		int z = n; const char* zp = memchr(g_a, 0, n);
		if(zp) z = zp - g_a;
		char* c = mkcstr(g_a, n);	/* stops at the first NUL */
		strview_t cv = cstr(c);
		CHECK(cv.data == c && cv.size == z, "C08:cstr", "length %d expected %d", cv.size, z);
		CHECK(strview_is_valid(cv), "C08:valid", "a C string view is valid");
		/* printf glue */
		if(!zp)
		{
			static char out[BIG + 100];
			memset(out, 0xC3, n + 4);
			int w = snprintf(out, sizeof out, "<%" PRIstr ">", PRIstrarg(v));
			CHECK(w == n + 2 && out[0] == '<' && !memcmp(out + 1, g_a, n) && out[n + 1] == '>', "C08:PRIstr", "printed %d bytes for %d", w, n);
		}
	}
	else
	{
		char out[20]; int w = snprintf(out, sizeof out, "<%" PRIstr ">", PRIstrarg(v));
		CHECK(w == 2 && !strcmp(out, "<>"), "C08:PRIstr", "invalid view printed %d bytes", w);
	}
	CHECK(!strview_is_valid(STRVIEW_INVALID), "C08:valid", "STRVIEW_INVALID is valid");
	CHECK(strview_is_valid(v) == ok, "C08:valid", "validity of a view of size %d", n);
	expect_invalid("C08:cstr:null", cstr(NULL), "cstr(NULL)");
	{
		strview_t l1 = cstr_SL(""), l2 = cstr_SL("a"), l3 = cstr_SL("ab\0cd");
		CHECK(l1.data && l1.size == 0 && l2.size == 1 && l2.data[0] == 'a' && l3.size == 5 && !memcmp(l3.data, "ab\0cd", 5), "C08:cstr_SL", "sizes %d %d %d", l1.size, l2.size, l3.size);
	}
	/* swap */
	strview_t a = v, b = chance(20) ? STRVIEW_INVALID : mkview("xyz", 3), a0 = a, b0 = b;
	strview_swap(&a, &b);
	CHECK(a.data == b0.data && a.size == b0.size && b.data == a0.data && b.size == a0.size, "C08:swap", "not exchanged");
	strview_swap(&a, &a);
	CHECK(a.data == b0.data && a.size == b0.size, "C08:swap:self", "self swap changed the view");
	if(vh_want_sample()) vh_sample("to_cstr/cstr of %s", vh_q(v.data, n));
	vh_case(sig, ok && n);
}

/* ================================================================ C01 containment over operation chains */
static void in_src(const char* op, strview_t r, strview_t src)
{
	vh.events++;
	if(!r.data) { if(r.size != 0) vh_fail("C01:invalid-with-size", "%s produced an invalid view of size %d", op, r.size); return; }
	if(r.size < 0) vh_fail("C01:negative-size", "%s produced size %d", op, r.size);
	if(!src.data) vh_fail("C01:from-nothing", "%s produced a valid view from an invalid one", op);
	if(r.data < src.data || r.data + r.size > src.data + src.size)
		vh_fail("C01:escaped", "%s produced [%td,+%d) of a source of %d bytes", op, r.data - src.data, r.size, src.size);
}
static volatile unsigned g_sink;
static void touch(strview_t r)	/* read every byte of a result: the sanitizer judges */
{
	unsigned s = 0;
	for(int i = 0; i < r.size; i++) s += (unsigned char)r.data[i];
	g_sink += s;
}
static void run_C01(uint64_t i)
{
	(void)i;
	int n = rnd(1500) == 0 ? (int)rndr(65000, BIG) : chance(95) ? rnd_size(200) : gen_len();
	rnd_text(g_a, n, -1);
	if(chance(30)) for(int k = 0; k < n; k++) if(chance(20)) g_a[k] = ",\"\r\n "[rnd(5)];
	strview_t whole = mkview(g_a, n);
	#define NV 6
	strview_t pool[NV];
	for(int k = 0; k < NV; k++)
	{
		int o = chance(40) ? 0 : rnd(n + 1), l = chance(40) ? n - o : (int)rnd(n - o + 1);
		pool[k] = chance(8) ? STRVIEW_INVALID : (strview_t){.data = whole.data + o, .size = l};
	}
	char eol = 0;
	uint64_t sig = vh_hash_bytes(9, g_a, n);
	int nops = 12;
	for(int k = 0; k < nops; k++)
	{
		int x = rnd(NV), y = rnd(NV), z = rnd(NV);
		strview_t A = pool[x], B = pool[y], r = STRVIEW_INVALID, s = A;
		int i1 = rnd_index(A.size), i2 = rnd_index(A.size);
		/* foreign second operand, sometimes as a C string */
		int fn = rnd_size(12); rnd_text(g_b, fn, -1);
		if(fn && A.size && chance(50)) { int o = rnd(A.size); for(int j = 0; j < fn; j++) g_b[j] = o + j < A.size ? A.data[o + j] : g_b[j]; }
		strview_t F = chance(50) ? B : mkview(g_b, fn);
		char* C = chance(4) ? NULL : mkcstr(g_b, fn);
		int op = rnd(30); const char* nm = "?";
		bool q = chance(50);
		sig = vh_mix(sig, op * 64 + x * 8 + y);
		vh_trace("op %d A=[%td,+%d) B=[%td,+%d) F=%s C=%s i1=%d i2=%d", op, A.data ? A.data - whole.data : (ptrdiff_t)-1, A.size, B.data ? B.data - whole.data : (ptrdiff_t)-1, B.size, vh_q(F.data, F.size), vh_q(C, C ? (int)strlen(C) : 0), i1, i2);
		switch(op)
		{
			case 0: nm = "sub"; r = strview_sub(A, i1, i2); break;
			case 1: nm = "split_index"; r = strview_split_index(&s, i1); break;
			case 2: nm = "split_first_delim"; r = strview_split_first_delim(&s, C, q); break;
			case 3: nm = "split_last_delim"; r = strview_split_last_delim(&s, C, q); break;
			case 4: nm = "split_left"; r = strview_split_left(&s, B); break;
			case 5: nm = "split_right"; r = strview_split_right(&s, B); break;
			case 6: nm = "split_line"; r = strview_split_line(&s, q ? &eol : NULL); break;
			case 7: nm = "pop_first_char"; (void)strview_pop_first_char(&s); r = s; break;
			case 8: nm = "trim"; r = strview_trim(A, F); break;
			case 9: nm = "trim_start"; r = strview_trim_start(A, F); break;
			case 10: nm = "trim_end"; r = strview_trim_end(A, F); break;
			case 11: nm = "trim/cstr"; r = strview_trim(A, C); break;
			case 12: nm = "trim_start/cstr"; r = strview_trim_start(A, C); break;
			case 13: nm = "trim_end/cstr"; r = strview_trim_end(A, C); break;
			case 14: nm = "find_first"; r = strview_find_first(A, F); break;
			case 15: nm = "find_last"; r = strview_find_last(A, F); break;
			case 16: nm = "find_first_nocase"; r = strview_find_first_nocase(A, F); break;
			case 17: nm = "find_last_nocase"; r = strview_find_last_nocase(A, F); break;
			case 18: nm = "find_first/cstr"; r = strview_find_first(A, C); break;
			case 19: nm = "find_last/cstr"; r = strview_find_last(A, C); break;
			case 20: nm = "find_first_nocase/cstr"; r = strview_find_first_nocase(A, C); break;
			case 21: nm = "find_last_nocase/cstr"; r = strview_find_last_nocase(A, C); break;
			case 22: nm = "dequote"; r = strview_dequote(A); break;
			case 23:
			{
				nm = "split_all";
				int cap = 1 + rnd(6);
				strview_t* d = (strview_t*)vh_place(NULL, cap * sizeof *d, true);
				int c = strview_split_all(cap, d, A, C, q);
				CHECK(c >= 0 && c <= cap, "C01:split_all:count", "count %d of %d", c, cap);
				for(int j = 0; j < c; j++) { in_src(nm, d[j], A); touch(d[j]); }
				if(c) r = d[rnd(c)];
				break;
			}
			case 24: g_sink += strview_compare(A, F); nm = "compare"; break;
			case 25: g_sink += strview_is_match(A, F) + strview_is_match(A, C) + strview_is_match_nocase(A, F) + strview_is_match_nocase(A, C); nm = "match"; break;
			case 26: g_sink += strview_starts_with(A, F) + strview_starts_with(A, C) + strview_starts_with_nocase(A, F) + strview_starts_with_nocase(A, C); nm = "starts_with"; break;
			case 27: g_sink += strview_contains(A, F) + strview_contains_nocase(A, F); nm = "contains"; break;
			case 28:
			{
				int ds = rnd_size(60); char* d = vh_place(NULL, ds, true);
				nm = "to_cstr"; CHECK(strview_to_cstr(d, ds, A) == d, "C01:to_cstr", "returned another pointer"); break;
			}
			case 29: { strview_t t1 = A, t2 = B; strview_swap(&t1, &t2); nm = "swap"; in_src(nm, t1, B); in_src(nm, t2, A); break; }
		}
		in_src(nm, r, A); in_src(nm, s, A);
		touch(r); touch(s);
		if(r.data) vh_count(nm);
		vh_event();
		if(chance(60)) pool[z] = chance(50) ? r : s;
		if(k % 6 == 5)	/* recycle placements but keep the source */
		{
			for(int j = 0; j < VH_SLOTS; j++) (void)j;
			CHECK(!memcmp(whole.data, g_a, n), "C01:modified", "%s modified the source bytes", nm);
			char* keep = malloc(n ? n : 1); memcpy(keep, whole.data, n);
			ptrdiff_t off[NV]; for(int j = 0; j < NV; j++) off[j] = pool[j].data ? pool[j].data - whole.data : -1;
			vh_release_all();
			whole = mkview(keep, n); free(keep);
			for(int j = 0; j < NV; j++) if(pool[j].data) pool[j].data = whole.data + off[j];
		}
	}
	CHECK(!memcmp(whole.data, g_a, n), "C01:modified", "the source bytes were modified");
	if(vh_want_sample()) vh_sample("%d chained view operations on %s", nops, vh_q(g_a, n));
	vh_case(sig, n > 0);
}

/* ================================================================ views of about INT_MAX bytes */
static void huge_case(const char* prop)
{
	int n; char* h = huge_view(&n);
	if(!h) return;
	strview_t v = {h, n}, s = v, r;
	int o = chance(50) ? (int)rnd(40) : (int)rndr(60000, 70000), e = n - 1 - (chance(50) ? (int)rnd(40) : (int)rndr(60000, 70000));
	vh_count("huge-view");
	vh_trace("huge view n=%d o=%d e=%d", n, o, e);
	if(!strcmp(prop, "C02"))
	{
		h[o] = 'a'; h[o + 1] = 'B'; h[e - 1] = 'a'; h[e] = 'B';
		CHECK((r = strview_find_first(v, "aB")).data == h + o && r.size == 2, "C02:huge", "first in %d bytes", n);
		CHECK((r = strview_find_last(v, cstr("aB"))).data == h + e - 1 && r.size == 2, "C02:huge", "last in %d bytes", n);
		CHECK((r = strview_find_first_nocase(v, "Ab")).data == h + o && r.size == 2, "C02:huge", "first nocase in %d bytes", n);
		CHECK((r = strview_find_last_nocase(v, "Ab")).data == h + e - 1 && r.size == 2, "C02:huge", "last nocase in %d bytes", n);
		CHECK(strview_contains(v, cstr("aB")) && strview_contains_nocase(v, cstr("Ab")), "C02:huge", "contains in %d bytes", n);
		strview_t five = {h, 5};
		strview_t f5 = strview_find_first(five, v), l5 = strview_find_last(five, v);
		CHECK(!f5.data && !l5.data, "C02:huge", "needle of %d bytes", n);
		h[o] = h[o + 1] = h[e - 1] = h[e] = 0;
	}
	else if(!strcmp(prop, "C03") || !strcmp(prop, "C05"))
	{
		char d = prop[2] == '3' ? ',' : chance(50) ? '\r' : '\n', eol = 0;
		h[o] = d; h[e] = d;
		r = prop[2] == '3' ? strview_split_first_delim(&s, ",", chance(50)) : strview_split_line(&s, chance(50) ? &eol : NULL);
		CHECK(r.data && r.size == o && (!o || r.data == h), "C03:huge", "first token of %d bytes: %d", n, r.size);
		CHECK(s.data == h + o + 1 && s.size == n - o - 1, "C03:huge", "rest after first token of %d bytes: %d", n, s.size);
		if(prop[2] == '3')
		{
			s = v;
			r = strview_split_last_delim(&s, ",", chance(50));
			CHECK(r.data && r.size == n - e - 1 && (!r.size || r.data == h + e + 1), "C03:huge", "last token of %d bytes: %d", n, r.size);
			CHECK(s.data == h && s.size == e, "C03:huge", "rest before last token of %d bytes: %d", n, s.size);
			strview_t t[1];
			CHECK(strview_split_all(1, t, v, ",", true) == 1 && t[0].data && t[0].size == o, "C03:huge", "split_all of %d bytes", n);
		}
		h[o] = h[e] = 0;
	}
	else if(!strcmp(prop, "C06"))
	{
		int a = chance(50) ? (int)rnd(3) : chance(50) ? 65536 * (int)rnd(3) : (int)rnd(70000), b = chance(50) ? n : a + (chance(50) ? 1 << rnd(31) : 65536);
		if(b < 0) b = n;
		strview_t x = {h, a}, y = {h + (chance(50) ? 4096 : 0), b > n - 4096 ? n - 4096 : b};
		int w = x.size < y.size ? -1 : x.size > y.size;
		CHECK(sgn(strview_compare(x, y)) == w && sgn(strview_compare(y, x)) == -w, "C06:huge", "compare sizes %d and %d: %d %d", x.size, y.size, strview_compare(x, y), strview_compare(y, x));
		CHECK(strview_is_match(x, y) == !w && strview_is_match_nocase(x, y) == !w, "C06:huge", "match sizes %d and %d", x.size, y.size);
		CHECK(strview_starts_with(y, x) && strview_starts_with_nocase(y, x), "C06:huge", "prefix sizes %d and %d", x.size, y.size);
		CHECK(strview_starts_with(x, y) == !w && strview_starts_with_nocase(x, y) == !w, "C06:huge", "not a prefix sizes %d and %d", x.size, y.size);
		/* a difference beyond 64 KiB */
		h[66000] = chance(50) ? 1 : '\xff';
		x = (strview_t){h, 66000 + 1 + rnd(5)}; y = (strview_t){h + 100000, x.size};
		CHECK(strview_compare(x, y) > 0 && strview_compare(y, x) < 0 && !strview_is_match(x, y) && !strview_is_match_nocase(x, y) && !strview_starts_with(x, y) && !strview_starts_with_nocase(x, y), "C06:huge", "difference at 66000 of %d", x.size);
		h[66000] = 0;
	}
	else if(!strcmp(prop, "C07"))
	{
		int i1 = rnd(3000), i2 = rnd(3000);
		memset(h, ' ', i1); memset(h + n - i2, chance(50) ? ' ' : '\t', i2);
		CHECK((r = strview_trim(v, " \t")).data == h + i1 && r.size == n - i1 - i2, "C07:huge", "trim of %d bytes", n);
		CHECK((r = strview_trim_start(v, " \t")).data == h + i1 && r.size == n - i1, "C07:huge", "trim_start of %d bytes", n);
		CHECK((r = strview_trim_end(v, " \t")).data == h && r.size == n - i2, "C07:huge", "trim_end of %d bytes", n);
		memset(h, 0, i1); memset(h + n - i2, 0, i2);
		h[0] = h[n - 1] = '"';
		CHECK((r = strview_dequote(v)).data == h + 1 && r.size == n - 2, "C07:huge", "dequote of %d bytes", n);
		h[0] = h[n - 1] = 0;
	}
	else if(!strcmp(prop, "C08"))
	{
		char d[20];
		h[0] = 'x'; h[17] = 'y';
		memset(d, 1, 20);
		CHECK(strview_to_cstr(d, 19, v) == d && d[0] == 'x' && d[17] == 'y' && d[18] == 0 && d[19] == 1, "C08:huge", "to_cstr of %d bytes", n);
		h[0] = h[17] = 0;
	}
}
/* ================================================================ views and arguments of 64 KiB to megabytes */
#define LARGE (2 << 20)
static char* g_l; static char* g_l2;	/* two blocks of LARGE bytes, each followed by nothing readable */
static char* large_block(void)
{
	char* p = mmap(NULL, LARGE + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if(p == MAP_FAILED) vh_harness_error("mmap");
	mprotect(p + LARGE, 4096, PROT_NONE);
	return p;
}
static void large_fill(char* p)	/* letters b..q only */
{
	for(int i = 0; i < LARGE; i += 16) { uint64_t r = rnd64(); for(int k = 0; k < 16; k++) p[i + k] = (char)('b' + (r >> (4 * k) & 15)); }
}
static int large_n(int max)
{
	int n = chance(30) ? 65536 * (1 + (int)rnd(3)) + (int)rndr(-2, 2) : chance(40) ? (1 << (12 + rnd(9))) + (int)rndr(-2, 2) : (int)rndr(60000, 1900000);
	return n > max ? max : n;
}
static void large_case(const char* prop)
{
	if(!g_l) { g_l = large_block(); g_l2 = large_block(); }
	large_fill(g_l);
	int n = large_n(LARGE); char* h = g_l + LARGE - n;	/* ends where nothing is readable */
	strview_t v = {h, n}, s = v, r;
	vh_count("large-view");
	vh_trace("large view n=%d", n);
	if(!strcmp(prop, "C02"))
	{
		int o = chance(20) ? n - (int)rnd(n < 50 ? n : 50) - 1 : (int)rnd(n), m = chance(40) ? 1 + (int)rnd(30) : chance(30) ? n - o : 1 + large_n(n - o - 1);
		if(m > n - o) m = n - o;
		#if VH_ASAN || defined(VH_MSAN)
		#define CHECKED_MEMCMP 1	/* a sanitizer's memcmp() looks at all of both ranges each time */
		#else
		#define CHECKED_MEMCMP 0
		#endif
		if(CHECKED_MEMCMP && (double)(n - m) * m > 1e8)
		{
			int p = rnd(41), q = rnd(41);
			if(p > o) p = o;
			if(q > n - o - m) q = n - o - m;
			h += o - p; o = p; n = p + m + q; v = (strview_t){h, n};
		}
		int k = chance(50) ? (int)rnd(m < 3 ? m : 3) : chance(50) ? m - 1 : (int)rnd(m);
		h[o + k] = 'z';	/* the only one: the needle occurs here and nowhere else */
		char* w = g_l2 + LARGE - m; memcpy(w, h + o, m);
		int o2 = o;
		if(o + 2 * m <= n && chance(50)) { o2 = chance(30) ? n - m : (int)rndr(o + m, n - m); memcpy(h + o2, w, m); }
		strview_t nee = {w, m};
		char what[100]; snprintf(what, sizeof what, "needle of %d at %d and %d of %d", m, o, o2, n);
		expect_range("C02:large", strview_find_first(v, nee), h, 0, n, o, m, what);
		expect_range("C02:large", strview_find_last(v, nee), h, 0, n, o2, m, what);
		CHECK(strview_contains(v, nee), "C02:large", "contains: %s", what);
		for(int q = rnd(5); q >= 0; q--) { int x = rnd(m); if(w[x] >= 'a') w[x] -= 32; }
		bool same = !memcmp(w, h + o, m);
		expect_range("C02:large", strview_find_first_nocase(v, nee), h, 0, n, o, m, what);
		expect_range("C02:large", strview_find_last_nocase(v, nee), h, 0, n, o2, m, what);
		CHECK(strview_contains_nocase(v, nee) && strview_contains(v, nee) == same, "C02:large", "contains_nocase: %s", what);
		w[chance(50) ? m - 1 : (int)rnd(m)] = '#';
		expect_invalid("C02:large", strview_find_first(v, nee), what); expect_invalid("C02:large", strview_find_last(v, nee), what);
		expect_invalid("C02:large", strview_find_first_nocase(v, nee), what); expect_invalid("C02:large", strview_find_last_nocase(v, nee), what);
		CHECK(!strview_contains(v, nee) && !strview_contains_nocase(v, nee), "C02:large", "contains: %s", what);
	}
	else if(!strcmp(prop, "C03"))
	{
		int nd = 1 + rnd(5), nq = 2 * rnd(3);
		bool q = chance(60);
		char delims[] = ",;\xff";
		if(chance(20)) { n = 200 + rnd(200); h = g_l + LARGE - n; v = s = (strview_t){h, n}; }
		for(int i = 0; i < nd; i++) h[rnd(n)] = delims[rnd(3)];
		for(int i = 0; i < nq; i++) h[rnd(n)] = '"';
		char* d = delims;
		if(n < 1000) { int l = large_n(LARGE - 4); d = g_l2 + LARGE - l - 4; memset(d, chance(50) ? 'Z' : ';', l); memcpy(d + l, ",;\xff", 4); }	/* a long set */
		for(int dir = 0; dir < 2; dir++)
		{
			int lo = 0, hi = n, cnt = 0; s = v;
			for(;;)
			{
				int x = dir ? model_last(h, lo, hi, delims, 3, q) : model_first(h, lo, hi, delims, 3, q);
				r = dir ? strview_split_last_delim(&s, d, q) : strview_split_first_delim(&s, d, q);
				int b = dir ? (x < 0 ? lo : x + 1) : lo, e = dir ? hi : (x < 0 ? hi : x);
				CHECK(r.data && r.size == e - b && (e == b || r.data == h + b), "C03:large", "token %d from the %s: [%d,%d) expected, got %td +%d", cnt, dir ? "end" : "start", b, e, r.data ? r.data - h : (ptrdiff_t)-1, r.size);
				cnt++;
				if(x < 0) { CHECK(!strview_is_valid(s), "C03:large", "the source of the last token is valid"); break; }
				if(dir) hi = x; else lo = x + 1;
				CHECK(s.data && s.size == hi - lo && (hi == lo || s.data == h + lo), "C03:large", "source after token %d: %td +%d", cnt, s.data ? s.data - h : (ptrdiff_t)-1, s.size);
			}
			if(!dir) { strview_t t[16]; CHECK(strview_split_all(16, t, v, d, q) == (cnt > 16 ? 16 : cnt), "C03:large", "split_all of %d tokens", cnt); }
		}
	}
	else if(!strcmp(prop, "C05"))
	{
		int nl = rnd(5), lines[40][2], rest;
		for(int i = 0; i < nl; i++) { int x = rnd(n); h[x] = "\r\n"[rnd(2)]; if(chance(60) && x + 1 < n) h[x + 1] = "\r\n"[rnd(2)]; }
		nl = model_lines(h, n, lines, &rest);
		for(int mode = 0; mode < 2; mode++)
		{
			char eol = 0; s = v;
			for(int i = 0; i < nl; i++)
			{
				r = strview_split_line(&s, mode ? &eol : NULL);
				CHECK(r.data && r.size == lines[i][1] && (!r.size || r.data == h + lines[i][0]), "C05:large", "line %d of %d: expected %d bytes at %d, got %d", i, nl, lines[i][1], lines[i][0], r.size);
			}
			r = strview_split_line(&s, mode ? &eol : NULL);
			CHECK(!r.data && s.data && s.data + s.size == h + n && (s.size == n - rest || (mode && s.size == n - rest)), "C05:large", "remainder %d, expected %d", s.size, n - rest);
		}
	}
	else if(!strcmp(prop, "C06"))
	{
		int m = chance(60) ? n : n - (int)rnd(n < 70000 ? n : 70000);
		char* w = g_l2 + LARGE - m; memcpy(w, h, m);
		int flips = chance(50) ? rnd(6) : 0, x = -1;
		for(int i = 0; i < flips; i++) { int f = rnd(m); if(w[f] >= 'a') w[f] -= 32; }
		if(m && chance(60)) { x = chance(50) ? m - 1 - (int)rnd(m < 9 ? m : 9) : (int)rnd(m); w[x] = "\x01\xff{"[rnd(3)]; }
		strview_t y = {w, m};
		int f = 0; while(f < m && w[f] == h[f]) f++;
		int want = f < m ? ((unsigned char)h[f] < (unsigned char)w[f] ? -1 : 1) : n > m;
		bool pre = f == m, pren = x < 0;
		CHECK(sgn(strview_compare(v, y)) == want && sgn(strview_compare(y, v)) == -want, "C06:large", "compare of %d and %d bytes, first difference at %d", n, m, f);
		CHECK(strview_is_match(v, y) == (pre && n == m) && strview_is_match_nocase(v, y) == (pren && n == m), "C06:large", "match of %d and %d bytes, difference at %d/%d", n, m, f, x);
		CHECK(strview_starts_with(v, y) == pre && strview_starts_with_nocase(v, y) == pren, "C06:large", "prefix of %d and %d bytes, difference at %d/%d", n, m, f, x);
	}
	else if(!strcmp(prop, "C07"))
	{
		char fill = " \t,\xff"[rnd(4)];
		int a = chance(30) ? 0 : chance(30) ? rnd_size(n < 5000 ? n : 5000) : large_n(n), b = chance(30) ? 0 : large_n(n - a);
		bool longset = chance(30); int l = longset ? large_n(LARGE - 1) : (int)rnd(4);
		if(longset) { n = rnd(100); h = g_l + LARGE - n; a = rnd(n + 1); b = rnd(n - a + 1); }
		memset(h, fill, a); memset(h + n - b, fill, b);
		if(a + b == n) a = n;
		char* w = g_l2 + LARGE - l - 2; memset(w, 'Z', l); w[l] = fill; w[l + 1] = 0;
		v = (strview_t){h, n};
		strview_t set = {w, l + 1};
		int ea = a == n ? 0 : b, hi = a == n ? n : a;
		for(int form = 0; form < 2; form++)
		{
			r = form ? strview_trim_start(v, w) : strview_trim_start(v, set); expect_range("C07:large", r, h, 0, n, hi, n - hi, "trim_start");
			r = form ? strview_trim_end(v, w) : strview_trim_end(v, set); expect_range("C07:large", r, h, 0, n, 0, a == n ? 0 : n - ea, "trim_end");
			r = form ? strview_trim(v, w) : strview_trim(v, set); expect_range("C07:large", r, h, 0, n, hi, n - hi - ea, "trim");
		}
		if(n > 2)
		{
			int lv = chance(50) ? (int)rnd(3) : large_n(n / 2 - 1); char q = "'\""[rnd(2)];
			if(lv > n / 2 - 1) lv = n / 2 - 1;
			h[lv] = 'b';
			memset(h, q, lv); memset(h + n - lv, q, lv);
			expect_range("C07:large", strview_dequote(v), h, 0, n, lv, n - 2 * lv, "dequote");
		}
	}
	else if(!strcmp(prop, "C08"))
	{
		int d = chance(60) ? n + (int)rndr(-2, 3) : large_n(LARGE); if(d < 1) d = 1; if(d > LARGE) d = LARGE;
		char* w = g_l2 + LARGE - d; if(d < LARGE) w[-1] = 'Y';
		int c = d - 1 < n ? d - 1 : n;
		memset(w, 'X', d);
		CHECK(strview_to_cstr(w, d, v) == w && !memcmp(w, h, c) && !w[c], "C08:large", "to_cstr of %d bytes to %d", n, d);
		CHECK(d == LARGE || w[-1] == 'Y', "C08:large", "byte before the destination");
		h[n - 1] = 0;
		r = cstr(h); CHECK(r.data == h && r.size == n - 1, "C08:large", "cstr of %d bytes is %d", n - 1, r.size);
	}
	vh_event();
}
static void (*g_run)(uint64_t);
static void run_any(uint64_t i)
{
	if(vh_rare(3000)) { huge_case(vh.prop); vh_release_all(); }
	if(vh_rare(!strcmp(vh.prop, "C02") ? 6000 : 1500)) { large_case(vh.prop); vh_release_all(); }
	g_run(i);
}
int main(int argc, char** argv)
{
	const char* p = vh_arg(argc, argv, "prop", "");
	static const struct { const char* id; void (*f)(uint64_t); } t[] =
		{{"C01", run_C01}, {"C02", run_C02}, {"C03", run_C03}, {"C04", run_C04}, {"C05", run_C05}, {"C06", run_C06}, {"C07", run_C07}, {"C08", run_C08}};
	for(size_t i = 0; i < sizeof t / sizeof *t; i++) if(!strcmp(p, t[i].id)) { g_run = t[i].f; return vh_main(argc, argv, NULL, run_any); }
	vh_harness_error("unknown property %s", p);
}
