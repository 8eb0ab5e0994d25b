/*	Monitor C15: every formatted assignment/append is compared with an independent run of the same formatter,
	on dynamic and fixed buffers, with the formatter made to fail on either pass. */
#include "rec.h"
#include "prnf.h"
#include <wchar.h>

/* ---------------------------------------------------------------- formatter fault injection */
int __real_vsnprintf(char* dst, size_t n, const char* f, va_list va);
static int g_fail_at = -1, g_calls, g_injected;
int __wrap_vsnprintf(char* dst, size_t n, const char* f, va_list va)
{
	if(g_fail_at >= 0 && g_calls++ == g_fail_at)
	{
		g_injected++;
		errno = ENOMEM;
		/* a failing formatter may have stored part of its output */
		if(dst && n > 1) { dst[0] = '?'; dst[1] = 0; }
		return -1;
	}
	return __real_vsnprintf(dst, n, f, va);
}

#define MAXOUT (1 << 24)
static char g_exp[MAXOUT]; static int g_en; static bool g_err;
static char g_prior[6000000]; static int g_pn;
static char g_fmt[600];

static void sink(void* v, char c) { (void)v; if(g_en < MAXOUT) g_exp[g_en] = c; g_en++; }
static void want_printf(const char* f, ...)
{
	va_list va; va_start(va, f);
	int r = __real_vsnprintf(g_exp, MAXOUT, f, va);
	va_end(va);
	if(r >= MAXOUT) vh_harness_error("output too long");
	g_err = r < 0; g_en = r < 0 ? 0 : r;
}
static void want_prnf(const char* f, ...)
{
	va_list va; va_start(va, f);
	g_en = 0; g_err = false;
	int r = vfptrprnf(sink, NULL, f, va);
	va_end(va);
	if(g_en >= MAXOUT) vh_harness_error("output too long");
	if(r < 0) g_err = true;
}
/* the non-variadic forms */
static strview_t via_v(int mode, strbuf_t** b, const char* f, ...)
{
	va_list va; va_start(va, f);
	strview_t r;
	switch(mode)
	{
		case 0: r = strbuf_vprintf(b, f, va); break;
		case 1: r = strbuf_append_vprintf(b, f, va); break;
		case 2: r = strbuf_vprnf(b, f, va); break;
		default: r = strbuf_append_vprnf(b, f, va); break;
	}
	va_end(va);
	return r;
}
/* literal text, '%%' sometimes */
static void lit(char** o, int max)
{
	int n = rnd(max + 1);
	while(n--)
	{
		char c = chance(10) ? '%' : (char)rndr(1, 255);
		if(c == '%') { *(*o)++ = '%'; *(*o)++ = '%'; }
		else *(*o)++ = chance(70) ? "abc xyz.,:=\n"[rnd(12)] : (c && c != '%' && c != '\v' ? c : 'q');	/* prnf takes \v as column alignment */
	}
	**o = 0;
}
static void spec(char** o, const char* convs, const char* length, bool prnf)
{
	*(*o)++ = '%';
	if(chance(30)) *(*o)++ = "-0 +"[rnd(4)];
	if(chance(40)) *o += sprintf(*o, "%d", (int)rnd(chance(20) && !prnf ? 300 : 30));
	char conv = convs[rnd(strlen(convs))];
	if(chance(30) && conv != 'c') *o += sprintf(*o, ".%d", (int)rnd(9));
	*o += sprintf(*o, "%s%c", length, conv);
	**o = 0;
}
static strbuf_t* g_b; static int g_fixed; static rec_area_t g_area;
static char g_ops[400];

/* one call with any argument list; the expectation is computed by the caller's macro */
#define FORMAT(mode, vform, ...) \
	do { if((mode) < 2) want_printf(__VA_ARGS__); else want_prnf(__VA_ARGS__); \
	g_calls = 0; g_injected = 0; g_fail_at = inj; \
	if(vform) ret = via_v(mode, &g_b, __VA_ARGS__); \
	else switch(mode) { case 0: ret = strbuf_printf(&g_b, __VA_ARGS__); break; case 1: ret = strbuf_append_printf(&g_b, __VA_ARGS__); break; \
	case 2: ret = strbuf_prnf(&g_b, __VA_ARGS__); break; default: ret = strbuf_append_prnf(&g_b, __VA_ARGS__); break; } \
	g_fail_at = -1; } while(0)

static const wchar_t* g_wide_bad = L"ok\x2603";
static uint64_t g_sig;
static void one(void)
{
	static char str[4200000];
	int mode = g_pn > 400000 ? rnd(2) : rnd(4), inj = -1, vform = chance(40), kind;
	bool prnf = mode >= 2;
	const char* op = mode == 0 ? "printf" : mode == 1 ? "append_printf" : mode == 2 ? "prnf" : "append_prnf";
	strview_t ret;
	char* o = g_fmt; *o = 0;
	int prior = mode & 1 ? g_pn : 0, room = g_b->capacity - prior;
	if(!prnf && chance(8)) inj = rnd(2);
	/* length of the text that decides whether it fits */
	int n;
	switch(rnd(6)) { case 0: case 1: case 2: n = room + (int)rndr(-2, 2); break; case 3: n = rnd(8); break; case 4: n = rnd(60); break; default: n = rnd_size(chance(3) ? 60000 : 3000); }
	if(n < 0) n = 0;
	if(n > 140000) n = 140000;
	/* lengths that small types cannot count */
	bool lng = rnd(300) == 0;
	if(lng) { n = (chance(50) ? 32768 : chance(70) ? 65536 : 98304) + (int)rndr(-20, 20000); vh_count("long-output"); if(prnf) vh_count("long-prnf"); }
	if(vh_rare(12000) && !prnf) { lng = true; n = (1 << 20) * (1 + (int)rnd(2)) + (int)(chance(40) ? rndr(-3, 3) : rndr(0, 2000000)); vh_count("output-over-1M"); }
	for(int i = 0; i < n; i++) str[i] = (char)rndr(1, 255);
	str[n] = 0;
	char sh[12]; int shn = rnd(11);
	for(int i = 0; i < shn; i++) sh[i] = (char)rndr(1, 255);
	sh[shn] = 0;
	uint64_t u = chance(50) ? rnd64() : rnd(1000);
	double d = chance(70) ? (double)rndr(-100000, 100000) / 64 : chance(50) ? 0.0 : (double)(float)rnd64();
	errno = 0;
	switch(kind = lng ? rnd(2) : rnd(prnf ? 8 : 11))
	{
		case 0: strcpy(g_fmt, "%s"); FORMAT(mode, vform, g_fmt, str); break;
		case 1: lit(&o, 6); o += sprintf(o, "%%s"); lit(&o, 6); FORMAT(mode, vform, g_fmt, str); break;
		case 2: lit(&o, 40); if(prnf && chance(20)) { o += sprintf(o, "\v%d-", (int)rnd(90)); lit(&o, 8); }
			#pragma GCC diagnostic push
			#pragma GCC diagnostic ignored "-Wformat-security"
			FORMAT(mode, vform, g_fmt);
			#pragma GCC diagnostic pop
			break;
		case 3: lit(&o, 3); spec(&o, prnf ? "du" : "dixXu", "", prnf); lit(&o, 3); spec(&o, prnf ? "du" : "dxu", "ll", prnf); spec(&o, "s", "", prnf); FORMAT(mode, vform, g_fmt, (int)u, (long long)(u * 0x9e3779b97f4a7c15ull), sh); break;
		case 4: { int c1 = chance(40) ? 0 : (int)rnd(256), c2 = chance(40) ? 0 : (int)rnd(256); lit(&o, 3); spec(&o, "c", "", prnf); lit(&o, 3); spec(&o, "c", "", prnf); FORMAT(mode, vform, g_fmt, c1, c2); break; }
		case 5: { int w = chance(50) ? vh_clampi(room + (int)rndr(-2, 2)) : (int)rnd(40); if(w < 0) w = 0; if(prnf && w > 100) w = 100; if(w > 60000) w = 60000; sprintf(g_fmt, "%%*%s", prnf ? "s" : chance(50) ? "s" : "s"); FORMAT(mode, vform, g_fmt, w, sh); break; }
		case 6: { int p = rnd(12); strcpy(g_fmt, n & 1 ? "%.*s" : "<%.*s>"); FORMAT(mode, vform, g_fmt, p, sh); break; }
		case 7: spec(&o, prnf ? "f" : "feEgGaF", "", prnf); lit(&o, 3); spec(&o, "s", "", prnf); FORMAT(mode, vform, g_fmt, d, sh); break;
		case 8: spec(&o, "ds", "", false); strcpy(g_fmt, "%2$s:%1$d:%2$s"); FORMAT(mode, vform, g_fmt, (int)u, sh); break;
		case 9: strcpy(g_fmt, "%s%ls"); FORMAT(mode, vform, g_fmt, sh, u % 10 < 7 ? g_wide_bad : L"plain"); break;	/* EILSEQ in the C locale */
		default: strcpy(g_fmt, "%s%*d%*d"); { bool ov = rnd(1500) == 0; FORMAT(mode, vform, g_fmt, sh, ov ? INT_MAX : 5, 1, ov ? INT_MAX : 3, 2); if(ov) vh_count("length-overflow"); break; }
	}
	int total = prior + g_en;
	bool fits = g_fixed < 0 || total <= g_fixed;
	vh_trace("%s format %s%s, %d bytes after %d in %s capacity %d%s", op, vh_q(g_fmt, strlen(g_fmt)), vform ? " (va_list)" : "", g_en, prior, g_fixed < 0 ? "dynamic" : "fixed", g_fixed, g_injected ? ", formatter failed" : g_err ? ", formatter refuses" : "");
	if(strlen(g_ops) < 300) sprintf(g_ops + strlen(g_ops), "%s:%d%s ", op, g_en, g_err || g_injected ? "!" : fits ? "" : "^");
	g_sig = vh_mix(vh_hash_bytes(g_sig + mode, g_exp, g_en), (uint64_t)(total * 4 + g_injected * 2 + fits));
	rec_shape(op, g_b, g_fixed, &g_area);
	CHECK(ret.data == g_b->cstr && ret.size == g_b->size, "C15:returned-view", "%s returned another view (size %d) than its contents (size %d)", op, ret.size, g_b->size);
	bool complete = g_b->size == total && !memcmp(g_b->cstr, g_prior, prior) && !memcmp(g_b->cstr + prior, g_exp, g_en);
	if(g_injected)
	{
		vh_count(inj == 0 ? "formatter-failed-first-pass" : "formatter-failed-second-pass");
		CHECK(g_b->size == 0 || (!g_err && fits && complete), "C15:failed-formatter", "%s: the formatter failed, the buffer holds %s", op, vh_q(g_b->cstr, g_b->size));
	}
	else if(g_err)
	{
		vh_count("formatter-refused");
		CHECK(g_b->size == 0, "C15:refused-format", "%s: the formatter reports an error for %s, the buffer holds %s", op, vh_q(g_fmt, strlen(g_fmt)), vh_q(g_b->cstr, g_b->size));
	}
	else if(!fits)
	{
		vh_count("fixed-overflow");
		CHECK(g_b->size == 0, "C15:partial", "%s of %d bytes after %d in a fixed capacity of %d left %d bytes", op, g_en, prior, g_fixed, g_b->size);
	}
	else
	{
		vh_count(prnf ? "prnf-complete" : "printf-complete");
		if(g_fixed >= 0 && total == g_fixed) vh_count("exact-fit-fixed");
		if(memchr(g_exp, 0, g_en)) vh_count("embedded-NUL");
		CHECK(complete, "C15:content", "%s %s after %s: expected %s got %s", op, vh_q(g_fmt, strlen(g_fmt)), vh_q(g_prior, prior), vh_q(g_exp, g_en), vh_q(g_b->cstr + (g_b->size >= prior ? prior : 0), g_b->size - (g_b->size >= prior ? prior : 0)));
	}
	g_pn = g_b->size;
	if(g_pn > (int)sizeof g_prior) { strbuf_assign(&g_b, cstr("")); g_pn = 0; }
	memcpy(g_prior, g_b->cstr, g_pn);
}
static void run(uint64_t ci)
{
	(void)ci;
	g_ops[0] = 0; g_pn = 0; g_sig = 5;
	int cap = chance(30) ? (int)rnd(6) : chance(60) ? (int)rnd(80) : rnd_size(5000);
	if(rnd(400) == 0) cap = 32768 * (1 + (int)rnd(4)) + (int)rndr(-20, 20);
	g_fixed = chance(50) ? cap : -1;
	if(g_fixed >= 0) g_b = rec_fixed(cap, &g_area);
	else g_b = strbuf_create(cap, &rec_al);
	CHECK(g_b != NULL, "C15:create", "creation failed");
	int k = 1 + rnd(6);
	for(int i = 0; i < k; i++)
	{
		one();
		if(chance(20))
		{
			/* usable afterwards */
			int m = rnd(g_fixed >= 0 ? g_fixed + 1 : 50); if(m > 500) m = 500;
			rnd_text(g_prior, m, -1); g_pn = m;
			strbuf_assign(&g_b, (strview_t){.data = g_prior, .size = m});
			CHECK(g_b->size == m && !memcmp(g_b->cstr, g_prior, m), "C15:unusable", "the buffer is not usable after formatting");
		}
	}
	/* null buffers are tolerated and yield an invalid view */
	if(chance(5))
	{
		strbuf_t* nb = NULL;
		for(int k = 0; k < 16; k++)
		{
			strbuf_t** pp = k & 8 ? &nb : NULL; int m = k & 3;
			strview_t r = k & 4 ? via_v(m, pp, "%d", 1) : m == 0 ? strbuf_printf(pp, "%d", 1) : m == 1 ? strbuf_append_printf(pp, "%d", 1) : m == 2 ? strbuf_prnf(pp, "%d", 1) : strbuf_append_prnf(pp, "%d", 1);
			CHECK(!strview_is_valid(r) && nb == NULL, "C15:null", "formatting to no buffer (form %d) did not return an invalid view", k);
		}
	}
	strbuf_destroy(&g_b);
	CHECK(rec_nlive == 0, "C15:leak", "%d blocks remain", rec_nlive);
	rec_reset();
	if(vh_want_sample()) vh_sample("%s capacity %d: %s", g_fixed >= 0 ? "fixed" : "dynamic", cap, g_ops);
	vh_case(g_sig, true);
}
int main(int argc, char** argv) { return vh_main(argc, argv, NULL, run); }
