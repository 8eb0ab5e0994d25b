/*	Monitors C18 (values), C19 (syntax options), C20 (floating point) and C21 (failure atomicity, default-value forms):
	an independent recogniser with 128 bit arithmetic and the C library's correctly rounded conversions as oracle. */
#include "vh.h"
#include <math.h>
#include <float.h>
#include "strnum.h"

#ifdef WATCH_CTYPE
/* <ctype.h> is defined for the values of unsigned char and EOF only; elsewhere it indexes a table out of its range */
#define WATCHED(f) int __real_##f(int); int __wrap_##f(int c) { CHECK(-1 <= c && c <= 255, "C19:classification", #f "(%d) was called: neither a value of unsigned char nor EOF", c); return __real_##f(c); }
WATCHED(isalnum) WATCHED(isalpha) WATCHED(isblank) WATCHED(iscntrl) WATCHED(isdigit) WATCHED(isgraph) WATCHED(islower)
WATCHED(isprint) WATCHED(ispunct) WATCHED(isspace) WATCHED(isupper) WATCHED(isxdigit) WATCHED(tolower) WATCHED(toupper)
#endif
static bool g_is[32];
#define IS(n) g_is[n]

/* option sets are numbered here and composed from the library's names for every call */
enum { O_BIN = 1, O_HEX = 2, O_NOBX = 4, O_NOSIGN = 8, O_NOSPACE = 16, O_NOEXP = 32 };
static int lib_opt(int o)
{
	int r = STRNUM_DEFAULT;
	if(o & O_BIN) r |= STRNUM_BASE_BIN;
	if(o & O_HEX) r |= STRNUM_BASE_HEX;
	if(o & O_NOBX) r |= STRNUM_NOBX;
	if(o & O_NOSIGN) r |= STRNUM_NOSIGN;
	if(o & O_NOSPACE) r |= STRNUM_NOSPACE;
	if(o & O_NOEXP) r |= STRNUM_NOEXP;
	return r;
}
/* ---------------------------------------------------------------- integer oracle */
typedef struct { int err; bool unspec; __int128 val; int used; bool prefixed; } iexp_t;
static bool o_space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static int o_digit(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
static iexp_t o_int(const char* t, int n, int opt, bool is_signed, __int128 lo, __int128 hi)
{
	iexp_t e = {0};
	bool bin = opt & O_BIN, hex = opt & O_HEX, neg = false;
	if(bin && hex) e.unspec = true;	/* contradictory */
	if(!t) { e.err = EINVAL; e.unspec = false; return e; }
	int i = 0, base = hex ? 16 : bin ? 2 : 10;
	if(!(opt & O_NOSPACE)) while(i < n && o_space(t[i])) i++;
	if(is_signed && !(opt & O_NOSIGN) && i < n && (t[i] == '+' || t[i] == '-')) neg = t[i++] == '-';
	if(!(opt & O_NOBX) && i + 1 < n && t[i] == '0')
	{
		char c = t[i + 1];
		if((c == 'x' || c == 'X') && !bin) { base = 16; i += 2; e.prefixed = true; }
		else if((c == 'b' || c == 'B') && !hex) { base = 2; i += 2; e.prefixed = true; }
	}
	int d0 = i; unsigned __int128 v = 0; bool big = false;
	for(; i < n && o_digit(t[i]) < base; i++)
	{
		v = v * base + o_digit(t[i]);
		if(v >> 70) big = true, v = 1;
	}
	if(i == d0) { e.err = EINVAL; return e; }
	e.val = neg ? -(__int128)v : (__int128)v;
	if(big || e.val < lo || e.val > hi) { e.err = ERANGE; return e; }
	e.used = i;
	return e;
}

/* ---------------------------------------------------------------- types */
typedef struct
{
	const char* name; bool sgn; __int128 lo, hi; int sz;
	int (*consume)(void*, strview_t*, int);
	__int128 (*read)(const void*);
	__int128 (*wrap)(strview_t, __int128, int);
} ity_t;
#define ITY(nm, T) \
	static int c_##nm(void* d, strview_t* s, int o) { return strnum_value((T*)d, s, o); } \
	static __int128 r_##nm(const void* d) { T v; memcpy(&v, d, sizeof v); return v; } \
	static __int128 w_##nm(strview_t s, __int128 d, int o) { return strnum_##nm(s, (T)d, o); }
#define IFX(nm, T) static __int128 w_##nm(strview_t s, __int128 d, int o) { return strnum_##nm(s, (T)d, o); }
ITY(uchar, unsigned char) ITY(ushort, unsigned short) ITY(uint, unsigned int) ITY(ulong, unsigned long) ITY(ullong, unsigned long long)
ITY(char, char) ITY(short, short) ITY(int, int) ITY(long, long) ITY(llong, long long)
IFX(i8, int8_t) IFX(i16, int16_t) IFX(i32, int32_t) IFX(i64, int64_t) IFX(u8, uint8_t) IFX(u16, uint16_t) IFX(u32, uint32_t) IFX(u64, uint64_t)
static const ity_t g_t[] =
{
	#define T_(nm, s, lo, hi, T) {#nm, s, lo, hi, sizeof(T), c_##nm, r_##nm, w_##nm},
	#define F_(nm, s, lo, hi, T) {#nm, s, lo, hi, sizeof(T), NULL, NULL, w_##nm},
	T_(uchar, false, 0, UCHAR_MAX, unsigned char) T_(ushort, false, 0, USHRT_MAX, unsigned short) T_(uint, false, 0, UINT_MAX, unsigned) T_(ulong, false, 0, ULONG_MAX, unsigned long) T_(ullong, false, 0, ULLONG_MAX, unsigned long long)
	T_(char, true, CHAR_MIN, CHAR_MAX, char) T_(short, true, SHRT_MIN, SHRT_MAX, short) T_(int, true, INT_MIN, INT_MAX, int) T_(long, true, LONG_MIN, LONG_MAX, long) T_(llong, true, LLONG_MIN, LLONG_MAX, long long)
	F_(i8, true, INT8_MIN, INT8_MAX, int8_t) F_(i16, true, INT16_MIN, INT16_MAX, int16_t) F_(i32, true, INT32_MIN, INT32_MAX, int32_t) F_(i64, true, INT64_MIN, INT64_MAX, int64_t)
	F_(u8, false, 0, UINT8_MAX, uint8_t) F_(u16, false, 0, UINT16_MAX, uint16_t) F_(u32, false, 0, UINT32_MAX, uint32_t) F_(u64, false, 0, UINT64_MAX, uint64_t)
};
#define NT (int)(sizeof g_t / sizeof *g_t)
static const char* q128(__int128 v)
{
	static char b[4][50]; static int k; char* p = b[k = (k + 1) & 3] + 48; *p = 0;
	unsigned __int128 u = v < 0 ? -(unsigned __int128)v : (unsigned __int128)v;
	do { *--p = '0' + (int)(u % 10); u /= 10; } while(u);
	if(v < 0) *--p = '-';
	return p;
}
static const char* qerr(int e) { return e == 0 ? "success" : e == EINVAL ? "EINVAL" : e == ERANGE ? "ERANGE" : "another error"; }
static const char* qopt(int o)
{
	static char b[100];
	sprintf(b, "options{%s%s%s%s%s%s}", o & 1 ? " BIN" : "", o & 2 ? " HEX" : "", o & 4 ? " NOBX" : "", o & 8 ? " NOSIGN" : "", o & 16 ? " NOSPACE" : "", o & 32 ? " NOEXP" : "");
	return b;
}
static bool same_view(strview_t a, strview_t b) { return a.data == b.data && a.size == b.size; }
static bool g_value_keys;
/* one conversion into one type, all observable results judged; text in guarded memory */
static void check_int(const ity_t* t, const char* p, int n, int opt)
{
	strview_t src = {.data = p, .size = n}, s0 = src;
	iexp_t e = o_int(p, n, opt, t->sgn, t->lo, t->hi);
	if(CHAR_MIN == 0 && !strcmp(t->name, "char")) e.unspec = true;
	bool strict = !e.unspec && (IS(18) || IS(19));
	const char* kv = IS(19) ? "C19:value" : "C18:value"; const char* kc = IS(19) ? "C19:consumed" : "C18:consumed"; const char* ke = IS(19) ? "C19:error" : "C18:error";
	char box[32]; memset(box, 0x6B, sizeof box); char keep[32];
	char* d = box + 8;
	if(IS(21)) switch(rnd(6))	/* what the destination held before: limits, zero, all ones, anything */
	{
		case 0: memcpy(d, &t->lo, t->sz); break;
		case 1: memcpy(d, &t->hi, t->sz); break;
		case 2: memset(d, 0, t->sz); break;
		case 3: memset(d, 0xFF, t->sz); break;
		case 4: { uint64_t x = rnd64(); memcpy(d, &x, t->sz); break; }
		default: break;
	}
	memcpy(keep, box, sizeof box);
	int err = 0; __int128 got = 0;
	if(t->consume)
	{
		err = t->consume(d, &src, lib_opt(opt));
		if(vh.trace) vh_trace("%s of %s %s: %s", t->name, vh_q(p, n), qopt(opt), qerr(err));
		if(strict) CHECK(err == e.err, ke, "%s of %s %s: %s, expected %s (%s)", t->name, vh_q(p, n), qopt(opt), qerr(err), qerr(e.err), q128(e.val));
		if(!err)
		{
			got = t->read(d);
			if(strict)
			{
				CHECK(got == e.val, kv, "%s of %s %s: value %s, expected %s", t->name, vh_q(p, n), qopt(opt), q128(got), q128(e.val));
				CHECK(src.size == n - e.used && (!src.size || src.data == p + e.used), kc, "%s of %s %s: %d of %d characters remain, expected %d", t->name, vh_q(p, n), qopt(opt), src.size, n, n - e.used);
				CHECK(!strview_is_valid(src) || (src.data >= p && src.data <= p + n), kc, "%s of %s: the remaining view left the text", t->name, vh_q(p, n));
			}
			memcpy(keep + 8, d, t->sz);
		}
		if(IS(21))
		{
			if(err)
			{
				CHECK(same_view(src, s0), "C21:source-changed", "%s of %s %s failed (%s) but changed the source view", t->name, vh_q(p, n), qopt(opt), qerr(err));
				CHECK(!memcmp(box, keep, sizeof box), "C21:destination-changed", "%s of %s %s failed (%s) but changed the destination", t->name, vh_q(p, n), qopt(opt), qerr(err));
				vh_count(err == EINVAL ? "failed-EINVAL" : "failed-ERANGE");
			}
			else vh_count("succeeded");
			/* a null destination still validates and consumes */
			strview_t s2 = s0; int e2 = t->consume(NULL, &s2, lib_opt(opt));
			CHECK(e2 == err && same_view(s2, src), "C21:null-destination", "%s of %s %s without destination: %s leaving %d, with: %s leaving %d", t->name, vh_q(p, n), qopt(opt), qerr(e2), s2.size, qerr(err), src.size);
			memcpy(keep, box, sizeof box);
			e2 = t->consume(d, NULL, lib_opt(opt));
			CHECK(e2 == EINVAL && !memcmp(box, keep, sizeof box), "C21:null-source", "%s without source: %s", t->name, qerr(e2));
			CHECK(t->consume(NULL, NULL, lib_opt(opt)) == EINVAL, "C21:null-source", "%s without source and destination", t->name);
		}
		CHECK(!memcmp(box, keep, 8) && !memcmp(box + 8 + t->sz, keep + 8 + t->sz, sizeof box - 8 - t->sz), "overrun", "%s of %s wrote outside the destination", t->name, vh_q(p, n));
	}
	if(IS(21) || (IS(18) && (!t->consume || chance(20))))
	{
		/* default-value form: any value of the type as default */
		__int128 dflt = chance(30) ? t->lo : chance(40) ? t->hi : t->lo + (__int128)(rnd64() % (uint64_t)(t->hi - t->lo ? t->hi - t->lo : 1));
		__int128 w = t->wrap(s0, dflt, lib_opt(opt));
		if(!e.unspec)
			CHECK(w == (e.err ? dflt : e.val), IS(21) ? "C21:default-form" : "C18:default-form", "strnum_%s of %s default %s %s: %s, expected %s", t->name, vh_q(p, n), q128(dflt), qopt(opt), q128(w), q128(e.err ? dflt : e.val));
		else if(t->consume)
			CHECK(w == (err ? dflt : got), IS(21) ? "C21:default-form" : "C18:default-form", "strnum_%s of %s %s differs from the consuming form", t->name, vh_q(p, n), qopt(opt));
	}
	if(strict && t->consume)
	{
		if(e.err == ERANGE) vh_count("out-of-range"); else if(e.err) vh_count("no-number"); else if(e.val == t->lo || e.val == t->hi) vh_count("at-limit"); else vh_count("in-range");
		if(e.prefixed) vh_count("prefixed");
	}
}

/* ---------------------------------------------------------------- floating point oracle */
typedef struct { int err; enum { NUM, INF, NANV } kind; bool neg, has_exp, exp_big; int used; int ndig; long double digits, val; bool zero; } fexp_t;
static bool o_word(const char* t, int n, const char* w)
{
	int l = strlen(w);
	if(n < l) return false;
	for(int i = 0; i < l; i++) if((t[i] | 0x20) != w[i] || !((t[i] >= 'a' && t[i] <= 'z') || (t[i] >= 'A' && t[i] <= 'Z'))) return false;
	return true;
}
#define MAXTXT 90000
static fexp_t o_flt(const char* t, int n, int opt)
{
	static char b[MAXTXT + 100];
	fexp_t e = {0};
	if(!t) { e.err = EINVAL; return e; }
	int i = 0, o = 0, nd = 0;
	if(!(opt & O_NOSPACE)) while(i < n && o_space(t[i])) i++;
	if(!(opt & O_NOSIGN) && i < n && (t[i] == '+' || t[i] == '-')) e.neg = t[i++] == '-';
	if(o_word(t + i, n - i, "infinity")) { e.kind = INF; e.used = i + 8; return e; }
	if(o_word(t + i, n - i, "inf")) { e.kind = INF; e.used = i + 3; return e; }
	if(o_word(t + i, n - i, "nan")) { e.kind = NANV; e.used = i + 3; return e; }
	e.zero = true;
	for(; i < n && t[i] >= '0' && t[i] <= '9'; i++, nd++) { b[o++] = t[i]; if(t[i] != '0') e.zero = false; }
	if(i < n && t[i] == '.')
	{
		int k = i + 1;
		while(k < n && t[k] >= '0' && t[k] <= '9') k++;
		if(nd || k > i + 1)
		{
			if(!nd) b[o++] = '0';
			b[o++] = '.';
			for(i++; i < k; i++, nd++) { b[o++] = t[i]; if(t[i] != '0') e.zero = false; }
		}
	}
	if(!nd) { e.err = EINVAL; return e; }
	e.ndig = nd;
	b[o] = 0;
	e.digits = strtold(b, NULL);
	if(!(opt & O_NOEXP) && i < n && (t[i] | 0x20) == 'e')
	{
		int k = i + 1; bool xn = false;
		/* an exponent's sign is part of the number whether or not the number may be signed */
		if(k < n && (t[k] == '+' || t[k] == '-')) xn = t[k++] == '-';
		int k0 = k; int64_t x = 0;
		while(k < n && t[k] >= '0' && t[k] <= '9') { if(x < (1ll << 40)) x = x * 10 + (t[k] - '0'); k++; }
		if(k > k0)
		{
			e.has_exp = true;
			if(xn) x = -x;
			if(x > INT_MAX || x < INT_MIN) e.exp_big = true;
			o += sprintf(b + o, "e%lld", (long long)x);
			i = k;
		}
	}
	b[o] = 0;
	e.val = strtold(b, NULL);
	e.used = i;
	return e;
}
typedef struct
{
	const char* name; int sz; long double min, max, eps;
	int (*consume)(void*, strview_t*, int);
	long double (*read)(const void*);
	void (*wrap)(void* out, strview_t, const void* dflt, int);
} fty_t;
#define FTY(nm, T) \
	static int c_##nm(void* d, strview_t* s, int o) { return strnum_value((T*)d, s, o); } \
	static long double r_##nm(const void* d) { T v; memcpy(&v, d, sizeof v); return v; } \
	static void w_##nm(void* out, strview_t s, const void* df, int o) { T d; memcpy(&d, df, sizeof d); d = strnum_##nm(s, d, o); memcpy(out, &d, sizeof d); }
FTY(float, float) FTY(double, double) FTY(ldouble, long double)
static const fty_t g_f[3] =
{
	{"float", 4, FLT_MIN, FLT_MAX, FLT_EPSILON, c_float, r_float, w_float},
	{"double", 8, DBL_MIN, DBL_MAX, DBL_EPSILON, c_double, r_double, w_double},
	{"ldouble", 10, LDBL_MIN, LDBL_MAX, LDBL_EPSILON, c_ldouble, r_ldouble, w_ldouble},
};
static bool same_float(const fty_t* f, const void* a, const void* b)
{
	long double x = f->read(a), y = f->read(b);
	return (isnan(x) && isnan(y)) || (x == y && signbit(x) == signbit(y));
}
static void check_flt(const fty_t* f, const char* p, int n, int opt)
{
	const bool strict = IS(20) || IS(19);
	#define K(x) (IS(19) ? "C19:float-" x : "C20:" x)
	strview_t src = {.data = p, .size = n}, s0 = src;
	fexp_t e = o_flt(p, n, opt);
	char box[48]; memset(box, 0x6B, sizeof box); char keep[48];
	char* d = box + 16;
	if(IS(21) && chance(60))	/* what the destination held before */
	{
		long double x = chance(20) ? NAN : chance(20) ? (long double)INFINITY : chance(20) ? 0 : chance(20) ? f->max : f->min;
		if(chance(30)) x = -x;
		if(f->sz == 4) { float y = x; memcpy(d, &y, 4); } else if(f->sz == 8) { double y = x; memcpy(d, &y, 8); } else memcpy(d, &x, 10);
	}
	memcpy(keep, box, sizeof box);
	int err = f->consume(d, &src, lib_opt(opt));
	long double v = err ? 0 : f->read(d);
	if(vh.trace) vh_trace("%s of %s %s: %s %.21Lg, oracle %s %.21Lg%s", f->name, vh_q(p, n), qopt(opt), qerr(err), v, qerr(e.err), e.val, e.kind ? " (special)" : "");
	if(strict)
	{
		CHECK(!err || err == EINVAL || err == ERANGE, K("error"), "%s of %s %s: error %d", f->name, vh_q(p, n), qopt(opt), err);
		if(e.err == EINVAL) { CHECK(err == EINVAL, K("error"), "%s of %s %s: %s, there is no number", f->name, vh_q(p, n), qopt(opt), qerr(err)); vh_count("no-number"); }
		else
		{
			CHECK(err != EINVAL, K("error"), "%s of %s %s: EINVAL, there is a number of %d characters", f->name, vh_q(p, n), qopt(opt), e.used);
			if(!err) CHECK(src.size == n - e.used && (!src.size || src.data == p + e.used), K("consumed"), "%s of %s %s: %d of %d characters remain, expected %d", f->name, vh_q(p, n), qopt(opt), src.size, n, n - e.used);
			if(e.kind == INF) { CHECK(!err && isinf(v) && !!signbit(v) == e.neg, K("special"), "%s of %s: %s %Lg", f->name, vh_q(p, n), qerr(err), v); vh_count("infinity"); }
			else if(e.kind == NANV) { CHECK(!err && isnan(v), K("special"), "%s of %s: %s %Lg", f->name, vh_q(p, n), qerr(err), v); vh_count("nan"); }
			else
			{
				if(!err) CHECK(!isnan(v) && !isinf(v), K("invented"), "%s of %s %s: numeric text became %Lg", f->name, vh_q(p, n), qopt(opt), v);
				if(!err) CHECK(!!signbit(v) == e.neg, K("sign"), "%s of %s %s: %.21Lg has the wrong sign", f->name, vh_q(p, n), qopt(opt), v);
				long double a = fabsl(v);
				if(e.exp_big) vh_count("exponent-beyond-int");
				else if(e.zero) { CHECK(!err && v == 0, K("zero"), "%s of %s %s: %s %Lg, expected zero", f->name, vh_q(p, n), qopt(opt), qerr(err), v); vh_count(e.has_exp ? "zero-with-exponent" : "zero"); }
				else if(e.digits < f->min || e.digits > f->max * (1 - 64 * f->eps)) vh_count("digits-outside-range");
				else if(e.val < f->min * (1 + 64 * f->eps))
				{
					vh_count("underflow");
					if(!err) CHECK(a <= f->min * (1 + 128 * f->eps), K("underflow"), "%s of %s %s: %.21Lg, the value is below the normal range", f->name, vh_q(p, n), qopt(opt), v);
				}
				else if(isinf(e.val) || e.val > f->max * (1 + 64 * f->eps)) { CHECK(err == ERANGE, K("overflow"), "%s of %s %s: %s %.21Lg, expected ERANGE", f->name, vh_q(p, n), qopt(opt), qerr(err), v); vh_count("overflow"); }
				else if(e.val > f->max * (1 - 64 * f->eps)) vh_count("near-overflow");
				else
				{
					CHECK(!err, K("error"), "%s of %s %s: %s, the value %.21Lg is representable", f->name, vh_q(p, n), qopt(opt), qerr(err), e.val);
					long double rel = fabsl(a - e.val) / e.val;
					CHECK(rel <= 4 * f->eps, K("accuracy"), "%s of %s %s: %.21Lg, true value %.21Lg, relative error %Lg (%.1Lf eps)", f->name, vh_q(p, n), qopt(opt), v, e.val, rel, rel / f->eps);
					vh_count(rel == 0 ? "exact" : rel <= f->eps ? "within-1-eps" : rel <= 2 * f->eps ? "within-2-eps" : "within-4-eps");
					if(e.ndig > 20) vh_count("more-than-20-digits");
				}
			}
		}
	}
	if(IS(21))
	{
		strview_t s2 = s0; int e2 = f->consume(NULL, &s2, lib_opt(opt));
		CHECK(e2 == err && same_view(s2, src), "C21:null-destination", "%s of %s %s without destination: %s leaving %d, with: %s leaving %d", f->name, vh_q(p, n), qopt(opt), qerr(e2), s2.size, qerr(err), src.size);
		if(err)
		{
			CHECK(same_view(src, s0), "C21:source-changed", "%s of %s %s failed (%s) but changed the source view", f->name, vh_q(p, n), qopt(opt), qerr(err));
			CHECK(!memcmp(box, keep, sizeof box), "C21:destination-changed", "%s of %s %s failed (%s) but changed the destination", f->name, vh_q(p, n), qopt(opt), qerr(err));
			vh_count(err == EINVAL ? "failed-EINVAL" : "failed-ERANGE");
		}
		else vh_count("succeeded");
		char box2[48]; memcpy(box2, box, sizeof box);
		e2 = f->consume(d, NULL, lib_opt(opt));
		CHECK(e2 == EINVAL && !memcmp(box, box2, sizeof box), "C21:null-source", "%s without source: %s", f->name, qerr(e2));
		char df[16] = {0}, out[16] = {0};
		switch(f->sz)
		{
			case 4: { float x = chance(20) ? NAN : chance(20) ? -INFINITY : chance(20) ? -0.0f : (float)rndr(-100000, 100000) / 8; memcpy(df, &x, 4); break; }
			case 8: { double x = chance(20) ? NAN : chance(20) ? -INFINITY : chance(20) ? -0.0 : chance(20) ? DBL_MAX : (double)rndr(-100000, 100000) / 8; memcpy(df, &x, 8); break; }
			default: { long double x = chance(20) ? NAN : chance(20) ? INFINITY : chance(20) ? -0.0L : chance(20) ? LDBL_MAX : (long double)rndr(-100000, 100000) / 8; memcpy(df, &x, 10); break; }
		}
		f->wrap(out, s0, df, lib_opt(opt));
		CHECK(same_float(f, out, err ? df : d), "C21:default-form", "strnum_%s of %s %s: %Lg, expected %Lg", f->name, vh_q(p, n), qopt(opt), f->read(out), f->read(err ? df : d));
	}
	memcpy(keep + 16, d, f->sz == 10 ? 16 : f->sz);
	CHECK(!memcmp(box, keep, sizeof box), "overrun", "%s of %s wrote outside the destination", f->name, vh_q(p, n));
}

/* ---------------------------------------------------------------- texts */
static char g_b[MAXTXT]; static int g_n;
static void put(const char* s) { int l = strlen(s); if(g_n + l < MAXTXT) { memcpy(g_b + g_n, s, l); g_n += l; } }
static void putc_(char c) { if(g_n < MAXTXT) g_b[g_n++] = c; }
static void put_base(unsigned __int128 v, int base)
{
	char t[140]; int k = sizeof t; t[--k] = 0;
	do { int d = (int)(v % base); t[--k] = (d < 10 ? '0' : chance(50) ? 'a' - 10 : 'A' - 10) + d; v /= base; } while(v);
	put(t + k);
}
static void junk(void)
{
	if(chance(40)) return;
	int k = 1 + rnd(4);
	while(k--) putc_(chance(50) ? " +-.eExXbB09afgG,_/:\0\xb0\xb1\xb2\xe0"[rnd(26)] : (char)rnd(256));
}
static const char* g_ws[] = {"", "", "", " ", "  ", "\t", "\n", "\v", "\f", "\r", " \t\r\n", "\x1c", "\xa0", "\x08", "\x0e"};
/* a number near a limit of some type in some base */
static void gen_int(void)
{
	const ity_t* t = &g_t[rnd(NT)];
	unsigned __int128 v; bool neg = false;
	static const unsigned __int128 one = 1;
	switch(rnd(12))
	{
		case 9: /* a limit with one digit changed */
		{
			v = chance(60) ? (unsigned __int128)t->hi : (unsigned __int128)(-t->lo);
			int b = chance(50) ? 10 : 1 << (1 + 3 * rnd(2)); unsigned __int128 p = 1; int k = rnd(b == 2 ? 64 : 20); while(k--) p *= b;
			if(p > v * b) p = 1;
			unsigned __int128 d = v / p % b; v = v - d * p + p * rnd(b);
			if(chance(30)) { v = v / p * p; if(chance(50)) v += rnd(3); }
			neg = chance(30);
			break;
		}
		case 10: v = (unsigned __int128)t->hi + (int)rndr(-400, 400) * (t->hi > 500); if(chance(50)) v = v / 10 * 10 + rnd(2); break;
		case 11: v = (unsigned __int128)(-t->lo) + (int)rndr(-400, 400) * (-t->lo > 500); neg = true; if(chance(50)) v = v / 10 * 10; break;
		case 0: case 1: v = (unsigned __int128)t->hi + (int)rndr(-3, 3) * (t->hi > 4); break;
		case 2: v = (unsigned __int128)(-t->lo) + rnd(4); neg = true; if(t->lo && chance(50)) v -= rnd(4); break;
		case 3: v = (one << rnd(70)) + rnd(3) - 1; break;
		case 4: { v = 1; int k = rnd(22); while(k--) v *= 10; v += rnd(3); v -= 1; break; }
		case 5: v = rnd64(); break;
		case 6: v = ((unsigned __int128)rnd64() << 64 | rnd64()) >> rnd(128); break;
		case 7: v = rnd(20); break;
		default: v = (unsigned __int128)UINT_MAX / 10 * (1 + rnd(11)) + rnd(30); break;	/* switch points of staged accumulation */
	}
	if(chance(25)) neg = !neg;
	put(g_ws[rnd(15)]);
	int very_long = rnd(2000) == 0 ? 1 + (int)rnd(3) : 0;	/* counts beyond 16 bits */
	if(very_long == 1) for(int k = 65400 + rnd(300); k--; ) putc_(' ');
	if(neg) putc_('-'); else if(chance(15)) putc_('+');
	int base = chance(50) ? 10 : chance(60) ? 16 : 2;
	if(base != 10 && chance(75)) put(base == 16 ? (chance(50) ? "0x" : "0X") : (chance(50) ? "0b" : "0B"));
	if(chance(25)) { int z = rnd(chance(10) ? 300 : 20); while(z--) putc_('0'); }
	if(very_long == 2) for(int k = 65400 + rnd(300); k--; ) putc_('0');
	put_base(v, base);
	if(chance(10)) { int k = rnd(chance(10) ? 200 : 5); while(k--) putc_('0' + rnd(base == 2 ? 2 : 10)); }
	junk();
	if(very_long == 3) for(int k = 65400 + rnd(300); k--; ) putc_(" ,;9"[rnd(3)]);
	if(very_long) vh_count("longer-than-65000");
}
/* pieces that interact: spaces, signs, prefixes, digits, exponents */
static void gen_syntax(void)
{
	static const char* pieces[] = {" ", "\t", "+", "-", "0", "0x", "0X", "0b", "0B", "1", "101", "9", "7f", "AF", "b", "B1", "x", "2", "g", "G", "e", "E5", "e-3", "e+", ".", "\xb1", "\xb0", "\x30\x78", "inf", "nan", "\n", "\v", "/", ":", "@", "`", "\xe1"};
	int k = 1 + rnd(6);
	while(k--) put(pieces[rnd(sizeof pieces / sizeof *pieces)]);
	if(chance(15)) junk();
}
static void digits(int k, int style)
{
	for(int i = 0; i < k; i++) putc_(style == 0 ? '0' : style == 1 ? '9' : style == 2 ? (i == k - 1 ? '1' : '0') : style == 3 ? (i == 0 ? '1' : '0') : '0' + rnd(10));
}
static int digit_count(void)
{
	switch(rnd(9)) { case 0: return 0; case 1: return 1; case 2: return rnd(4); case 3: case 4: return rnd(20); case 5: return 17 + rnd(6); case 6: return rnd(45); case 7: return rnd(100); default: return chance(80) ? rnd(330) : rnd(5200); }
}
static void gen_flt(void)
{
	int very_long = rnd(2500) == 0 ? 1 + (int)rnd(6) : 0;	/* counts beyond 16 bits */
	if(very_long) vh_count("longer-than-65000");
	#define MANY (65400 + (int)rnd(300))
	put(g_ws[rnd(15)]);
	if(very_long == 1) for(int k = MANY; k--; ) putc_(" \t\n"[rnd(3)]);
	if(chance(40)) putc_("+-"[rnd(2)]);
	if(chance(6))
	{
		static const char* w[] = {"inf", "infinity", "nan", "INF", "Infinity", "NaN", "infinit", "in", "na", "nan(12)", "infinityx", "infe5", "-inf", "INFINITY", "iNf", "nano"};
		put(w[rnd(16)]); junk(); return;
	}
	int a = digit_count(), b = chance(60) ? digit_count() : 0;
	if(very_long == 3) { a = 1 + rnd(8); b = 1 + rnd(8); }
	if(chance(25)) { digits(1 + rnd(chance(10) ? 60 : 5), 0); }
	if(very_long == 2) digits(MANY, 0);
	digits(a, rnd(10));
	int lead = 0;
	if(b || chance(15)) putc_('.');
	if(b)
	{
		if(chance(40)) { lead = chance(70) ? (int)rnd(44) : chance(70) ? (int)rnd(320) : (int)rnd(5000); digits(lead, 0); }
		digits(b, rnd(10));
		if(chance(20)) digits(1 + rnd(30), 0);
		if(very_long == 3) digits(MANY, chance(50) ? 0 : 10);
	}
	if(chance(60))
	{
		putc_("eE"[rnd(2)]);
		int64_t x;
		switch(rnd(10))
		{
			case 0: case 1: case 2: x = rndr(-8, 8); break;
			case 3: x = rndr(-50, 50); break;
			case 4: x = rndr(-330, 330); break;
			case 5: x = rndr(-5000, 5000); break;
			case 6: x = -(int64_t)a + rndr(-40, 40); break;
			case 7: x = (int64_t)lead + rndr(-40, 40); break;
			case 8: x = chance(50) ? (chance(50) ? INT_MAX : INT_MIN) : chance(50) ? (int64_t)INT_MAX + rndr(-2, 3) : (int64_t)INT_MIN + rndr(-3, 2); break;
			default: x = chance(50) ? 38 + rndr(-3, 3) : 308 + rndr(-3, 3); if(chance(50)) x = -x; break;
		}
		if(x < 0) putc_('-'); else if(chance(30)) putc_('+');
		if(chance(10)) digits(rnd(30), 0);
		if(very_long == 4) digits(MANY, 0);
		char t[30]; sprintf(t, "%lld", (long long)(x < 0 ? -x : x));
		if(chance(93)) put(t);
	}
	junk();
	if(very_long > 4) for(int k = MANY; k--; ) putc_(" ,;x"[rnd(4)]);
}
/* every text of up to 4 characters that matter, then random ones */
static const char g_alpha[] = " -+0xXbB1a9g.e\xb1\t";
static uint64_t n_enum(int maxlen) { uint64_t s = 0, p = 1; for(int i = 0; i <= maxlen; i++) { s += p; p *= sizeof g_alpha - 1; } return s; }
static void enum_text(uint64_t k)
{
	uint64_t p = 1; int len = 0;
	while(k >= p) { k -= p; p *= sizeof g_alpha - 1; len++; }
	g_n = len;
	for(int i = 0; i < len; i++) { g_b[i] = g_alpha[k % (sizeof g_alpha - 1)]; k /= sizeof g_alpha - 1; }
}
static void run(uint64_t ci)
{
	g_n = 0;
	bool enumerated = false, flt = false;
	if(IS(19) || IS(21))
	{
		int ml = !strcmp(vh.tier, "quick") ? 3 : IS(19) ? 4 : 3;
		if(ci < n_enum(ml)) { enum_text(ci); enumerated = true; vh_count("enumerated"); }
		else switch(rnd(IS(19) ? 4 : 3)) { case 0: gen_int(); break; case 1: gen_flt(); break; default: gen_syntax(); }
	}
	else if(IS(20)) { flt = true; if(chance(8)) gen_syntax(); else gen_flt(); }
	else { if(chance(12)) gen_syntax(); else gen_int(); }
	if(IS(18) && chance(3)) { g_n = chance(50) ? 0 : 1; }
	char* p = NULL;
	#ifndef VH_MSAN
	if(!enumerated && rnd(2000) == 0)
	{
		/* the text begins a view of about INT_MAX bytes; only its beginning is ever touched */
		static char* hv; static int before;
		if(!hv) hv = mmap(NULL, (size_t)INT_MAX + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if(hv != MAP_FAILED)
		{
			memset(hv, 0, before); memcpy(hv, g_b, g_n); before = g_n; p = hv;
			g_n = chance(40) ? INT_MAX - (int)rnd(3) : (int)rndr(1 << 30, INT_MAX);
			vh_count("huge-view");
		}
	}
	#endif
	if(!p) { p = vh_place(g_b, g_n, chance(70)); vh_protect(p); }
	uint64_t sig = vh_mix(vh_hash_bytes(3, p, g_n < MAXTXT ? g_n : 1000), (uint64_t)g_n);
	if(IS(18))
	{
		int opt = 0;
		if(chance(25)) opt |= O_HEX; else if(chance(25)) opt |= O_BIN;
		if(chance(10)) opt |= O_NOBX;
		if(chance(5)) opt |= O_NOSIGN;
		for(int i = 0; i < NT; i++) check_int(&g_t[i], p, g_n, opt);
		sig = vh_mix(sig, opt);
		if(chance(2)) for(int i = 0; i < NT; i++) check_int(&g_t[i], NULL, 0, opt);
	}
	else if(IS(19))
	{
		for(int opt = 0; opt < 64; opt++)
		{
			if(!(opt & 32)) { check_int(&g_t[7], p, g_n, opt); check_int(&g_t[2], p, g_n, opt); if(chance(10)) check_int(&g_t[rnd(NT)], p, g_n, opt); }
			else if(chance(10)) check_int(&g_t[rnd(10)], p, g_n, opt);
			if(opt < 3 || !(opt & 7)) check_flt(&g_f[1], p, g_n, opt);
		}
	}
	else if(flt)
	{
		int opt = chance(20) ? (int)rnd(64) : 0;
		for(int i = 0; i < 3; i++) check_flt(&g_f[i], p, g_n, opt);
		if(chance(1)) for(int i = 0; i < 3; i++) check_flt(&g_f[i], NULL, 0, opt);
		sig = vh_mix(sig, opt);
	}
	else
	{
		int opts[4] = {0, (int)rnd(64), (int)rnd(64), 1 << rnd(6)};
		for(int k = 0; k < 4; k++)
		{
			for(int i = 0; i < NT; i++) check_int(&g_t[i], p, g_n, opts[k]);
			for(int i = 0; i < 3; i++) check_flt(&g_f[i], p, g_n, opts[k]);
		}
		if(chance(5)) { check_int(&g_t[rnd(10)], NULL, 0, opts[1]); check_flt(&g_f[rnd(3)], NULL, 0, opts[1]); }
		sig = vh_mix(sig, (uint64_t)opts[1] << 6 | opts[2]);
	}
	if(!enumerated && vh_want_sample()) vh_sample("%s", vh_q(p, g_n));
	vh_case(sig, g_n > 0);
}
static void init(int argc, char** argv)
{
	(void)argc; (void)argv; (void)g_value_keys;
	int n = atoi(vh.prop + 1);
	if(n > 0 && n < 32) g_is[n] = true;
}
int main(int argc, char** argv) { return vh_main(argc, argv, init, run); }
