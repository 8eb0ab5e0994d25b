/*	Monitor C23: packed integers.  Sequences of packs of every integer type and both orders are compared byte for byte with
	an encoding written here, and the matching unpacks are made from read-only copies at every alignment. */
#include "rec.h"
#include "strbuf_pack.h"
#include "strview_unpack.h"
/* id, type, bytes, signed */
#define TYPES(X) \
	X(0, int8_t) X(1, uint8_t) X(2, int16_t) X(3, uint16_t) X(4, int32_t) X(5, uint32_t) X(6, int64_t) X(7, uint64_t) \
	X(8, char) X(9, long) X(10, unsigned long) X(11, long long) X(12, unsigned long long) X(13, short) X(14, unsigned short) X(15, int)
#define NT 16
#define X(i, t) #t,
static const char* t_name[NT] = { TYPES(X) };
#undef X
#define X(i, t) sizeof(t),
static const unsigned t_size[NT] = { TYPES(X) };
#undef X
static struct { int type, be; uint64_t v; } it[64];
static int ni;
static strbuf_t* g_b; static int g_fixed; static rec_area_t g_area;
static unsigned char g_exp[72000]; static int g_en;
static uint64_t rnd_value(int bytes)
{
	uint64_t m = bytes == 8 ? ~0ull : (1ull << (8 * bytes)) - 1;
	switch(rnd(9))
	{
		case 0: return rnd(3) & m;
		case 1: return (0 - rnd(3)) & m;
		case 2: return ((m >> 1) + rnd(3)) & m;
		case 3: return (1ull << rnd(8 * bytes)) & m;
		case 4: return ~(1ull << rnd(8 * bytes)) & m;
		case 5: return 0x0102030405060708ull >> (8 * rnd(8)) & m;
		case 6: return 0x8081828384858687ull & m;
		case 7: return (0xffull << (8 * rnd(bytes))) & m;
		default: return rnd64() & m;
	}
}
#ifdef VH_FALLBACK
	#define CONST	/* some implementations of the macros can't take a const operand */
#else
	#define CONST const
#endif
static int shape_n;	/* ways to write the operand */
static void pack(int ty, int be, uint64_t v)
{
	int how = rnd(6);
	switch(ty)
	{
	#define X(i, t) case i: { t x = (t)v, a[3] = {0, (t)v, 0}; CONST t c = (t)v; struct {char pad; t m;} s = {0, (t)v}; t* p = &a[1]; t y = (t)~v; bool yes = true; \
		if(be) switch(how) { \
			case 0: STRBUF_PACK_BE(&g_b, x); break; case 1: STRBUF_PACK_BE(&g_b, a[1]); break; case 2: STRBUF_PACK_BE(&g_b, c); break; \
			case 3: STRBUF_PACK_BE(&g_b, s.m); break; case 4: STRBUF_PACK_BE(&g_b, *p); break; default: if(yes) STRBUF_PACK_BE(&g_b, (t)(yes ? x : y)); else STRBUF_PACK_LE(&g_b, y); break; } \
		else switch(how) { \
			case 0: STRBUF_PACK_LE(&g_b, x); break; case 1: STRBUF_PACK_LE(&g_b, a[1]); break; case 2: STRBUF_PACK_LE(&g_b, c); break; \
			case 3: STRBUF_PACK_LE(&g_b, s.m); break; case 4: STRBUF_PACK_LE(&g_b, *p); break; default: if(yes) STRBUF_PACK_LE(&g_b, (t)(yes ? x : y)); else STRBUF_PACK_BE(&g_b, y); break; } \
		CHECK(x == (t)v && a[0] == 0 && a[1] == (t)v && a[2] == 0 && s.m == (t)v && s.pad == 0, "C23:operand", "packing a " #t " changed its operand"); \
		break; }
	TYPES(X)
	#undef X
	}
	shape_n |= 1 << how;
}
static uint64_t unpack(int ty, int be, strview_t* view)
{
	uint64_t r = 0;
	strview_t vv[3] = {STRVIEW_INVALID, *view, STRVIEW_INVALID};
	switch(ty)
	{
	#define X(i, t) case i: { struct {unsigned char g0; t m; unsigned char g1;} __attribute__((packed)) pk; t a[3] = {1, 2, 3}, *p = &a[1]; t got; (void)pk; \
		switch(rnd(3)) { \
			case 0: { t x; if(be) STRVIEW_UNPACK_BE(x, *view); else STRVIEW_UNPACK_LE(x, *view); got = x; break; } \
			case 1: if(be) STRVIEW_UNPACK_BE(*p, *view); else STRVIEW_UNPACK_LE(*p, *view); got = a[1]; \
				CHECK(a[0] == 1 && a[2] == 3, "C23:destination", "unpacking a " #t " changed its neighbours"); break; \
			default: if(be) STRVIEW_UNPACK_BE(a[1], vv[1]); else STRVIEW_UNPACK_LE(a[1], vv[1]); got = a[1]; *view = vv[1]; \
				CHECK(a[0] == 1 && a[2] == 3, "C23:destination", "unpacking a " #t " changed its neighbours"); break; } \
		r = (uint64_t)got; break; }
	TYPES(X)
	#undef X
	}
	return t_size[ty] == 8 ? r : r & ((1ull << (8 * t_size[ty])) - 1);
}
static uint64_t swap(int ty, uint64_t v)
{
	uint64_t r = 0;
	switch(ty)
	{
	#define X(i, t) case i: { t x = (t)v; t s = (t)xendian_SWAP(x); t back = (t)xendian_SWAP(s); \
		CHECK(back == x, "C23:involution", "swapping a " #t " twice turned %#llx into %#llx", (unsigned long long)v, (unsigned long long)back); \
		t rev = 0; for(unsigned k = 0; k < sizeof(t); k++) ((unsigned char*)&rev)[k] = ((unsigned char*)&x)[sizeof(t) - 1 - k]; \
		CHECK((__int128)xendian_SWAP(x) == (__int128)rev && sizeof(xendian_SWAP(x)) == sizeof(t), "C23:swap", "swapping a " #t " %#llx gave another value or type", (unsigned long long)v); \
		t pb = xendian_pack_BE(x), ub = xendian_unpack_BE(x), pl = xendian_pack_LE(x), ul = xendian_unpack_LE(x); \
		CHECK(pb == ub && pl == ul, "C23:conversions", "pack and unpack conversions of a " #t " differ"); \
		unsigned char eb[8], mb[8]; memcpy(mb, &pb, sizeof pb); for(unsigned k = 0; k < sizeof(t); k++) eb[k] = (unsigned char)((uint64_t)v >> (8 * (sizeof(t) - 1 - k))); \
		CHECK(!memcmp(eb, mb, sizeof(t)), "C23:conversions", "xendian_pack_BE of " #t " %#llx is wrong", (unsigned long long)v); \
		memcpy(mb, &pl, sizeof pl); for(unsigned k = 0; k < sizeof(t); k++) eb[k] = (unsigned char)((uint64_t)v >> (8 * k)); \
		CHECK(!memcmp(eb, mb, sizeof(t)), "C23:conversions", "xendian_pack_LE of " #t " %#llx is wrong", (unsigned long long)v); \
		r = (uint64_t)s; break; }
	TYPES(X)
	#undef X
	}
	return r;
}
static void run(uint64_t ci)
{
	uint64_t sig = 0, ev = vh.events;
	(void)ci;
	ni = 1 + rnd(chance(10) ? 60 : 12); g_en = rnd(chance(20) ? 900 : 9); if(rnd(1500) == 0) g_en = 65536 - (int)rnd(600) + (int)rnd(600);
	int total = g_en;
	for(int i = 0; i < ni; i++)
	{
		it[i].type = rnd(NT); it[i].be = rnd(2); it[i].v = rnd_value(t_size[it[i].type]);
		total += t_size[it[i].type];
		sig = vh_mix(sig, it[i].type * 2 + it[i].be); sig = vh_mix(sig, it[i].v);
		swap(it[i].type, it[i].v);
	}
	static char pre[71000]; rnd_text(pre, g_en, -1);
	bool over = false;
	if(chance(50)) { g_fixed = -1; g_b = strbuf_create(chance(50) ? 0 : rnd(total + 1), &rec_al); }
	else
	{
		g_fixed = total + (chance(40) ? 0 : (int)rnd(20));
		if(chance(15)) { g_fixed = total - 1 - rnd(total > 8 ? 8 : total); over = true; }
		g_b = rec_fixed(g_fixed, &g_area);
	}
	if(!over || g_en <= g_fixed) strbuf_assign(&g_b, (strview_t){.data = pre, .size = g_en}); else g_en = 0;
	memcpy(g_exp, pre, g_en);
	int lead = g_en;
	for(int i = 0; i < ni; i++)
	{
		int n = t_size[it[i].type];
		pack(it[i].type, it[i].be, it[i].v);
		rec_shape(it[i].be ? "STRBUF_PACK_BE" : "STRBUF_PACK_LE", g_b, g_fixed, &g_area);
		vh_trace("pack %s %s %#llx", it[i].be ? "BE" : "LE", t_name[it[i].type], (unsigned long long)it[i].v);
		if(g_fixed >= 0 && g_en + n > g_fixed)
		{	/* a fixed buffer that cannot hold the result becomes empty */
			CHECK(g_b->size == 0, "C23:overflow", "packing into a fixed buffer of %d with %d used left %d bytes", g_fixed, g_en, g_b->size);
			g_en = 0; lead = -1; vh_count("fixed-overflow");
			continue;
		}
		for(int k = 0; k < n; k++) g_exp[g_en + k] = (unsigned char)(it[i].v >> (8 * (it[i].be ? n - 1 - k : k)));
		g_en += n;
		CHECK(g_b->size == g_en && !memcmp(g_b->cstr, g_exp, g_en), "C23:bytes", "packing %s %s %#llx gave %s, expected %s", it[i].be ? "BE" : "LE", t_name[it[i].type], (unsigned long long)it[i].v,
			vh_q(g_b->cstr + (g_b->size > g_en ? g_en : g_b->size > n ? g_b->size - n : 0), n < g_b->size ? n : g_b->size), vh_q(g_exp + g_en - n, n));
		vh_count_n(t_name[it[i].type], 1);
	}
	if(lead >= 0)
	{
		/* from the buffer itself or from a read-only copy at any alignment, next to memory that traps */
		strview_t v = strbuf_view(&g_b);
		bool huge = false;
		#ifndef VH_MSAN
		if(rnd(500) == 0)
		{	/* at the beginning of a view of about INT_MAX bytes */
			static char* hv;
			if(!hv) hv = mmap(NULL, (size_t)INT_MAX + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if(hv != MAP_FAILED)
			{
				memcpy(hv, g_exp, g_en); huge = true; vh_count("huge-view");
				v = (strview_t){.data = hv, .size = chance(50) ? INT_MAX - (int)rnd(3) : (int)rndr(1 << 30, INT_MAX)};
			}
		}
		#endif
		if(!huge && chance(70))
		{
			int off = rnd(9), extra = chance(70) ? 0 : (int)rnd(9);
			static char tmp[72100]; memset(tmp, 0x77, g_en + 100); memcpy(tmp + off, g_exp, g_en);
			char* m = vh_place(tmp, off + g_en + extra, extra == 0 || chance(50)); vh_protect(m);
			v = (strview_t){.data = m + off, .size = g_en + extra};
			vh_count("unpacked-from-copy");
		}
		const char* at = v.data + lead; int left = v.size - lead;
		v = (strview_t){.data = at, .size = left};
		for(int i = 0; i < ni; i++)
		{
			int n = t_size[it[i].type];
			uint64_t got = unpack(it[i].type, it[i].be, &v);
			at += n; left -= n;
			vh_trace("unpack %s %s %#llx, %d left", it[i].be ? "BE" : "LE", t_name[it[i].type], (unsigned long long)got, v.size);
			CHECK(got == it[i].v, "C23:value", "unpacking %s %s gave %#llx, packed was %#llx", it[i].be ? "BE" : "LE", t_name[it[i].type], (unsigned long long)got, (unsigned long long)it[i].v);
			CHECK(v.size == left && (!left || v.data == at), "C23:remaining", "after unpacking %s the view holds %d bytes, expected %d%s", t_name[it[i].type], v.size, left, v.data ? "" : " (invalid)");
			if((uintptr_t)(at - n) % n) vh_count("unaligned");
		}
		vh_count("round-trips");
	}
	strbuf_destroy(&g_b);
	CHECK(rec_nlive == 0, "C23:leak", "%d blocks remain", rec_nlive);
	rec_reset();
	if(vh_want_sample()) vh_sample("%d integers after %d bytes, %s buffer: %s", ni, lead, g_fixed >= 0 ? "fixed" : "dynamic", vh_q(g_exp + (lead > 0 ? lead : 0), g_en - lead > 24 ? 24 : 8));
	vh_case(sig, vh.events - ev > 10);
}
int main(int argc, char** argv) { return vh_main(argc, argv, NULL, run); }
