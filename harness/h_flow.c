/*	Monitor C30: what programs do with the library as a whole.  Data is put together with some modules, sent through
	descriptors in arbitrary pieces, taken apart with others, and compared with the original. */
#include <math.h>
#include <float.h>
#include <ctype.h>
#include "rec.h"
#include "strnum.h"
#include "strbuf_io.h"
#include "strview_io.h"
#include "strbuf_pack.h"
#include "strview_unpack.h"
#include "strbuf_crypt.h"
/* ---------------------------------------------------------------- a stream that accepts and delivers pieces */
#define MAXS (1 << 19)
#define FDW 998
#define FDR 999
static char g_str[MAXS]; static int g_sn, g_sr, g_piece; static bool g_io;
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
static ssize_t piece(size_t n)
{
	int r = rnd(100);
	if(r < 8) { errno = chance(50) ? EINTR : EAGAIN; return -1; }
	if(g_piece == 0) return n;
	if(g_piece == 1) return n ? 1 : 0;
	return n ? 1 + (ssize_t)rnd(n < (size_t)g_piece ? n : (size_t)g_piece) : 0;
}
ssize_t __wrap_read(int fd, void* p, size_t n)
{
	if(!g_io) return __real_read(fd, p, n);
	CHECK(fd == FDR, "C30:descriptor", "read from descriptor %d", fd);
	ssize_t r = piece(n < (size_t)(g_sn - g_sr) ? n : (size_t)(g_sn - g_sr));
	if(r > 0) { memcpy(p, g_str + g_sr, r); g_sr += (int)r; }
	return r;
}
ssize_t __wrap_write(int fd, const void* p, size_t n)
{
	if(!g_io) return __real_write(fd, p, n);
	CHECK(fd == FDW, "C30:descriptor", "written to descriptor %d", fd);
	ssize_t r = piece(n);
	if(r > 0) { if(g_sn + r > MAXS) vh_harness_error("stream full"); memcpy(g_str + g_sn, p, r); g_sn += (int)r; }
	return r;
}
static uint64_t g_sig;
/* ---------------------------------------------------------------- buffers: dynamic, or fixed with room enough */
typedef struct { strbuf_t* b; int fixed; rec_area_t area; } buf_t;
static void mk(buf_t* x, int room)
{
	x->fixed = room >= 0 && chance(25) ? room : -1;
	x->b = x->fixed >= 0 ? rec_fixed(room, &x->area) : strbuf_create_empty(chance(50) ? 0 : rnd(200), &rec_al);
	CHECK(x->b, "C30:create", "creation failed");
	g_sig = vh_mix(g_sig, (uint64_t)(x->fixed + 2));
}
static void judge(const char* op, buf_t* x) { rec_shape(op, x->b, x->fixed, &x->area); }
static void rm(buf_t* x) { judge("flow", x); strbuf_destroy(&x->b); CHECK(!x->b, "C30:destroy", "the buffer pointer is not NULL after destruction"); }
static strview_t V(const char* p, int n) { return (strview_t){.data = p, .size = n}; }
static bool is(strview_t v, const char* p, int n) { return v.data && v.size == n && !memcmp(v.data, p, n); }
#define WHAT(v) vh_q((v).data, (v).data ? (v).size : 0)
/* the same text, added in one of several ways */
static void put(buf_t* x, const char* p, int n)
{
	bool z = !memchr(p, 0, n);
	char* c; strbuf_t** b = &x->b;
	switch(rnd(9))
	{
		case 0: for(int i = 0; i < n; i++) strbuf_append_char(b, p[i]); break;
		case 1: if(z) { c = malloc(n + 1); memcpy(c, p, n); c[n] = 0; strbuf_append(b, c); free(c); break; } /* fall through */
		case 2: strbuf_insert_at_index(b, (*b)->size, V(p, n)); break;
		case 3: { int k = rnd(n + 1); strbuf_append(b, V(p, k)); strbuf_append(b, V(p + k, n - k)); break; }
		case 4: if(x->fixed < 0) { int k = rnd(n + 1); strbuf_cat(b, strbuf_view(b), V(p, k), V(p + k, n - k)); break; } /* fall through */
		case 5: if(z) { strbuf_append_printf(b, "%"PRIstr, PRIstrarg(V(p, n))); break; } /* fall through */
		case 6: { strview_t e = strbuf_view(b); if(chance(60)) e = strview_sub(e, (int)rnd(e.size + 1), INT_MAX); if(e.data) { strbuf_insert_after(b, e, V(p, n)); break; } } /* fall through */
		default: strbuf_append(b, V(p, n)); break;
	}
	if(x->fixed < 0 && chance(10)) strbuf_shrink(b);
}
static void send_all(buf_t* x)
{
	int was = x->b->size, sn = g_sn;
	g_io = true;
	if(chance(50))
	{
		strview_t v = strbuf_view(&x->b);
		for(int k = 0; v.size; k++) { strview_write(FDW, &v); CHECK(k < 60 + was * 2 + 1000, "C30:send", "%d bytes are still not written", v.size); }
	}
	else for(int k = 0; x->b->size; k++) { strbuf_write(FDW, &x->b); judge("strbuf_write", x); CHECK(k < 60 + was * 2 + 1000, "C30:send", "%d bytes are still not written", x->b->size); }
	g_io = false;
	CHECK(g_sn - sn == was, "C30:send", "%d bytes arrived of %d", g_sn - sn, was);
}
static void receive(buf_t* x)
{
	if(x->b->size == x->b->capacity) strbuf_grow(&x->b, x->b->capacity + 1 + (int)rnd(chance(50) ? 20 : 2000));
	g_io = true; strbuf_append_read(&x->b, FDR); g_io = false;
}
#define MAXF 300
static char g_txt[1 << 18]; static int g_tn;
typedef struct { const char* p; int n; } text_t;
static text_t rtext(int max, const char* none)
{
	int n = chance(15) ? 0 : chance(80) ? (int)rnd(12) : (int)rnd(max + 1), k = 0;
	if(g_tn + n + 2 > (int)sizeof g_txt) n = 0;
	char* p = g_txt + g_tn;
	rnd_text(p, n, -1);
	for(int i = 0; i < n; i++) if(!p[i] ? !none[0] || none[0] == 1 : !strchr(none, p[i])) p[k++] = p[i];
	if(k == n && (!none[0] || none[0] == 1 || none[0] == '"') && g_tn + k + 2 < (int)sizeof g_txt && chance(6)) p[k++] = 0;
	g_tn += k;
	return (text_t){p, k};
}
/* ---------------------------------------------------------------- lines through a stream, every mixture of terminators */
static void lines(void)
{
	static text_t l[MAXF]; static char out[1 << 18]; int nl = 1 + rnd(chance(80) ? 10 : MAXF), total = 0, at = 0;
	const char* t[] = {"\r", "\n", "\r\n", "\n\r"}; int one = (int)rnd(5); char open = 0;
	buf_t s, r; char eol = 0;
	for(int i = 0; i < nl; i++)
	{
		l[i] = rtext(400, "\r\n");
		const char* e = t[one < 4 ? one : (int)rnd(4)];
		if(open && !l[i].n && e[0] != open) e = open == '\r' ? "\r\n" : "\n\r";	/* would complete the terminator before */
		if(total + l[i].n + 2 > (int)sizeof out) { nl = i; break; }
		memcpy(out + total, l[i].p, l[i].n); total += l[i].n;
		memcpy(out + total, e, strlen(e)); total += (int)strlen(e);
		open = e[1] ? 0 : e[0];
		g_sig = vh_mix(g_sig, (uint64_t)l[i].n * 4 + (uint64_t)(e[0] == '\r') + (e[1] ? 2 : 0));
	}
	text_t rest = rtext(20, "\r\n");
	mk(&s, total + rest.n); mk(&r, total + rest.n + 1);
	int k = 0, idle = 0;
	while(at < total || g_sr < g_sn || k < nl)
	{
		if(at < total && chance(60))
		{
			int m = 1 + (int)rnd(total - at < 300 ? total - at : 300);
			put(&s, out + at, m); at += m;
			if(at == total) put(&s, rest.p, rest.n);
			send_all(&s);
			strbuf_assign(&s.b, V("", 0));
		}
		receive(&r); judge("append_read", &r);
		strview_t src = strbuf_view(&r.b), v; int most = chance(80) ? INT_MAX : 1 + (int)rnd(3);
		while(most-- && (v = strview_split_line(&src, &eol)).data)
		{
			CHECK(k < nl, "C30:lines:extra", "a line after the last: %s", WHAT(v));
			CHECK(is(v, l[k].p, l[k].n), "C30:lines:text", "line %d arrived as %s, sent %s", k, WHAT(v), vh_q(l[k].p, l[k].n));
			k++; vh_count("lines-received");
		}
		if(chance(90)) strbuf_assign(&r.b, src); else { strbuf_t* n = strbuf_create(src, &rec_al); if(r.fixed < 0) { strbuf_destroy(&r.b); r.b = n; } else { strbuf_assign(&r.b, src); strbuf_destroy(&n); } }
		judge("assign", &r);
		CHECK(++idle < 20 * (total + 100), "C30:lines:missing", "%d of %d lines arrived", k, nl);
	}
	for(int i = 0; g_sr < g_sn; i++) { receive(&r); CHECK(i < 100000, "C30:lines:rest", "the stream is not emptied"); }
	strview_t v = strbuf_view(&r.b);
	if(eol && v.size && (v.data[0] == '\r' || v.data[0] == '\n')) v = V(v.data + 1, v.size - 1);
	CHECK(is(v, rest.p, rest.n), "C30:lines:rest", "after the last line %s arrived, sent %s", WHAT(v), vh_q(rest.p, rest.n));
	if(vh_want_sample() && nl > 2) vh_sample("%d lines and %s in %d bytes, through a stream in pieces of kind %d", nl, vh_q(rest.p, rest.n), total, g_piece);
	rm(&s); rm(&r);
}
/* ---------------------------------------------------------------- tables with quoted fields */
static void tables(void)
{
	static text_t f[MAXF]; int n = 1 + rnd(chance(80) ? 8 : 60), room = 0;
	const char* ds = (const char*[]){",", ";", "\t", ",;", "|"}[rnd(5)]; char q = '"';
	bool quotes = chance(70);
	for(int i = 0; i < n; i++)
	{
		if(quotes) f[i] = rtext(100, "\"'");
		else { f[i] = rtext(100, "\"',;\t| "); }
		room += 2 * f[i].n + 12;
	}
	buf_t s; mk(&s, room);
	for(int i = 0; i < n; i++)
	{
		bool need = f[i].n == 0 ? chance(50) : false;
		for(int j = 0; j < f[i].n; j++) need |= strchr(ds, f[i].p[j]) && f[i].p[j];
		#define BLANK(c) ((c) == ' ' || (c) == '\t')
		need |= f[i].n && (BLANK(f[i].p[0]) || BLANK(f[i].p[f[i].n - 1]));
		if(quotes) need |= chance(30); else need = false;
		int sp = ds[0] != '\t' ? (int)rnd(3) : 0;
		if(i) { char d = ds[rnd(strlen(ds))]; put(&s, &d, 1); }
		put(&s, "  ", sp);
		if(need) put(&s, &q, 1);
		put(&s, f[i].p, f[i].n);
		if(need) put(&s, &q, 1);
		put(&s, "  ", sp);
		g_sig = vh_mix(g_sig, (uint64_t)f[i].n * 2 + need);
	}
	judge("table", &s);
	strview_t src = strbuf_view(&s.b), v, arr[64]; int k = 0, way = rnd(4);
	for(int i = 0; i < n; i++)
	{
		int j = i;
		switch(way)
		{
			case 0: v = strview_split_first_delim(&src, ds, quotes); break;
			case 1: v = strview_split_last_delim(&src, ds, quotes); j = n - 1 - i; break;
			case 2: if(!i) k = strview_split_all(64, arr, src, ds, quotes);
				CHECK(k == n, "C30:tables:number", "split_all found %d fields of %d in %s", k, n, WHAT(src)); v = arr[i]; break;
			default:	/* from both ends */
			{
				static int lo, hi; if(!i) { lo = 0; hi = n - 1; }
				if(chance(50)) { v = strview_split_first_delim(&src, ds, quotes); j = lo++; } else { v = strview_split_last_delim(&src, ds, quotes); j = hi--; }
			}
		}
		strview_t w = strview_dequote(strview_trim(v, " "));
		if(!w.data && w.size == 0 && f[j].n == 0) { w.data = ""; }
		CHECK(v.data && is(w, f[j].p, f[j].n), "C30:tables:field", "field %d of %s is %s, written %s", j, vh_q(s.b->cstr, s.b->size), WHAT(v), vh_q(f[j].p, f[j].n));
		vh_count(quotes ? "quoted-fields" : "plain-fields");
	}
	if(way != 2) CHECK(!src.data || src.size == 0, "C30:tables:extra", "after the last field there is %s", WHAT(src));
	if(vh_want_sample() && n > 2) vh_sample("table of %d fields, read in way %d: %s", n, way, vh_q(s.b->cstr, s.b->size));
	rm(&s);
}
/* ---------------------------------------------------------------- numbers printed and read back */
typedef struct { int kind; long long s; unsigned long long u; long double f; int digits; int base; } num_t;
static long double rnd_real(int digits)
{
	switch(rnd(6))
	{
		case 0: return (long double)rndr(-1000000, 1000000) / 1000;
		case 1: return digits == 0 ? FLT_MAX : digits == 1 ? DBL_MAX : LDBL_MAX;
		case 2: return digits == 0 ? FLT_MIN : digits == 1 ? DBL_MIN : LDBL_MIN;
		case 3: return 0;
		default:
		{
			long double m = 1 + (long double)(rnd64() >> 1) / 0x1p63L; int e = digits == 0 ? (int)rndr(-120, 120) : digits == 1 ? (int)rndr(-1000, 1000) : (int)rndr(-3000, 3000);
			if(chance(50)) e = (int)rndr(-40, 40);
			m = ldexpl(chance(50) ? m : -m, e);
			return digits == 0 ? (float)m : digits == 1 ? (double)m : m;
		}
	}
}
static void numbers(void)
{
	static num_t x[64]; int n = 1 + rnd(30); char t[200];
	buf_t s; mk(&s, n * 130);
	for(int i = 0; i < n; i++)
	{
		num_t* y = &x[i]; memset(y, 0, sizeof *y);
		y->kind = rnd(4); y->base = 10;
		y->u = rnd64() >> rnd(64); y->s = (long long)(chance(50) ? y->u : 0 - y->u);
		if(chance(5)) y->s = LLONG_MIN; if(chance(5)) y->u = ULLONG_MAX;
		int k = 0;
		if(i) put(&s, " ", 1);
		switch(y->kind)
		{
			case 0: if(chance(50)) { strbuf_append_printf(&s.b, chance(50) ? "%lld" : "%+lld", y->s); break; }
				k = sprintf(t, "%lld", y->s); put(&s, t, k); break;
			case 1: strbuf_append_printf(&s.b, "%llu", y->u); break;
			case 2:
				if(chance(50)) { y->base = 16; strbuf_append_printf(&s.b, chance(50) ? "0x%llx" : "%#llX", y->u); }
				else { y->base = 2; t[k++] = '0'; t[k++] = 'b'; for(int j = 63; j >= 0; j--) if(k > 2 || y->u >> j & 1 || !j) t[k++] = '0' + (char)(y->u >> j & 1); put(&s, t, k); }
				break;
			default:
				y->digits = rnd(3); y->f = rnd_real(y->digits);
				strbuf_append_printf(&s.b, chance(70) ? "%.*Lg" : "%.*Le", y->digits == 0 ? 9 : y->digits == 1 ? 17 : 21, y->f);
				break;
		}
		g_sig = vh_mix(vh_mix(g_sig, (uint64_t)y->kind * 4 + (uint64_t)y->digits), y->kind == 3 ? (uint64_t)(int64_t)(y->f * 1000 < 1e18L && y->f * 1000 > -1e18L ? y->f * 1000 : 1) : y->u);
	}
	judge("printf", &s);
	strview_t src = strbuf_view(&s.b), tok; bool consume = chance(50);
	for(int i = 0; i < n; i++)
	{
		num_t* y = &x[i]; strview_t all = src; int err, opt = y->base == 16 ? STRNUM_BASE_HEX : y->base == 2 ? STRNUM_BASE_BIN : 0;
		if(!consume) tok = strview_split_first_delim(&src, " ", false), all = tok;
		strview_t* p = consume ? &src : &tok;
		if(y->kind == 0) { long long v = 5; err = strnum_value(&v, p, opt); CHECK(!err && v == y->s, "C30:numbers:signed", "%lld was printed, read as %lld (%d) from %s", y->s, v, err, WHAT(all)); }
		else if(y->kind < 3)
		{
			unsigned long long v = 5; err = strnum_value(&v, p, opt);
			CHECK(!err && v == y->u, "C30:numbers:unsigned", "%llu was printed, read as %llu (%d) from %s", y->u, v, err, WHAT(all));
		}
		else
		{
			long double v = 5, eps; float f = 5; double d = 5;
			if(y->digits == 0) { err = strnum_value(&f, p, 0); v = f; eps = FLT_EPSILON; } else if(y->digits == 1) { err = strnum_value(&d, p, 0); v = d; eps = DBL_EPSILON; } else { err = strnum_value(&v, p, 0); eps = LDBL_EPSILON; }
			long double a = fabsl(v - y->f), m = fabsl(y->f);
			bool edge = m >= (y->digits == 0 ? FLT_MAX : y->digits == 1 ? DBL_MAX : LDBL_MAX) || (m && m <= (y->digits == 0 ? FLT_MIN : y->digits == 1 ? DBL_MIN : LDBL_MIN));
			if(!edge) CHECK(!err && a <= 6 * eps * m, "C30:numbers:real", "%.21Lg was printed, read as %.21Lg (%d) from %s", y->f, v, err, WHAT(all));
			else if(err) break;	/* the largest and smallest may be rounded out of range, and nothing was consumed */
		}
		if(consume && i + 1 < n) { char c = strview_pop_first_char(&src); CHECK(c == ' ', "C30:numbers:consumed", "number %d of %s was consumed up to %s", i, vh_q(s.b->cstr, s.b->size), WHAT(src)); }
		else if(!consume) CHECK(tok.size == 0, "C30:numbers:consumed", "%s remains of %s", WHAT(tok), WHAT(all));
		vh_count(y->kind == 3 ? "reals" : y->kind == 2 ? "hexadecimal-and-binary" : "integers");
	}
	if(vh_want_sample() && n > 2) vh_sample("numbers %s", vh_q(s.b->cstr, s.b->size));
	rm(&s);
}
/* ---------------------------------------------------------------- messages: packed, encrypted, framed by their length, sent, received, decrypted, unpacked */
static void messages(void)
{
	uint8_t key[32], iv[16]; int n = 1 + rnd(4); buf_t in; static text_t body[8]; static uint64_t num[8][6]; uint64_t kinds[8];
	for(int i = 0; i < 32; i++) key[i] = (uint8_t)rnd(256);
	for(int i = 0; i < 16; i++) iv[i] = (uint8_t)rnd(256);
	int total = 0;
	for(int m = 0; m < n; m++)
	{
		buf_t o, h; body[m] = rtext(chance(90) ? 200 : 3000, "\1"); kinds[m] = rnd64();
		mk(&o, 8 + 6 * 8 + body[m].n + 17 + 300); mk(&h, body[m].n + 500);
		for(int i = 0; i < 6; i++)
		{
			num[m][i] = rnd64();
			switch(kinds[m] >> (3 * i) & 7)
			{
				case 0: STRBUF_PACK_LE(&o.b, (uint8_t)num[m][i]); break;
				case 1: STRBUF_PACK_LE(&o.b, (uint16_t)num[m][i]); break;
				case 2: STRBUF_PACK_BE(&o.b, (uint16_t)num[m][i]); break;
				case 3: STRBUF_PACK_LE(&o.b, (uint32_t)num[m][i]); break;
				case 4: STRBUF_PACK_BE(&o.b, (int32_t)num[m][i]); break;
				case 5: STRBUF_PACK_LE(&o.b, (int64_t)num[m][i]); break;
				case 6: STRBUF_PACK_BE(&o.b, (uint64_t)num[m][i]); break;
				default: STRBUF_PACK_BE(&o.b, (int16_t)num[m][i]); break;
			}
		}
		STRBUF_PACK_BE(&o.b, (int32_t)body[m].n);
		put(&o, body[m].p, body[m].n);
		judge("pack", &o);
		uint8_t v2[16]; memcpy(v2, iv, 16);
		strview_t e = strbuf_encrypt(&o.b, key, v2);
		judge("encrypt", &o);
		CHECK(e.data == o.b->cstr && e.size == o.b->size && e.size > 0 && e.size % 16 == 0, "C30:messages:encrypted", "encryption gave %d bytes", e.size);
		strbuf_append_printf(&h.b, "Number: %d\r\nLength:%*d\r\n\r\n", m, (int)rnd(8), e.size);
		put(&h, e.data, e.size);
		total += h.b->size;
		send_all(&h); rm(&o); rm(&h);
	}
	mk(&in, total + 64);
	for(int m = 0; m < n; m++)
	{
		int len = -1, number = -1, idle = 0; strview_t src, l;
		for(;;)
		{	/* the whole header, then the whole body */
			bool head = false;
			src = strbuf_view(&in.b);
			while((l = strview_split_line(&src, NULL)).data)
			{
				if(!l.size) { head = true; break; }
				strview_t name = strview_split_first_delim(&l, ":", false), val = strview_trim(l, " \t");
				if(strview_is_match_nocase(name, "LENGTH")) len = strnum_int(val, -2, 0);
				else if(strview_is_match(name, "Number")) number = strnum_int(val, -2, STRNUM_NOSIGN);
				else CHECK(false, "C30:messages:header", "the header has a line %s", WHAT(name));
			}
			/* a header cut at its CR is seen whole only when its LF is there, too */
			if(head && src.size >= len && (len < 0 || src.size > 0) && (strview_find_first(strbuf_view(&in.b), "\r\n\r\n")).data) break;
			receive(&in); judge("append_read", &in);
			CHECK(++idle < 100000, "C30:messages:missing", "message %d does not arrive", m);
		}
		CHECK(number == m, "C30:messages:header", "message %d arrived as number %d", m, number);
		strview_t e = strview_split_index(&src, len);
		buf_t d; mk(&d, len + 300);
		put(&d, e.data, e.size);
		strbuf_assign(&in.b, src);
		uint8_t v2[16]; memcpy(v2, iv, 16);
		strview_t p = strbuf_decrypt(&d.b, key, v2);
		judge("decrypt", &d);
		CHECK(p.data, "C30:messages:decrypted", "message %d of %d bytes was not decrypted", m, len);
		for(int i = 0; i < 6; i++)
		{
			bool ok = false; uint64_t x = num[m][i];
			#define GET(o, t) { t y; STRVIEW_UNPACK_##o(y, p); ok = y == (t)x; break; }
			switch(kinds[m] >> (3 * i) & 7)
			{
				case 0: GET(LE, uint8_t) case 1: GET(LE, uint16_t) case 2: GET(BE, uint16_t) case 3: GET(LE, uint32_t)
				case 4: GET(BE, int32_t) case 5: GET(LE, int64_t) case 6: GET(BE, uint64_t) default: GET(BE, int16_t)
			}
			CHECK(ok, "C30:messages:number", "number %d of message %d changed", i, m);
		}
		int32_t bn; STRVIEW_UNPACK_BE(bn, p);
		CHECK(bn == body[m].n && p.size == bn && (!bn || !memcmp(p.data, body[m].p, bn)), "C30:messages:body", "message %d arrived as %s, sent %s", m, WHAT(p), vh_q(body[m].p, body[m].n));
		vh_count("messages");
		g_sig = vh_mix(vh_mix(g_sig, kinds[m]), (uint64_t)bn);
		rm(&d);
	}
	CHECK(in.b->size == 0, "C30:messages:extra", "after the last message there is %s", vh_q(in.b->cstr, in.b->size));
	rm(&in);
}
/* ---------------------------------------------------------------- templates: placeholders replaced by views, found positions spliced */
static void templates(void)
{
	static char want[1 << 17]; int wn = 0; text_t val[6], piece[40]; int n = rnd(20), room = 0; buf_t t, o; int which[40]; char name[8];
	for(int i = 0; i < 6; i++) val[i] = rtext(60, "");
	mk(&t, n * 520 + 600);
	for(int i = 0; i < n; i++)
	{
		piece[i] = rtext(100, "<>"); which[i] = rnd(6); room += piece[i].n + val[which[i]].n;
		put(&t, piece[i].p, piece[i].n); put(&t, name, sprintf(name, "<v%d>", which[i]));
		memcpy(want + wn, piece[i].p, piece[i].n); wn += piece[i].n;
		memcpy(want + wn, val[which[i]].p, val[which[i]].n); wn += val[which[i]].n;
		g_sig = vh_mix(g_sig, (uint64_t)piece[i].n * 8 + (uint64_t)which[i]);
	}
	mk(&o, room);
	bool back = chance(40);
	strview_t src = strbuf_view(&t.b), p;
	if(!back)
	{	/* from the front, appended */
		while((p = strview_find_first(src, "<v")).data)
		{
			strview_t l = strview_split_left(&src, p);
			CHECK(l.data, "C30:templates:position", "splitting at a position found in the same view failed");
			put(&o, l.data, l.size);
			strview_t ph = strview_split_first_delim(&src, ">", false);
			int k = strnum_int(strview_sub(ph, 2, INT_MAX), -1, 0);
			CHECK(k >= 0 && k < 6, "C30:templates:placeholder", "the placeholder is %s", WHAT(ph));
			put(&o, val[k].p, val[k].n); vh_count("placeholders");
		}
		put(&o, src.data, src.data ? src.size : 0);
	}
	else
	{	/* from the back, inserted before what is there */
		while((p = strview_find_last(src, ">")).data)
		{
			strview_t r = strview_split_right(&src, p);
			CHECK(r.data, "C30:templates:position", "splitting behind a position found in the same view failed");
			strbuf_prepend(&o.b, r);
			strview_t at = strview_find_last(src, "<v");
			strview_t ph = strview_split_right(&src, at);
			src = strview_sub(src, 0, src.size - 2);
			int k = strnum_int(strview_trim_end(ph, ">"), -1, 0);
			CHECK(k >= 0 && k < 6, "C30:templates:placeholder", "the placeholder is %s", WHAT(ph));
			strbuf_insert_before(&o.b, strview_sub(strbuf_view(&o.b), 0, 0), V(val[k].p, val[k].n)); vh_count("placeholders-from-the-end");
		}
		strbuf_insert_at_index(&o.b, 0, src);
	}
	judge("template", &o);
	CHECK(o.b->size == wn && !memcmp(o.b->cstr, want, wn), "C30:templates:result", "%s became %s, expected %s", vh_q(t.b->cstr, t.b->size), vh_q(o.b->cstr, o.b->size), vh_q(want, wn));
	/* markers spliced in behind and before every placeholder, and stripped again */
	int at = 0, size = t.b->size; static char keep[1 << 16]; if(size < (int)sizeof keep && t.fixed < 0)
	{
		memcpy(keep, t.b->cstr, size); bool clean = !memchr(keep, 1, size) && !memchr(keep, 2, size);
		while((p = strview_find_first(strview_sub(strbuf_view(&t.b), at, INT_MAX), "<v")).data)
		{
			at = (int)(p.data - t.b->cstr);
			strbuf_insert_before(&t.b, p, "\1\2"); at += 4;
			strview_t q = strview_sub(strbuf_view(&t.b), at - 2, at);
			strbuf_insert_after(&t.b, q, "\2");
			at++;
		}
		if(clean)
		{
			strbuf_strip(&t.b, "\2\1");
			judge("strip", &t);
			CHECK(t.b->size == size && !memcmp(t.b->cstr, keep, size), "C30:templates:markers", "with markers put in and stripped %s became %s", vh_q(keep, size), vh_q(t.b->cstr, t.b->size));
			vh_count("markers");
		}
	}
	rm(&t); rm(&o);
}
/* ---------------------------------------------------------------- search, order and case agree with each other */
static int by_view(const void* a, const void* b) { return strview_compare(*(const strview_t*)a, *(const strview_t*)b); }
static void words(void)
{
	static strview_t w[64], s[64]; text_t x[64]; int n = 2 + rnd(20), total = 0; static char lo[1 << 15], hi[1 << 15];
	for(int i = 0; i < n; i++) { x[i] = rtext(12, "\1 "); w[i] = s[i] = V(x[i].p, x[i].n); total += x[i].n + 1; g_sig = vh_mix(g_sig, vh_hash_bytes(0, x[i].p, x[i].n)); }
	qsort(s, n, sizeof *s, by_view);
	for(int i = 0; i + 1 < n; i++)
	{
		int m = s[i].size < s[i + 1].size ? s[i].size : s[i + 1].size, c = memcmp(s[i].data, s[i + 1].data, m);
		CHECK(c < 0 || (c == 0 && s[i].size <= s[i + 1].size), "C30:words:order", "%s was sorted before %s", WHAT(s[i]), WHAT(s[i + 1]));
		CHECK(strview_is_match(s[i], s[i + 1]) == (strview_compare(s[i], s[i + 1]) == 0), "C30:words:match", "order and equality of %s and %s disagree", WHAT(s[i]), WHAT(s[i + 1]));
	}
	buf_t j; mk(&j, total);
	for(int i = 0; i < n; i++) { if(i) put(&j, " ", 1); put(&j, s[i].data, s[i].size); }
	judge("join", &j);
	strview_t all = strbuf_view(&j.b);
	if(all.size < (int)sizeof lo)
	{
		for(int i = 0; i < all.size; i++) { unsigned char c = (unsigned char)all.data[i]; lo[i] = (char)(c >= 'A' && c <= 'Z' ? c + 32 : c); hi[i] = (char)(c >= 'a' && c <= 'z' ? c - 32 : c); }
		strview_t l = V(lo, all.size), u = V(hi, all.size);
		CHECK(strview_is_match_nocase(all, l) && strview_is_match_nocase(u, all), "C30:words:case", "%s does not match itself in another case", WHAT(all));
		for(int k = 0; k < 6; k++)
		{
			int i = rnd(n), a = (int)(rnd(all.size + 1)), b = a + (int)rnd(all.size - a < 8 ? all.size - a + 1 : 8);
			strview_t nd = chance(50) ? w[i] : V(all.data + a, b - a);
			if(!nd.size) continue;
			/* searching without case is searching the text folded to one case */
			char f[200]; if(nd.size > 199) continue;
			for(int q = 0; q < nd.size; q++) { unsigned char c = (unsigned char)nd.data[q]; f[q] = (char)(c >= 'A' && c <= 'Z' ? c + 32 : c); }
			strview_t fn = V(f, nd.size), r1 = strview_find_first_nocase(all, nd), r2 = strview_find_first(l, fn), r3 = strview_find_last_nocase(all, nd), r4 = strview_find_last(l, fn);
			CHECK(r1.data && r2.data && r1.data - all.data == r2.data - lo, "C30:words:fold", "%s in %s: first without case at %td, in folded text at %td", WHAT(nd), WHAT(all), r1.data ? r1.data - all.data : -1, r2.data ? r2.data - lo : -1);
			CHECK(r3.data && r4.data && r3.data - all.data == r4.data - lo, "C30:words:fold", "%s in %s: last without case at %td, in folded text at %td", WHAT(nd), WHAT(all), r3.data ? r3.data - all.data : -1, r4.data ? r4.data - lo : -1);
			strview_t e = strview_find_first(all, nd), rest = all, le = strview_split_left(&rest, e);
			CHECK(e.data && le.data && strview_starts_with(rest, nd) && !strview_contains(le, nd) && le.size + rest.size == all.size, "C30:words:first", "%s in %s: what is before the first occurrence is %s", WHAT(nd), WHAT(all), WHAT(le));
			/* the number of occurrences from the front is that from the back when they cannot overlap */
			vh_count("searches");
		}
	}
	/* split again: the words in order; put together in reverse order by prepending */
	buf_t r; mk(&r, total); strview_t src = all; int k = 0;
	for(; src.data && k < n; k++)
	{
		strview_t v = strview_split_first_delim(&src, " ", false);
		CHECK(is(v, s[k].data, s[k].size), "C30:words:split", "word %d is %s, was %s", k, WHAT(v), WHAT(s[k]));
		if(k) strbuf_prepend(&r.b, " ");
		strbuf_prepend(&r.b, v);
	}
	strview_t back = strbuf_view(&r.b);
	for(int i = 0; i < n; i++)
	{
		strview_t v = strview_split_last_delim(&back, " ", false);
		CHECK(is(v, s[i].data, s[i].size), "C30:words:reverse", "word %d from the end is %s, was %s", i, WHAT(v), WHAT(s[i]));
	}
	char* c = NULL; int total2 = r.b->size;
	if(r.fixed < 0 && chance(50))
	{
		static char copy[1 << 15]; int cn = r.b->size; if(cn < (int)sizeof copy) memcpy(copy, r.b->cstr, cn);
		c = strbuf_to_cstr(&r.b); CHECK(c && !r.b && (cn >= (int)sizeof copy || (!memcmp(c, copy, cn) && !c[cn])), "C30:words:cstr", "the C string is not the contents");
		rec_alloc(&rec_al, c, 0);
	}
	else { CHECK(total2 == all.size, "C30:words:reverse", "reversed text of %d bytes, was %d", total2, all.size); rm(&r); }
	rm(&j);
}
static void run(uint64_t ci)
{
	static void (*const flow[])(void) = {lines, tables, numbers, messages, templates, words};
	static const char* nm[] = {"flow-lines", "flow-tables", "flow-numbers", "flow-messages", "flow-templates", "flow-words"};
	int k = (int)(ci % 6); uint64_t e = vh.events;
	g_sig = (uint64_t)k; g_tn = g_sn = g_sr = 0;
	g_piece = chance(30) ? 0 : chance(20) ? 1 : chance(50) ? 5 : 300;
	flow[k]();
	CHECK(rec_nlive == 0, "C30:leak", "%d blocks are still live after %s", rec_nlive, nm[k]);
	vh_count(nm[k]);
	vh_case(vh_mix(g_sig, (uint64_t)g_piece), vh.events - e > 3);
	rec_reset();
}
int main(int argc, char** argv) { return vh_main(argc, argv, NULL, run); }
