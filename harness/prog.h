/*	A deterministic program over every part of the library.  Given a seed it performs operations on buffers and views of
	its own (and on read-only text that may be shared) and records one digest per operation.
	Digests contain only what must not depend on threads, compilers or build options: no addresses and no capacities.
	Every operation draws its randomness from (seed, index), and optional functions work on scratch buffers,
	so leaving a function out of the build does not change the other digests. */
#ifndef PROG_H
#define PROG_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <errno.h>
#include <unistd.h>
#include "strview.h"
#include "strbuf.h"
#include "strnum.h"
#include "strbuf_io.h"
#include "strview_io.h"
#include "strbuf_pack.h"
#include "strview_unpack.h"
#ifndef PROG_NOCRYPT
#include "strbuf_crypt.h"
#endif

#define PROG_MAXOPS 400
typedef struct
{
	uint64_t seed, s;
	const char* text; int text_n;				/* read only, may be shared by threads */
	strbuf_allocator_t* alloc;					/* NULL: the default allocator */
	uint64_t res[PROG_MAXOPS]; const char* name[PROG_MAXOPS]; int n;
	uint64_t h;
	void (*between)(void* arg, int op); void* arg;	/* called between operations */
	void (*inside)(void* arg);					/* called by the fetching function */
	FILE* log;
} prog_t;
static uint64_t pg_next(prog_t* p) { uint64_t z = (p->s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static uint64_t pg_rnd(prog_t* p, uint64_t n) { return n ? pg_next(p) % n : 0; }
static void pg_bytes(prog_t* p, const void* d, size_t n)
{
	const unsigned char* c = d;
	p->h ^= 0xcbf29ce484222325ull + n;
	while(n--) { p->h ^= *c++; p->h *= 0x100000001b3ull; p->h ^= p->h >> 29; }
}
static void pg_int(prog_t* p, int64_t v)
{
	unsigned char b[8]; for(int i = 0; i < 8; i++) b[i] = (unsigned char)((uint64_t)v >> (8 * i));
	pg_bytes(p, b, 8);
	if(p->log) fprintf(p->log, " %lld", (long long)v);
}
static void pg_view(prog_t* p, strview_t v)
{
	pg_int(p, v.data ? v.size : -1); if(v.data) pg_bytes(p, v.data, v.size);
	if(p->log && v.data) { fputc('"', p->log); for(int i = 0; i < v.size && i < 200; i++) { unsigned char c = (unsigned char)v.data[i]; if(c >= 32 && c < 127 && c != '"') fputc(c, p->log); else fprintf(p->log, "\\x%02x", c); } fputc('"', p->log); }
}
static void pg_buf(prog_t* p, strbuf_t** b) { strview_t v = {.data = (*b)->cstr, .size = (*b)->size}; pg_view(p, v); pg_int(p, (*b)->cstr[(*b)->size] == 0 && (*b)->size <= (*b)->capacity); }
/* a slice of the text, sometimes empty or invalid */
static strview_t pg_slice(prog_t* p)
{
	int r = (int)pg_rnd(p, 40);
	if(r == 0) return STRVIEW_INVALID;
	int len = (int)pg_rnd(p, pg_rnd(p, 3) ? 12 : 200), at = (int)pg_rnd(p, (uint64_t)p->text_n);
	if(at + len > p->text_n) len = p->text_n - at;
	return (strview_t){.data = p->text + at, .size = len};
}
static int pg_fetch(void* dst, int n, void* arg) { prog_t* p = arg; int k = (int)pg_rnd(p, 30); if(p->inside) p->inside(p->arg); if(k > n) k = n; for(int i = 0; i < k; i++) ((char*)dst)[i] = (char)('a' + pg_rnd(p, 26)); return k; }
static void pg_number(prog_t* p, char* t)
{
	static const char* words[] = {"inf", "-INFINITY", "nan", "0x", "0b", "+", "-", "", "1e", "0x1g", "  12", "0b102", "1e5x", "- 5", "99999999999999999999999999"};
	int n = 0, r = (int)pg_rnd(p, 10);
	if(r == 0) { strcpy(t, words[pg_rnd(p, 15)]); return; }
	if(r < 3) t[n++] = ' ';
	if(pg_rnd(p, 3) == 0) t[n++] = "+-"[pg_rnd(p, 2)];
	int base = (int)pg_rnd(p, 4);
	if(base == 1) { t[n++] = '0'; t[n++] = "xX"[pg_rnd(p, 2)]; }
	if(base == 2) { t[n++] = '0'; t[n++] = "bB"[pg_rnd(p, 2)]; }
	int d = (int)pg_rnd(p, base == 2 ? 66 : 22);
	for(int i = 0; i < d; i++) t[n++] = base == 2 ? "01"[pg_rnd(p, 2)] : base == 1 ? "0123456789abcdefABCDEF"[pg_rnd(p, 22)] : "0123456789"[pg_rnd(p, 10)];
	if(pg_rnd(p, 3) == 0) { t[n++] = '.'; d = (int)pg_rnd(p, 12); for(int i = 0; i < d; i++) t[n++] = "0123456789"[pg_rnd(p, 10)]; }
	if(pg_rnd(p, 3) == 0) { t[n++] = "eE"[pg_rnd(p, 2)]; n += sprintf(t + n, "%d", (int)pg_rnd(p, 80) - 40); }
	if(pg_rnd(p, 4) == 0) t[n++] = "xyz ,"[pg_rnd(p, 5)];
	t[n] = 0;
}
/* a buffer to work on: dynamic, or fixed in the given memory (often with too little room) */
#define PG_MEM 700
static strbuf_t* pg_scratch(prog_t* p, void* mem, strview_t v)
{
	if(pg_rnd(p, 2)) return strbuf_create(v, p->alloc);
	strbuf_t* f = strbuf_create_fixed(mem, sizeof(strbuf_t) + 1 + (pg_rnd(p, 2) ? pg_rnd(p, 250) : 300 + pg_rnd(p, 300)));
	strbuf_assign(&f, v);
	return f;
}
#define PG_SCRATCH(name, v) char __attribute__((aligned(16))) name##_mem[PG_MEM]; strbuf_t* name = pg_scratch(p, name##_mem, v)
#define PG_DROP(name) do { if((char*)name != name##_mem) strbuf_destroy(&name); } while(0)
#define PG_STR_MAX 64
enum { PG_VIEW_FIRST, PG_FIND = 0, PG_SPLIT, PG_LINES, PG_SUB, PG_TRIM, PG_COMPARE, PG_DEQUOTE, PG_COPY, PG_ASSIGN, PG_APPEND, PG_PREPEND, PG_INSERT, PG_INSREL, PG_CAT, PG_STRIP, PG_APPCHAR, PG_USING, PG_GROW,
	PG_TOCSTR, PG_FIXED, PG_PRINTF, PG_PRNF, PG_INTS, PG_NARROW, PG_FLOATS, PG_IO, PG_PACK, PG_CRYPT, PG_SELF, PG_REFUSED, PG_BIG, PG_NOPS };
static void prog_run(prog_t* p, int nops)
{
	strbuf_t* b = strbuf_create((int)(p->seed % 30), p->alloc);
	p->n = 0;
	for(int k = 0; k < nops && k < PROG_MAXOPS; k++)
	{
		p->s = p->seed * 0x2545f4914f6cdd1dull + (uint64_t)k * 0x632be59bd9b4e019ull;
		p->h = 0;
		int op = (int)pg_rnd(p, PG_NOPS);
		const char* name = "?";
		if(p->between) p->between(p->arg, k);
		if(p->log) fprintf(p->log, "%d:", k);
		strview_t v = pg_slice(p), w = pg_slice(p), d; char cs[PG_STR_MAX + 1] = "";
		if(w.data) { int m = w.size < PG_STR_MAX ? w.size : PG_STR_MAX; memcpy(cs, w.data, m); cs[m] = 0; }
		switch(op)
		{
			case PG_FIND: name = "find";
				if(pg_rnd(p, 2) && v.size > 2) { w = v; w.data += pg_rnd(p, 2); w.size = 1 + (int)pg_rnd(p, v.size - 2); }
				if(v.data && w.data) { d = strview_find_first(v, w); pg_int(p, d.data ? d.data - v.data : -1); pg_view(p, d); d = strview_find_last(v, w); pg_int(p, d.data ? d.data - v.data : -1);
					d = strview_find_first_nocase(v, w); pg_int(p, d.data ? d.data - v.data : -1); d = strview_find_last_nocase(v, w); pg_int(p, d.data ? d.data - v.data : -1); }
				pg_int(p, strview_contains(v, w)); pg_int(p, strview_contains_nocase(v, w));
				d = strview_find_first(v, (const char*)cs); pg_view(p, d); d = strview_find_last(v, (char*)cs); pg_view(p, d); d = strview_find_first_nocase(v, (const char*)cs); pg_view(p, d); d = strview_find_last_nocase(v, (char*)cs); pg_view(p, d);
				break;
			case PG_SPLIT: { name = "split";
				static const char* delims[] = {",", ";,", " ", "", "\"", "a", ",; \t"};
				const char* dl = delims[pg_rnd(p, 7)]; bool q = pg_rnd(p, 2);
				strview_t s = v, t[5];
				for(int i = 0; i < 40 && s.data; i++) pg_view(p, pg_rnd(p, 2) ? strview_split_first_delim(&s, dl, q) : strview_split_last_delim(&s, dl, q));
				int m = strview_split_all(5, t, v, dl, q); pg_int(p, m); for(int i = 0; i < m && i < 5; i++) pg_view(p, t[i]);
				break; }
			case PG_LINES: { name = "lines"; strview_t s = v; char eol = 0; for(int i = 0; i < 60 && s.data && s.size; i++) { pg_view(p, strview_split_line(&s, &eol)); pg_int(p, (unsigned char)eol); } break; }
			case PG_SUB: { name = "sub"; int a = (int)pg_rnd(p, 40) - 20, z = (int)pg_rnd(p, 40) - 20; if(pg_rnd(p, 20) == 0) z = INT_MAX;
				pg_view(p, strview_sub(v, a, z)); strview_t s = v; pg_view(p, strview_split_index(&s, a)); pg_view(p, s);
				s = v; d = strview_sub(v, a, z); pg_view(p, strview_split_left(&s, d)); pg_view(p, s); s = v; pg_view(p, strview_split_right(&s, d)); pg_view(p, s);
				s = v; pg_int(p, (unsigned char)strview_pop_first_char(&s)); pg_view(p, s); break; }
			case PG_TRIM: name = "trim"; pg_view(p, strview_trim(v, w)); pg_view(p, strview_trim_start(v, w)); pg_view(p, strview_trim_end(v, w)); pg_view(p, strview_trim(v, (const char*)cs)); pg_view(p, strview_trim_start(v, (char*)cs)); pg_view(p, strview_trim_end(v, (const char*)cs)); break;
			case PG_COMPARE: { name = "compare"; if(pg_rnd(p, 2)) { w = v; if(w.size && pg_rnd(p, 2)) w.size--; }
				int c = strview_compare(v, w); pg_int(p, (c > 0) - (c < 0)); pg_int(p, strview_is_match(v, w)); pg_int(p, strview_is_match_nocase(v, w)); pg_int(p, v.data ? strview_starts_with(v, w) : 0); pg_int(p, v.data ? strview_starts_with_nocase(v, w) : 0);
				pg_int(p, strview_is_match(v, (const char*)cs)); pg_int(p, strview_is_match_nocase(v, (char*)cs)); pg_int(p, v.data ? strview_starts_with(v, (const char*)cs) : 0); pg_int(p, v.data ? strview_starts_with_nocase(v, (char*)cs) : 0); break; }
			case PG_DEQUOTE: { name = "dequote"; char t[300]; int m = 0; t[m++] = '"'; for(int i = 0; i < v.size; i++) t[m++] = v.data[i]; t[m++] = '"'; pg_view(p, strview_dequote((strview_t){.data = t, .size = m})); pg_view(p, strview_dequote(v)); break; }
			case PG_COPY: { name = "to_cstr"; char t[220]; int sz = (int)pg_rnd(p, 220); memset(t, 0x55, sizeof t); char* r = strview_to_cstr(t, sz, v); pg_int(p, r == t); if(sz) pg_bytes(p, t, strlen(t)); pg_view(p, cstr(cs)); break; }
			case PG_ASSIGN: name = "assign"; if(b->size > 2000) { strbuf_assign(&b, STRVIEW_INVALID); } else pg_view(p, strbuf_assign(&b, v)); pg_buf(p, &b); break;
			case PG_APPEND: name = "append"; if(b->size < 4000) { pg_view(p, strbuf_append(&b, v)); strbuf_append(&b, (const char*)cs); } pg_buf(p, &b); break;
			case PG_PREPEND: name = "prepend"; if(b->size < 4000) { pg_view(p, strbuf_prepend(&b, v)); strbuf_prepend(&b, (char*)cs); } pg_buf(p, &b); break;
			case PG_INSERT: name = "insert"; if(b->size < 4000) { pg_view(p, strbuf_insert_at_index(&b, (int)pg_rnd(p, b->size + 1), v)); strbuf_insert_at_index(&b, -1 - (int)pg_rnd(p, b->size + 1), (const char*)cs); } pg_buf(p, &b); break;
			case PG_INSREL: name = "insert_rel"; if(b->size < 4000) { d = strview_sub(strbuf_view(&b), (int)pg_rnd(p, b->size + 1), INT_MAX); strbuf_insert_before(&b, d, v); d = strview_sub(strbuf_view(&b), 0, (int)pg_rnd(p, b->size + 1)); strbuf_insert_after(&b, d, (const char*)cs); } pg_buf(p, &b); break;
			case PG_CAT: name = "cat"; pg_view(p, strbuf_cat(&b, v, w, strview_sub(strbuf_view(&b), -30, INT_MAX), v)); strbuf_cat(&b, strbuf_view(&b), cstr(cs)); pg_buf(p, &b); break;
			case PG_STRIP: name = "strip"; pg_view(p, pg_rnd(p, 2) ? strbuf_strip(&b, strview_sub(w, 0, 1)) : strbuf_strip(&b, ",")); pg_buf(p, &b); break;
			case PG_APPCHAR: name = "append_char"; for(int i = 0; i < 20; i++) strbuf_append_char(&b, (char)pg_rnd(p, 256)); if(b->size > 4000) strbuf_assign(&b, v); pg_buf(p, &b); break;
			/* the room offered depends on the capacity, so the fetcher works on a buffer of known capacity */
			case PG_USING: { name = "append_using"; strbuf_t* f = STRBUF_FIXED_CAP(100); strbuf_assign(&f, strview_sub(v, 0, 60)); for(int i = 0; i < 5; i++) pg_view(p, strbuf_append_using(&f, pg_fetch, p)); pg_buf(p, &f); break; }
			case PG_GROW: name = "grow"; strbuf_grow(&b, b->size + (int)pg_rnd(p, 100)); if(pg_rnd(p, 2)) strbuf_shrink(&b); pg_buf(p, &b); break;
			case PG_TOCSTR: { name = "buf_to_cstr"; strbuf_t* t = strbuf_create(v, p->alloc); pg_buf(p, &t); char* c = strbuf_to_cstr(&t); pg_int(p, t == NULL); pg_bytes(p, c, v.data ? v.size + 1 : 1); strbuf_allocator_t* al = p->alloc; if(al) al->allocator(al, c, 0); else free(c); break; }
			case PG_FIXED: { name = "fixed"; char __attribute__((aligned(16))) mem[300]; int sz = (int)(sizeof(strbuf_t) + 1 + pg_rnd(p, 250)); strbuf_t* f = strbuf_create_fixed(mem, sz); strbuf_append(&f, v); pg_buf(p, &f); strbuf_prepend(&f, w); pg_buf(p, &f); strbuf_insert_at_index(&f, (int)pg_rnd(p, f->size + 1), v); pg_buf(p, &f); strbuf_cat(&f, v, w, cstr(cs)); pg_buf(p, &f); pg_int(p, f->capacity); break; }
			#ifdef STRBUF_PROVIDE_PRINTF
			case PG_PRINTF: { name = "printf"; PG_SCRATCH(f, STRVIEW_INVALID); long x = (long)pg_next(p); pg_view(p, strbuf_printf(&f, "%s|%ld|%" PRIstr "|%c", cs, x, PRIstrarg(v), 'q')); strbuf_append_printf(&f, "%5d-%08lx-%.3f", (int)x, x, (double)(int)x / 7); pg_buf(p, &f); PG_DROP(f); break; }
			#endif
			#ifdef STRBUF_PROVIDE_PRNF
			case PG_PRNF: { name = "prnf"; PG_SCRATCH(f, STRVIEW_INVALID); int x = (int)pg_next(p); pg_view(p, strbuf_prnf(&f, "%s|%d|%c", cs, x, 'q')); strbuf_append_prnf(&f, "%5d-%08x", x, (unsigned)x); pg_buf(p, &f); PG_DROP(f); break; }
			#endif
			case PG_INTS: { name = "integers"; char t[160]; pg_number(p, t); strview_t s = cstr(t); int o = (int)pg_rnd(p, 64); if((o & 3) == 3) o &= ~2;
				long long ll = 7; unsigned u = 7; unsigned long long ull = 7; int i = 7; long l = 7; unsigned long ul = 7;
				strview_t s2 = s; pg_int(p, strnum_value(&ll, &s2, o)); pg_int(p, ll); pg_view(p, s2); s2 = s; pg_int(p, strnum_value(&u, &s2, o)); pg_int(p, u); pg_view(p, s2); s2 = s; pg_int(p, strnum_value(&ull, &s2, o)); pg_int(p, (int64_t)ull); pg_view(p, s2);
				s2 = s; pg_int(p, strnum_value(&i, &s2, o)); pg_int(p, i); s2 = s; pg_int(p, strnum_value(&l, &s2, o)); pg_int(p, l); s2 = s; pg_int(p, strnum_value(&ul, &s2, o)); pg_int(p, (int64_t)ul);
				pg_int(p, strnum_i32(s, -3, o)); pg_int(p, (int64_t)strnum_u64(s, 3, o)); pg_int(p, strnum_i64(s, -3, o)); pg_int(p, strnum_u32(s, 3, o)); pg_int(p, strnum_int(s, 5, o)); pg_int(p, strnum_uint(s, 5, o)); pg_int(p, strnum_long(s, 5, o)); pg_int(p, (int64_t)strnum_ulong(s, 5, o)); pg_int(p, strnum_llong(s, 5, o)); pg_int(p, (int64_t)strnum_ullong(s, 5, o)); break; }
			case PG_NARROW: { name = "narrow integers"; char t[160]; if(pg_rnd(p, 2)) snprintf(t, sizeof t, "%d", (int)pg_rnd(p, 140000) - 70000); else if(pg_rnd(p, 2)) snprintf(t, sizeof t, "%d", (int)pg_rnd(p, 600) - 300); else pg_number(p, t);
				strview_t s = cstr(t), s2; int o = (int)pg_rnd(p, 64); if((o & 3) == 3) o &= ~2;
				unsigned char uc = 7; short sh = 7; unsigned short us = 7;
				{ char c = 77; long long w = 0; strview_t s3 = s; s2 = s; int e = strnum_value(&c, &s2, o), x = strnum_value(&w, &s3, o); if(!x && (w < CHAR_MIN || w > CHAR_MAX)) x = ERANGE; pg_int(p, e == x && c == (x ? 77 : w) && strnum_char(s, 'd', o) == (x ? 'd' : w)); pg_int(p, s2.size == (x ? s : s3).size); }	/* judged by the limits of this build's char */
				s2 = s; pg_int(p, strnum_value(&uc, &s2, o)); pg_int(p, uc); pg_view(p, s2); s2 = s; pg_int(p, strnum_value(&sh, &s2, o)); pg_int(p, sh); s2 = s; pg_int(p, strnum_value(&us, &s2, o)); pg_int(p, us);
				pg_int(p, strnum_i8(s, -3, o)); pg_int(p, strnum_u8(s, 3, o)); pg_int(p, strnum_i16(s, -3, o)); pg_int(p, strnum_u16(s, 3, o)); pg_int(p, strnum_uchar(s, 5, o)); pg_int(p, strnum_short(s, 5, o)); pg_int(p, strnum_ushort(s, 5, o)); break; }
			#ifndef STRNUM_NOFLOAT
			case PG_FLOATS: { name = "floats"; char t[160]; pg_number(p, t); strview_t s = cstr(t), s2; int o = (int)pg_rnd(p, 64); if((o & 3) == 3) o &= ~2; float f = 7; double db = 7; long double ld = 7; char out[100]; int m;
				s2 = s; pg_int(p, strnum_value(&f, &s2, o)); pg_view(p, s2); m = snprintf(out, sizeof out, "%a", f); pg_bytes(p, out, m);
				s2 = s; pg_int(p, strnum_value(&db, &s2, o)); pg_view(p, s2); m = snprintf(out, sizeof out, "%a", db); pg_bytes(p, out, m);
				s2 = s; pg_int(p, strnum_value(&ld, &s2, o)); pg_view(p, s2); m = snprintf(out, sizeof out, "%La", ld); pg_bytes(p, out, m);
				m = snprintf(out, sizeof out, "%a %a %La", strnum_float(s, 1, o), strnum_double(s, 2, o), strnum_ldouble(s, 3, o)); pg_bytes(p, out, m); if(p->log) fprintf(p->log, " %s", out); break; }
			#endif
			case PG_IO: { name = "descriptors"; int fd[2]; if(pipe(fd)) { pg_int(p, -99); break; } strview_t s = v; pg_int(p, strview_write(fd[1], &s)); pg_int(p, s.size); strbuf_t* f = STRBUF_FIXED_CAP(90); strbuf_assign(&f, strview_sub(w, 0, 40)); if(v.data && v.size) pg_int(p, strbuf_append_read(&f, fd[0])); pg_buf(p, &f); pg_int(p, strbuf_write(fd[1], &f)); pg_buf(p, &f); close(fd[0]); close(fd[1]); break; }
			case PG_PACK: { name = "pack"; PG_SCRATCH(f, v);  uint64_t x = pg_next(p); uint32_t y = (uint32_t)x; int16_t z = (int16_t)x; uint8_t q = (uint8_t)x; STRBUF_PACK_LE(&f, x); STRBUF_PACK_BE(&f, x); STRBUF_PACK_BE(&f, y); STRBUF_PACK_LE(&f, z); STRBUF_PACK_BE(&f, z); STRBUF_PACK_BE(&f, q); pg_buf(p, &f);
				strview_t s = strview_sub(strbuf_view(&f), v.data ? v.size : 0, INT_MAX); if(f->size < (v.data ? v.size : 0) + 23) { PG_DROP(f); break; } uint64_t x2; uint32_t y2; int16_t z2; STRVIEW_UNPACK_LE(x2, s); pg_int(p, x2 == x); STRVIEW_UNPACK_BE(x2, s); pg_int(p, x2 == x); STRVIEW_UNPACK_BE(y2, s); pg_int(p, y2 == y); STRVIEW_UNPACK_LE(z2, s); pg_int(p, z2 == z); pg_view(p, s); PG_DROP(f); break; }
			#ifndef PROG_NOCRYPT
			case PG_CRYPT: { name = "crypt"; uint8_t key[32], iv[16]; for(int i = 0; i < 32; i++) key[i] = (uint8_t)pg_next(p); for(int i = 0; i < 16; i++) iv[i] = (uint8_t)pg_next(p); PG_SCRATCH(f, v);  pg_view(p, strbuf_encrypt(&f, key, iv)); pg_buf(p, &f); if(pg_rnd(p, 4) == 0 && f->size) f->cstr[0] ^= 1; pg_view(p, strbuf_decrypt(&f, key, iv)); pg_buf(p, &f); PG_DROP(f); break; }
			#endif
			case PG_SELF: name = "self-sourced"; if(b->size > 3 && b->size < 3000) { d = strview_sub(strbuf_view(&b), 1, b->size / 2 + 1); strbuf_append(&b, d); d = strview_sub(strbuf_view(&b), -3, INT_MAX); strbuf_insert_at_index(&b, (int)pg_rnd(p, b->size), d); d = strview_sub(strbuf_view(&b), 2, INT_MAX); strbuf_assign(&b, d); } pg_buf(p, &b); break;
			case PG_REFUSED: { name = "refused"; char __attribute__((aligned(16))) mem[300]; size_t at = pg_rnd(p, 17), sz = pg_rnd(p, 2) ? pg_rnd(p, 120) : sizeof(strbuf_t) + pg_rnd(p, 4); strbuf_t* f = strbuf_create_fixed(pg_rnd(p, 20) ? mem + at : NULL, sz); pg_int(p, f != NULL); if(f) { pg_int(p, f->capacity); strbuf_assign(&f, v); pg_buf(p, &f); pg_int(p, strbuf_grow(&f, (int)pg_rnd(p, 100)).data != NULL); }
				strbuf_t* r = strbuf_create((size_t)INT_MAX + 1 + pg_rnd(p, 100), p->alloc); pg_int(p, r == NULL); r = NULL; pg_view(p, strbuf_append(&r, v)); pg_view(p, strbuf_assign(&r, v)); pg_view(p, strbuf_cat(&r, v, w)); pg_view(p, strbuf_insert_before(&b, v, w)); pg_view(p, strbuf_insert_after(&b, STRVIEW_INVALID, w)); pg_buf(p, &b); break; }
			/* texts larger than any grow step, and growth byte by byte across steps */
			case PG_BIG: { name = "large"; strbuf_t* t = strbuf_create((int)pg_rnd(p, 3) * 1000, p->alloc); int goal = 1000 + (int)pg_rnd(p, 9000); while(t->size < goal) { if(pg_rnd(p, 3)) strbuf_append(&t, strview_sub((strview_t){.data = p->text, .size = p->text_n}, 0, 1 + (int)pg_rnd(p, p->text_n))); else if(pg_rnd(p, 2)) strbuf_prepend(&t, "0123456789"); else if(pg_rnd(p, 4)) strbuf_cat(&t, strbuf_view(&t), cstr("abc")); else strbuf_append_char(&t, 'c'); if(!t->size) break; }
				strbuf_append(&t, strbuf_view(&t)); pg_buf(p, &t); strbuf_t* u = strbuf_create(0, p->alloc); strbuf_assign(&u, strbuf_view(&t)); strbuf_append_char(&u, 'x'); pg_buf(p, &u); strbuf_shrink(&u); strbuf_append_char(&u, 'y'); pg_buf(p, &u); strbuf_destroy(&u); strbuf_destroy(&t); break; }
			default: name = NULL; break;	/* not in this build */
		}
		if(p->log) fprintf(p->log, " = %s %016llx\n", name ? name : "-", (unsigned long long)p->h);
		p->res[k] = p->h; p->name[k] = name; p->n++;
	}
	strbuf_destroy(&b);
}
#endif
