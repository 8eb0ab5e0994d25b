/*	Monitor C28: requests for memory fail at every position of every operation, in the one way the documentation leaves to
	an allocator - it does not return (here by longjmp to the caller of the operation, as an embedded program's recovery
	point would be). The buffer variable must then still refer to a live, well-formed buffer with the contents the
	statement allows, every other buffer and block must be as before, and the operation must succeed when tried again. */
#include "rec.h"
#include <setjmp.h>
#include "strbuf_crypt.h"
#include "strbuf_pack.h"
static jmp_buf g_env;
static int g_fail;	/* requests until the failing one, negative: never */
static size_t g_failed_size;
static void* fail_alloc(strbuf_allocator_t* self, void* ptr, size_t size)
{
	if(size && g_fail >= 0 && g_fail-- == 0) { g_failed_size = size; longjmp(g_env, 1); }
	return rec_alloc(self, ptr, size);
}
static strbuf_allocator_t g_al = {.allocator = fail_alloc, .app_data = NULL};

enum { APPEND, APPEND_CSTR, PREPEND, INSERT, BEFORE, AFTER, CHAR, PACK, GROW, SHRINK, ASSIGN, CAT, PRINTF, APRINTF, PRNF, APRNF, ENCRYPT, DECRYPT, CREATE, CREATE_INIT, NOPS };
static const char* g_names[] = {"append", "append (C string)", "prepend", "insert_at_index", "insert_before", "insert_after", "append_char", "pack", "grow", "shrink", "assign", "cat", "printf", "append_printf", "prnf", "append_prnf", "encrypt", "decrypt", "create_empty", "create_init"};
#define TXT 6000
typedef struct { int k, idx, off, len, off2, len2, nargs; bool self; char c; char text[TXT + 1]; int tn; uint8_t key[32], iv[16]; } op_t;
static op_t g_op;
static strbuf_t *g_buf[2], *g_made;
static char g_c[2][1 << 17]; static int g_n[2];
static char g_exp[1 << 17];

/* the same operation on any buffer; arguments taken from the buffer itself are given by position */
static void perform(strbuf_t** b, const op_t* o)
{
	strview_t own = strview_sub(strbuf_view(b), o->off, o->off + o->len), own2 = strview_sub(strbuf_view(b), o->off2, o->off2 + o->len2);
	strview_t txt = {.data = o->text, .size = o->tn};
	strview_t a = o->self && own.data ? own : txt, a2 = o->self && own2.data ? own2 : txt;
	switch(o->k)
	{
		case APPEND: strbuf_append(b, a); break;
		case APPEND_CSTR: strbuf_append(b, (const char*)o->text); break;
		case PREPEND: strbuf_prepend(b, a); break;
		case INSERT: strbuf_insert_at_index(b, o->idx, a); break;
		case BEFORE: strbuf_insert_before(b, own2, a); break;
		case AFTER: strbuf_insert_after(b, own2, a); break;
		case CHAR: strbuf_append_char(b, o->c); break;
		case PACK: STRBUF_PACK_BE(b, (uint64_t)0x0102030405060708ull); break;
		case GROW: strbuf_grow(b, o->idx); break;
		case SHRINK: strbuf_shrink(b); break;
		case ASSIGN: strbuf_assign(b, a); break;
		case CAT: if(o->nargs == 1) strbuf_cat(b, a); else if(o->nargs == 2) strbuf_cat(b, a, a2); else strbuf_cat(b, a2, txt, a, a2); break;
		case PRINTF: strbuf_printf(b, "%s-%d", o->text, o->idx); break;
		case APRINTF: strbuf_append_printf(b, "%s-%d", o->text, o->idx); break;
		case PRNF: strbuf_prnf(b, "%s-%d", o->text, o->idx); break;
		case APRNF: strbuf_append_prnf(b, "%s-%d", o->text, o->idx); break;
		case ENCRYPT: strbuf_encrypt(b, (uint8_t*)o->key, (uint8_t*)o->iv); break;
		case DECRYPT: strbuf_decrypt(b, (uint8_t*)o->key, (uint8_t*)o->iv); break;
		case CREATE: g_made = strbuf_create((size_t)o->tn, &g_al); break;
		default: g_made = strbuf_create(txt, &g_al); break;
	}
}
static void take(int w) { g_n[w] = g_buf[w]->size; memcpy(g_c[w], g_buf[w]->cstr, g_n[w]); }
static bool holds(int w) { return g_buf[w]->size == g_n[w] && !memcmp(g_buf[w]->cstr, g_c[w], g_n[w]); }
static void draw(int w)
{
	op_t* o = &g_op; int n = g_n[w], room = g_buf[w]->capacity - n;
	o->k = rnd(NOPS); o->self = chance(40); o->c = (char)rnd64(); o->nargs = 1 + rnd(3);
	o->tn = chance(40) ? room + (int)rndr(-2, 3) : chance(5) ? (int)rnd(TXT) : rnd_size(300);
	if(o->tn < 0) o->tn = 0;
	if(o->tn > TXT) o->tn = TXT;
	rnd_text(o->text, o->tn, -1); o->text[o->tn] = 0;
	if(o->k >= PRINTF && o->k <= APRNF) for(int i = 0; i < o->tn; i++) if(!o->text[i]) o->text[i] = 'z';
	o->off = n ? rnd(n) : 0; o->len = n ? (int)rnd(n - o->off + 1) : 0; o->off2 = n ? rnd(n) : 0; o->len2 = n ? (int)rnd(n - o->off2 + 1) : 0;
	if(chance(30)) { o->off = 0; o->len = n; }
	o->idx = o->k == GROW ? (int)rnd(n + room + 40) : chance(10) ? rnd_index(n) : (int)rndr(-n - 1, n + 1);
	for(int i = 0; i < 32; i++) o->key[i] = (uint8_t)rnd64();
	for(int i = 0; i < 16; i++) o->iv[i] = (uint8_t)rnd64();
	if(n > 20000 && o->k < SHRINK) o->k = ASSIGN;
	if(o->k == ASSIGN && n > 20000) o->self = false;
}
static bool prefix_of_output(const char* p, int n)
{
	char* out = g_exp; int m = snprintf(out, sizeof g_exp, "%s-%d", g_op.text, g_op.idx);
	return n <= m && !memcmp(p, out, n);
}
static void run(uint64_t ci)
{
	uint64_t sig = 3; uint64_t failures = 0; char log[300] = "";
	(void)ci;
	g_fail = -1; g_made = NULL;
	for(int w = 0; w < 2; w++)
	{
		char t[200]; int n = chance(20) ? 0 : (int)rnd(200); rnd_text(t, n, -1);
		g_buf[w] = chance(50) ? strbuf_create(((strview_t){t, n}), &g_al) : strbuf_create((size_t)n, &g_al);
		CHECK(g_buf[w], "C28:create", "creation failed");
		take(w);
	}
	int steps = 4 + rnd(16);
	for(int s = 0; s < steps; s++)
	{
		int w = rnd(2); draw(w);
		op_t* o = &g_op; const char* name = g_names[o->k];
		int k = chance(55) ? 0 : chance(70) ? 1 : chance(50) ? 2 : (int)rnd(20);
		int live = rec_nlive, cap = g_buf[w]->capacity;
		
		volatile bool failed = false;
		vh_trace("%s: %d bytes of capacity %d, text %d, own %d+%d, request %d is to fail", name, g_n[w], cap, o->tn, o->self ? o->off : -1, o->len, k);
		g_fail = k; g_made = NULL;
		if(!setjmp(g_env)) perform(&g_buf[w], &g_op); else failed = true;
		g_fail = -1;

		rec_shape(name, g_buf[w], -1, NULL);
		rec_shape(name, g_buf[!w], -1, NULL);
		CHECK(holds(!w), "C28:other-buffer", "%s changed another buffer", name);
		bool creation = o->k == CREATE || o->k == CREATE_INIT;
		if(!failed)
		{
			if(creation && g_made) { rec_shape(name, g_made, -1, NULL); strbuf_destroy(&g_made); }
			CHECK(rec_nlive == live, "C28:leak", "%s left %d blocks more", name, rec_nlive - live);
			take(w);
			vh_count("not-failed");
			sig = vh_mix(sig, o->k);
			continue;
		}
		failures++;
		sig = vh_mix(vh_mix(sig, (uint64_t)o->k * 64 + k), (uint64_t)g_n[w] * 4096 + g_failed_size);
		if(strlen(log) < 250) sprintf(log + strlen(log), "%s#%d ", name, k);
		vh_count(name);
		if(k == 1) vh_count("second-request"); else if(k > 1) vh_count("later-request");
		/* only one temporary copy may be lost */
		int lost = rec_nlive - live;
		CHECK(lost == 0 || (lost == 1 && !creation), "C28:leak", "%s whose request %d for %zu bytes failed left %+d blocks", name, k, g_failed_size, lost);
		if(lost)
		{
			vh_count("lost-temporary");
			for(int i = 0; i < REC_MAX; i++) if(rec_blk[i].live && rec_blk[i].p != (char*)g_buf[0] && rec_blk[i].p != (char*)g_buf[1]) rec_drop(&rec_blk[i]);
		}
		bool same = holds(w);
		int m = g_buf[w]->size; const char* p = g_buf[w]->cstr;
		if(same) vh_count("contents-kept");
		else
		{
			bool replacing = o->k == ASSIGN || o->k == CAT || o->k == PRINTF || o->k == PRNF;
			bool ok = replacing && m == 0;
			ok |= (o->k == PRNF) && prefix_of_output(p, m);
			ok |= (o->k == APRNF) && m >= g_n[w] && !memcmp(p, g_c[w], g_n[w]) && prefix_of_output(p + g_n[w], m - g_n[w]);
			CHECK(ok, "C28:contents", "%s whose request %d failed: %s became %s", name, k, vh_q(g_c[w], g_n[w]), vh_q(p, m));
			vh_count("contents-part");
			take(w);
		}
		if(creation) continue;
		/* tried again it does what it does to a buffer of the same contents and capacity that has seen no failure */
		if(same && chance(70))
		{
			strbuf_t* twin = strbuf_create((size_t)g_buf[w]->capacity, &g_al);
			strbuf_assign(&twin, ((strview_t){g_c[w], g_n[w]}));
			perform(&twin, o);
			perform(&g_buf[w], o);
			rec_shape(name, g_buf[w], -1, NULL);
			CHECK(g_buf[w]->size == twin->size && !memcmp(g_buf[w]->cstr, twin->cstr, twin->size), "C28:retry", "%s tried again gave %s instead of %s", name, vh_q(g_buf[w]->cstr, g_buf[w]->size), vh_q(twin->cstr, twin->size));
			strbuf_destroy(&twin);
			take(w);
			vh_count("retried");
		}
	}
	for(int w = 0; w < 2; w++) { CHECK(holds(w), "C28:contents", "a buffer changed unnoticed"); strbuf_destroy(&g_buf[w]); }
	CHECK(rec_nlive == 0, "C28:leak", "%d blocks remain after the buffers were destroyed", rec_nlive);
	rec_reset();
	if(vh_want_sample()) vh_sample("failed: %s", log);
	vh_case(sig, failures > 0);
}
int main(int argc, char** argv) { return vh_main(argc, argv, NULL, run); }
