/*	Monitors C09..C14: histories of edits on several buffers, next to an ideal-string model,
	a recording allocator that always relocates, and guarded fixed memory.
	Only the monitors of the property being checked report; the others resynchronise the model. */
#include <sys/mman.h>
#include "vh.h"
#include "strbuf.h"
#include "strbuf_io.h"
#include "strbuf_pack.h"
#include "strbuf_crypt.h"
#include <unistd.h>
#include <fcntl.h>

/* ---------------------------------------------------------------- recording allocator */
#define CANARY 0xC5
#define PAD 16
typedef struct { char* p; size_t n; const void* owner; int live; } blk_t;
#define MAXBLK 64
static blk_t g_blk[MAXBLK];
#define RMAX (1 << 24)
static int g_nlive;
static uint64_t g_alloc_calls;
/* what the buffer under operation was created with; NULL: no allocator call may happen */
static const strbuf_allocator_t* g_expect;
static bool g_case_dead;
static int g_realloc_inplace;	/* percentage of shrinking reallocations that stay in place */
static const char* g_op = "";
static bool g_is[20];	/* g_is[n]: property C<n> is being checked */
#define IS(n) g_is[n]
#define MON(n, cond, key, ...) do { if(!(cond)) { if(IS(n)) vh_fail(key, __VA_ARGS__); else { vh_count("other-monitor"); g_case_dead = true; } } vh.events++; } while(0)

static blk_t* blk_find(const void* p)
{
	for(int i = 0; i < MAXBLK; i++) if(g_blk[i].live && g_blk[i].p == p) return &g_blk[i];
	return NULL;
}
static char* raw_new(size_t n)
{
	#if defined(VH_ASAN) || defined(VH_MSAN)
	return malloc(n);
	#else
	char* r = malloc(n + 2 * PAD);
	if(!r) return r;
	memset(r, CANARY, PAD); memset(r + PAD + n, CANARY, PAD);
	memset(r + PAD, 0xA5, n);
	return r + PAD;
	#endif
}
static bool raw_ok(const char* p, size_t n)
{
	#if !defined(VH_ASAN) && !defined(VH_MSAN)
	for(int i = 1; i <= PAD; i++) if((unsigned char)p[-i] != CANARY || (unsigned char)p[n + i - 1] != CANARY) return false;
	#endif
	(void)p; (void)n;
	return true;
}
static void raw_del(char* p, size_t n)
{
	#if defined(VH_ASAN) || defined(VH_MSAN)
	(void)n; free(p);
	#else
	memset(p, 0xDD, n);
	free(p - PAD);
	#endif
}
static void* alloc_common(int fn, strbuf_allocator_t* self, void* ptr, size_t size);
static void* alloc_a(strbuf_allocator_t* self, void* ptr, size_t size) { return alloc_common(0, self, ptr, size); }
static void* alloc_b(strbuf_allocator_t* self, void* ptr, size_t size) { return alloc_common(1, self, ptr, size); }
#define NAL 6
static strbuf_allocator_t g_al[NAL];	/* the last two serve as the default allocator */
static int g_tags[NAL];
strbuf_allocator_t strbuf_default_allocator;	/* overrides the library's own; changes during a history */
static int g_default = -1;
static void set_default(void)
{
	g_default = chance(35) ? -1 : chance(85) ? (int)rndr(4, 5) : (int)rnd(NAL);
	if(g_default < 0) { strbuf_default_allocator = (strbuf_allocator_t){.allocator = NULL, .app_data = chance(50) ? &g_tags[0] : NULL}; vh_count("no-default-allocator"); }
	else { strbuf_default_allocator = g_al[g_default]; vh_count("default-allocator"); }
}
static void* alloc_common(int fn, strbuf_allocator_t* self, void* ptr, size_t size)
{
	g_alloc_calls++;
	vh_trace("  alloc fn=%d tag=%d ptr=%s size=%zu", fn, self ? (int)((int*)self->app_data - g_tags) : -1, ptr ? "block" : "NULL", size);
	MON(13, g_expect != NULL, "C13:unexpected-call", "%s called an allocator (size %zu)", g_op, size);
	if(g_expect)
	{
		MON(13, self && self->app_data == g_expect->app_data, "C13:app_data", "%s passed a different app_data", g_op);
		MON(13, self && self->allocator == g_expect->allocator, "C13:self", "%s passed an allocator structure with another function", g_op);
		MON(13, (fn ? alloc_b : alloc_a) == g_expect->allocator, "C13:function", "%s called another allocator's function", g_op);
	}
	const void* owner = self ? self->app_data : NULL;	/* self may live inside the block */
	blk_t* b = ptr ? blk_find(ptr) : NULL;
	if(ptr)
	{
		MON(13, b != NULL, "C13:foreign-block", "%s passed an address that is not a live block", g_op);
		if(b) MON(13, !g_expect || b->owner == g_expect->app_data, "C13:wrong-owner", "%s passed a block of another allocator", g_op);
		if(b) MON(11, raw_ok(b->p, b->n), "C11:overrun", "%s wrote outside a block of %zu bytes", g_op, b->n);
	}
	if(size == 0)
	{
		if(b) { raw_del(b->p, b->n); b->live = 0; g_nlive--; }
		return NULL;
	}
	if(size > (1u << 26))
	{
		MON(14, false, "C14:huge-request", "%s requested %zu bytes", g_op, size);
		CHECK(false, "absurd-allocation", "%s requested %zu bytes for contents of at most %d", g_op, size, RMAX);
	}
	if(b && size <= b->n && (int)rnd(100) < g_realloc_inplace)
	{
		#if !defined(VH_ASAN) && !defined(VH_MSAN)
		memset(b->p + size, CANARY, size + PAD <= b->n ? PAD : b->n + PAD - size);
		b->n = size;
		return b->p;
		#endif
	}
	char* n = raw_new(size);
	if(!n) vh_harness_error("malloc");
	if(b)
	{
		memcpy(n, b->p, size < b->n ? size : b->n);
		raw_del(b->p, b->n); b->live = 0; g_nlive--;
	}
	for(int i = 0; i < MAXBLK; i++) if(!g_blk[i].live)
	{
		g_blk[i] = (blk_t){n, size, owner, 1}; g_nlive++;
		return n;
	}
	CHECK(false, "lost-blocks", "%s: %d blocks are live", g_op, MAXBLK);
	return NULL;
}

/* ---------------------------------------------------------------- buffers under test and their model */
enum { DYN, FIXED, STATIC };
typedef struct
{
	strbuf_t* buf;
	int kind;
	const strbuf_allocator_t* al;
	char* b; int n, cap;	/* the ideal string; cap: capacity by the policy */
	char* mem; size_t memn; char* pre; size_t pren; char* post; size_t postn;	/* fixed: canary areas */
	strbuf_t* home;
} tb_t;
#define NTB 3
static tb_t g_tb[NTB];
static char g_r[RMAX]; static int g_rn;	/* the ideal result of the operation */
static char g_x[1 << 20];

enum { WIDE = 1 };	/* capacities given as expressions */
typedef struct { strbuf_space_t(0) s; char post[PAD]; } sp0_t;
typedef struct { strbuf_space_t(7) s; char post[PAD]; } sp7_t;
typedef struct { strbuf_space_t(50) s; char post[PAD]; } sp50_t;
typedef struct { strbuf_space_t(300) s; char post[PAD]; } sp300_t;
typedef struct { strbuf_space_t(WIDE ? 8 : 3) s; char post[PAD]; } sp8_t;
typedef struct { strbuf_space_t(WIDE ? 16 : 3) s; char post[PAD]; } sp16_t;
typedef struct { strbuf_space_t(1) s; char post[PAD]; } sp1_t;
static sp8_t g_sp8[NTB]; static sp16_t g_sp16[NTB]; static sp1_t g_sp1[NTB];
static sp0_t g_sp0[NTB]; static sp7_t g_sp7[NTB]; static sp50_t g_sp50[NTB]; static sp300_t g_sp300[NTB];
static strbuf_t* g_file_scope = STRBUF_FIXED_CAP(33);
#include "cat_n.h"
#define VCAT_10(v, k) v[k], v[k + 1], v[k + 2], v[k + 3], v[k + 4], v[k + 5], v[k + 6], v[k + 7], v[k + 8], v[k + 9]
#define VCAT_100(v, k) VCAT_10(v, k), VCAT_10(v, k + 10), VCAT_10(v, k + 20), VCAT_10(v, k + 30), VCAT_10(v, k + 40), VCAT_10(v, k + 50), VCAT_10(v, k + 60), VCAT_10(v, k + 70), VCAT_10(v, k + 80), VCAT_10(v, k + 90)
#define VCAT_ALL(v) VCAT_100(v, 0), VCAT_100(v, 100), VCAT_100(v, 200)
#define VCAT_MANY 300
/* made by STRBUF_FIXED_CAP in the frame of the running history, from whatever the stack held */
#define NLOCAL 5
static const int g_local_cap[NLOCAL] = {0, 1, 24, 31, 200};
static strbuf_t* g_local[NLOCAL];
static __attribute__((noinline)) void dirty_stack(void) { volatile char a[6000]; memset((void*)a, 0xA5, sizeof a); }

static int round_up(int need)
{
	int64_t step = STRBUF_CAPACITY_GROW_STEP, r = (need + step - 1) / step * step;
	return r > INT_MAX ? INT_MAX : (int)r;
}
static bool self_kind(const tb_t* t, const char* p) { return t->buf && p >= (char*)t->buf && p <= t->buf->cstr + t->buf->capacity; }
/* structure, memory and return value after an operation */
static void check_shape(tb_t* t)
{
	strbuf_t* u = t->buf;
	if(t->kind == DYN)
	{
		blk_t* b = blk_find(u);
		MON(13, b != NULL, "C13:buffer-not-a-block", "after %s the buffer is not a live block of its allocator", g_op);
		if(!b) { g_case_dead = true; return; }
		MON(13, b->owner == t->al->app_data, "C13:wrong-owner", "after %s the buffer lives in another allocator's block", g_op);
		MON(13, u->allocator.allocator == t->al->allocator && u->allocator.app_data == t->al->app_data, "C13:allocator-lost", "after %s the buffer's allocator changed", g_op);
		MON(11, u->size >= 0 && u->size <= u->capacity, "C11:size", "after %s size %d capacity %d", g_op, u->size, u->capacity);
		MON(11, u->capacity >= 0 && offsetof(strbuf_t, cstr) + (size_t)u->capacity + 1 <= b->n, "C11:memory", "after %s capacity %d does not fit its block of %zu bytes", g_op, u->capacity, b->n);
		MON(11, raw_ok(b->p, b->n), "C11:overrun", "%s wrote outside the buffer's block of %zu bytes", g_op, b->n);
	}
	else
	{
		MON(12, u == t->home, "C12:moved", "after %s the fixed buffer moved", g_op);
		if(u != t->home) { g_case_dead = true; return; }
		MON(12, u->capacity == t->cap, "C12:capacity", "after %s capacity %d, was %d", g_op, u->capacity, t->cap);
		MON(11, u->size >= 0 && u->size <= u->capacity && u->capacity <= t->cap, "C11:size", "after %s size %d capacity %d", g_op, u->size, u->capacity);
		for(size_t i = 0; i < t->pren; i++) { MON(12, (unsigned char)t->pre[i] == CANARY, "C12:wrote-before", "%s wrote before the fixed memory", g_op); }
		for(size_t i = 0; i < t->postn; i++) { MON(12, (unsigned char)t->post[i] == CANARY, "C12:wrote-after", "%s wrote %zu bytes after the fixed memory", g_op, i); }
	}
	if(u->size < 0 || u->size > u->capacity) { g_case_dead = true; return; }
	#ifdef VH_MSAN
	if(IS(11)) __msan_check_mem_is_initialized(u->cstr, (size_t)u->size + 1);
	if(__msan_test_shadow(u->cstr, (size_t)u->size + 1) != -1) { g_case_dead = true; return; }
	#endif
	MON(11, u->cstr[u->size] == 0, "C11:terminator", "after %s no NUL at size %d", g_op, u->size);
}
static void check_view(tb_t* t, strview_t v)
{
	MON(11, v.data == t->buf->cstr && v.size == t->buf->size, "C11:returned-view", "%s returned %s view of size %d, contents are %d bytes", g_op, !v.data ? "an invalid" : v.data == t->buf->cstr ? "a" : "another", v.size, t->buf->size);
}
static void resync(tb_t* t)
{
	t->n = t->buf->size;
	if(t->n > RMAX) { g_case_dead = true; t->n = 0; return; }
	t->b = realloc(t->b, t->n + 1);
	memcpy(t->b, t->buf->cstr, t->n);
}
/* op_kind: which property owns the content */
enum { K_NORMAL, K_SELF, K_UNSPEC };
static void after(tb_t* t, strview_t ret, int kind, strbuf_t* old)
{
	check_shape(t);
	if(g_case_dead) return;
	check_view(t, ret);
	strbuf_t* u = t->buf;
	bool over = t->kind != DYN && g_rn > t->cap;
	if(over)
	{
		vh_count("fixed-overflow");
		if(kind != K_UNSPEC) MON(12, u->size == 0, "C12:not-emptied", "%s of a result of %d bytes in a fixed capacity of %d left %d bytes %s", g_op, g_rn, t->cap, u->size, vh_q(u->cstr, u->size));
	}
	else if(kind != K_UNSPEC)
	{
		bool same = u->size == g_rn && !memcmp(u->cstr, g_r, g_rn);
		if(kind == K_SELF) { MON(10, same, "C10:content", "%s expected %s got %s", g_op, vh_q(g_r, g_rn), vh_q(u->cstr, u->size)); vh_count("self-sourced"); }
		else MON(9, same, "C09:content", "%s expected %s got %s", g_op, vh_q(g_r, g_rn), vh_q(u->cstr, u->size));
	}
	if(t->kind == DYN && kind != K_UNSPEC)
	{
		int want = g_rn <= t->cap ? t->cap : round_up(g_rn);
		MON(14, u->capacity == want, "C14:capacity", "%s: %d bytes needed, capacity %d -> %d, expected %d (grow step %d)", g_op, g_rn, t->cap, u->capacity, want, (int)STRBUF_CAPACITY_GROW_STEP);
		if(g_rn <= t->cap && kind == K_NORMAL) MON(14, u == old, "C14:moved", "%s fits the capacity %d but moved the buffer", g_op, t->cap);
		if(u->capacity != t->cap) vh_count("grown"); else vh_count("fitted");
	}
	if(t->kind == DYN) t->cap = u->capacity;
	resync(t);
	MON(13, true, "", "%s", "");
	int dyn = 0;
	for(int i = 0; i < NTB; i++) dyn += g_tb[i].buf && g_tb[i].kind == DYN;
	MON(13, g_nlive == dyn, "C13:leak", "after %s %d blocks are live for %d dynamic buffers", g_op, g_nlive, dyn);
}
static void no_leak(void)
{
	int dyn = 0;
	for(int i = 0; i < NTB; i++) dyn += g_tb[i].buf && g_tb[i].kind == DYN;
	MON(13, g_nlive == dyn, "C13:leak", "after %s %d blocks are live for %d dynamic buffers", g_op, g_nlive, dyn);
}

/* ---------------------------------------------------------------- creation, destruction */
static int gen_cap(void)
{
	switch(rnd(6)) { case 0: return 0; case 1: return rnd(5); case 2: return rnd(40); case 3: return 16 * rnd(4) + (int)rndr(0, 1); case 4: return rnd(300); default: return rnd_size(2000); }
}
static void expect_created(tb_t* t, int cap, const char* init, int n)
{
	if(!t->buf)
	{
		if(t->kind == DYN) MON(13, false, "C13:create-failed", "%s returned null", g_op);
		else MON(12, false, "C12:create-failed", "%s returned null", g_op);
		g_case_dead = true; return;
	}
	t->cap = cap; t->home = t->buf;
	if(t->kind == DYN) MON(14, t->buf->capacity == cap, "C14:created", "%s: capacity %d expected %d", g_op, t->buf->capacity, cap);
	if(t->kind == DYN) t->cap = t->buf->capacity;
	check_shape(t);
	if(g_case_dead) return;
	MON(9, t->buf->size == n && !memcmp(t->buf->cstr, init, n), "C09:created", "%s: initial contents %s expected %s", g_op, vh_q(t->buf->cstr, t->buf->size), vh_q(init, n));
	check_view(t, strbuf_view(&t->buf));
	resync(t);
	no_leak();
}
static void create(tb_t* t)
{
	int cap = gen_cap(), i = t - g_tb, k;
	t->mem = t->pre = t->post = NULL; t->memn = t->pren = t->postn = 0;
	t->buf = NULL;
	int fixed_pct = IS(12) ? 85 : IS(14) ? 10 : IS(13) ? 30 : 40;
	g_expect = NULL;
	if(chance(fixed_pct))
	{
		k = rnd(7);
		if(k == 6)
		{
			int j = rnd(NLOCAL);
			if(g_local[j])
			{
				t->kind = STATIC; g_op = "STRBUF_FIXED_CAP";
				t->buf = g_local[j]; g_local[j] = NULL;
				expect_created(t, g_local_cap[j], "", 0);
				vh_count("created-local");
				return;
			}
			k = rnd(6);
		}
		if(k == 0 || k == 1)
		{
			t->kind = STATIC; g_op = "static init";
			if(k == 1 && i == 0 && chance(30)) { t->buf = g_file_scope; t->kind = STATIC; t->buf->size = 0; t->buf->cstr[0] = 0; expect_created(t, 33, "", 0); vh_count("created-static"); return; }
			switch(rnd(7))
			{
				#define MKSTATIC(a, c) { memset(&a[i], CANARY, sizeof a[i]); __typeof__(a[i].s) z = STRBUF_STATIC_INIT(c); a[i].s = z; t->buf = (strbuf_t*)&a[i].s; t->post = a[i].post; t->postn = PAD; cap = c; break; }
				case 0: MKSTATIC(g_sp0, 0)
				case 1: MKSTATIC(g_sp7, 7)
				case 2: MKSTATIC(g_sp50, 50)
				case 3: MKSTATIC(g_sp8, WIDE ? 8 : 3)
				case 4: MKSTATIC(g_sp16, WIDE ? 16 : 3)
				case 5: MKSTATIC(g_sp1, 1)
				default: MKSTATIC(g_sp300, 300)
			}
			expect_created(t, cap, "", 0);
			vh_count("created-static");
			return;
		}
		t->kind = FIXED; g_op = "create_fixed";
		size_t n = sizeof(strbuf_t) + 1 + cap;
		#ifdef VH_ASAN
		t->mem = vh_place(NULL, n, true);
		#else
		/* aligned start, then canaries up to the guard page */
		size_t tail = (8 - n % 8) % 8;
		t->mem = vh_place(NULL, PAD + n + tail, true);
		memset(t->mem, CANARY, PAD + n + tail);
		t->pre = t->mem; t->pren = PAD; t->mem += PAD; t->post = t->mem + n; t->postn = tail;
		#endif
		memset(t->mem, 0x5A, n);
		#ifdef VH_MSAN
		__msan_poison(t->mem, n);
		#endif
		t->memn = n;
		t->buf = strbuf_create_fixed(t->mem, n);
		MON(12, (char*)t->buf == t->mem, "C12:placed", "create_fixed(%zu bytes) did not place the buffer at the given address", n);
		expect_created(t, cap, "", 0);
		vh_count("created-fixed");
		return;
	}
	t->kind = DYN;
	bool dflt = g_default >= 0 && chance(40);
	t->al = &g_al[dflt ? g_default : (int)rnd(4)];
	g_expect = t->al;
	strbuf_allocator_t given = *t->al, *gp = dflt ? NULL : &given;	/* the caller's structure need not outlive the call */
	if(dflt) vh_count("created-by-default-allocator");
	if(chance(50))
	{
		g_op = "create_empty";
		vh_trace("create_empty %d", cap);
		t->buf = chance(50) ? strbuf_create((size_t)cap, gp) : strbuf_create(cap, gp);
		memset(&given, 0, sizeof given);
		expect_created(t, cap, "", 0);
	}
	else
	{
		g_op = "create_init";
		int n = chance(10) ? -1 : cap;
		if(n > 0) rnd_text(g_x, n, -1);
		strview_t v = n < 0 ? STRVIEW_INVALID : (strview_t){.data = vh_place(g_x, n, true), .size = n};
		vh_trace("create_init %d", n);
		t->buf = strbuf_create(v, gp);
		memset(&given, 0, sizeof given);
		expect_created(t, n < 0 ? 0 : n, g_x, n < 0 ? 0 : n);
	}
	vh_count("created-dynamic");
	g_expect = NULL;
}
static strview_t vcat_wrap(strbuf_t** b, int n, ...)
{
	va_list va; va_start(va, n);
	strview_t r = strbuf_vcat(b, n, va);
	va_end(va);
	return r;
}
static void reject_creations(void)
{
	g_expect = NULL;
	g_op = "refused create";
	strbuf_allocator_t none = {0};
	MON(13, strbuf_create((size_t)10, &none) == NULL, "C13:create-no-function", "creation without an allocator function succeeded");
	MON(13, strbuf_create(cstr("x"), &none) == NULL, "C13:create-no-function", "creation without an allocator function succeeded");
	if(g_default < 0)
	{
		MON(13, strbuf_create((size_t)10, NULL) == NULL, "C13:create-no-default", "creation without a default allocator succeeded");
		MON(13, strbuf_create(cstr("x"), NULL) == NULL, "C13:create-no-default", "creation without a default allocator succeeded");
	}
	size_t big[] = {(size_t)INT_MAX + 1, (size_t)INT_MAX + 1 + rnd(1000), (size_t)UINT_MAX, (size_t)UINT_MAX + 1, (size_t)UINT_MAX + 1 + rnd(1000), SIZE_MAX, SIZE_MAX - rnd(100), SIZE_MAX / 2 + rnd(100)};
	MON(13, strbuf_create(big[rnd(8)], g_default >= 0 && chance(30) ? NULL : &g_al[rnd(4)]) == NULL, "C13:create-too-big", "creation beyond INT_MAX succeeded");
	static char mem[sizeof(strbuf_t) + 64] __attribute__((aligned(16)));
	size_t n = rnd(sizeof(strbuf_t) + 1);
	MON(12, strbuf_create_fixed(mem, n) == NULL, "C12:create-small", "creation in %zu bytes succeeded", n);
	MON(12, strbuf_create_fixed(NULL, rnd(100)) == NULL, "C12:create-null", "creation in no memory succeeded");
	int off = 1 + rnd(7);
	memset(mem, 0x11, sizeof mem);
	MON(12, strbuf_create_fixed(mem + off, sizeof(strbuf_t) + 1 + rnd(40)) == NULL, "C12:create-misaligned", "creation at offset %d succeeded", off);
	for(size_t k = 0; k < sizeof mem; k++) MON(12, mem[k] == 0x11, "C12:refused-but-written", "a refused creation wrote byte %zu", k);
	vh_count("refused-creations");
	/* every operation on a null buffer */
	strbuf_t* nb = NULL; strbuf_t** pp = chance(50) ? &nb : NULL; strview_t s = cstr("a"); strview_t r[20]; int q = 0;
	g_op = "operation on a null buffer";
	r[q++] = strbuf_view(pp); r[q++] = strbuf_assign(pp, s); r[q++] = strbuf_append(pp, s); r[q++] = strbuf_append(pp, "a"); r[q++] = strbuf_prepend(pp, s);
	r[q++] = strbuf_insert_at_index(pp, 0, s); r[q++] = strbuf_insert_before(pp, s, s); r[q++] = strbuf_insert_after(pp, s, s); r[q++] = strbuf_strip(pp, s);
	r[q++] = strbuf_append_char(pp, 'a'); r[q++] = strbuf_shrink(pp); r[q++] = strbuf_grow(pp, 5); r[q++] = strbuf_cat(pp, s, s); r[q++] = strbuf_strip(pp, "a"); r[q++] = vcat_wrap(pp, 1, s);
	for(int i = 0; i < q; i++) MON(9, r[i].data == NULL && r[i].size == 0, "C09:null-buffer", "operation %d on a null buffer returned a valid view", i);
	MON(9, strbuf_to_cstr(pp) == NULL, "C09:null-buffer", "to_cstr of a null buffer is not NULL");
	strbuf_destroy(pp);
	MON(9, nb == NULL, "C09:null-buffer", "null buffer changed");
}
static void destroy(tb_t* t)
{
	g_expect = t->kind == DYN ? t->al : NULL;
	int before = g_nlive;
	if(chance(75))
	{
		g_op = "destroy"; vh_trace("destroy");
		strbuf_destroy(&t->buf);
		MON(13, t->buf == NULL, "C13:destroy-pointer", "destroy left the caller's pointer set");
		MON(13, g_nlive == before - (t->kind == DYN), "C13:destroy-leak", "destroy: %d live blocks before, %d after", before, g_nlive);
		vh_count("destroyed");
	}
	else
	{
		g_op = "to_cstr"; vh_trace("to_cstr");
		char* home = t->buf->cstr;
		char* s = strbuf_to_cstr(&t->buf);
		MON(13, t->buf == NULL, "C13:to_cstr-pointer", "to_cstr left the caller's pointer set");
		if(t->kind == DYN)
		{
			blk_t* b = blk_find(s);
			MON(13, b != NULL, "C13:to_cstr-block", "to_cstr returned an address that is not a block");
			if(b)
			{
				MON(13, b->owner == t->al->app_data, "C13:to_cstr-owner", "to_cstr returned another allocator's block");
				MON(13, b->n >= (size_t)t->n + 1 && !memcmp(s, t->b, t->n) && s[t->n] == 0, "C13:to_cstr-content", "to_cstr returned %s expected %s", vh_q(s, b->n < 200 ? b->n : 200), vh_q(t->b, t->n));
				MON(13, raw_ok(b->p, b->n), "C13:to_cstr-overrun", "to_cstr wrote outside its block");
				MON(13, g_nlive == before, "C13:to_cstr-leak", "to_cstr: %d live blocks before, %d after", before, g_nlive);
				strbuf_allocator_t a = *t->al;
				a.allocator(&a, s, 0);
			}
		}
		else
			MON(13, s == home && !memcmp(s, t->b, t->n) && s[t->n] == 0, "C13:to_cstr-fixed", "to_cstr of a fixed buffer returned other contents");
		vh_count("to_cstr");
	}
	t->buf = NULL;
	g_expect = NULL;
	no_leak();
}

/* ---------------------------------------------------------------- arguments */
typedef struct { strview_t v; char* c; bool is_c; bool self; char* copy; int n; bool valid; } arg_t;
/* histories with contents of megabytes: operands are parts of one block, read only and followed by nothing readable */
#define BIGN (4 << 20)
static bool g_large, g_fill; static char* g_big;
static void big_source(void)
{
	if(g_big) return;
	g_big = mmap(NULL, BIGN + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if(g_big == MAP_FAILED) vh_harness_error("mmap");
	uint64_t x = 12345;
	for(int i = 0; i < BIGN; i += 8) { uint64_t r = vh_splitmix(&x); for(int k = 0; k < 8; k++) { unsigned c = r >> (8 * k) & 255; g_big[i + k] = (char)(c < 240 ? 'a' + c % 23 : c); } }
	for(int i = 0; i < 200; i++) g_big[vh_splitmix(&x) % BIGN] = (char)(1 + i % 9);
	g_big[BIGN - 1] = 0;
	mprotect(g_big, BIGN, PROT_READ); mprotect(g_big + BIGN, 4096, PROT_NONE);
}
static int big_len(tb_t* t)
{
	int room = t->buf->capacity - t->buf->size, n;
	if(g_fill) return (int)rndr(1 << 20, 4000000);
	switch(rnd(5))
	{
		case 0: n = room + (int)rndr(-2, 2); break;
		case 1: n = (int)rndr(65000, 140000); break;
		case 2: n = (1 << (12 + rnd(10))) + (int)rndr(-1, 1); break;
		case 3: n = t->n + (int)rndr(-1, 1); break;
		default: n = (int)rndr(1 << 17, 3 << 20); break;
	}
	return n < 0 ? 0 : n > BIGN - 2 ? BIGN - 2 : n;
}
static int gen_arg_len(tb_t* t)
{
	int room = t->buf->capacity - t->buf->size, k = rnd(10);
	if(t->n > 30000) return rnd(4);
	if(rnd(700) == 0) return rndr(65000, 70000);
	if(k < 4) { int n = room + (int)rndr(-2, 2); return n < 0 ? 0 : n > 4000 ? 4000 : n; }
	if(k < 5) { int n = t->buf->capacity + (int)rndr(-2, 2); return n < 0 ? 0 : n > 4000 ? 4000 : n; }
	if(k < 9) return rnd(12);
	return rnd_size(700);
}
static arg_t gen_arg(tb_t* t, bool allow_self, bool allow_cstr)
{
	arg_t a = {0};
	int self_pct = !allow_self ? 0 : IS(10) ? 75 : IS(9) ? 5 : 25;
	a.is_c = allow_cstr && chance(30);
	a.valid = true;
	if(chance(4)) { a.v = STRVIEW_INVALID; a.c = NULL; a.valid = false; a.copy = malloc(1); return a; }
	if(chance(self_pct))
	{
		a.self = true;
		int o = chance(25) ? 0 : chance(15) ? t->n : (int)rnd(t->n + 1), l = chance(30) ? t->n - o : (int)rnd(t->n - o + 1);
		if(a.is_c)
		{
			a.c = t->buf->cstr + o; l = strlen(a.c);
			a.v = (strview_t){a.c, l};
		}
		else a.v = (strview_t){t->buf->cstr + o, l};
		a.n = l;
		a.copy = malloc(l + 1); memcpy(a.copy, t->b + o, l);
		return a;
	}
	/* another buffer's contents */
	if(chance(8))
	{
		tb_t* s = &g_tb[rnd(NTB)];
		if(s != t && s->buf)
		{
			int o = rnd(s->n + 1), l = rnd(s->n - o + 1);
			if(l > 4000) l = 4000;
			a.is_c = false; a.v = (strview_t){s->buf->cstr + o, l}; a.n = l; a.copy = malloc(l + 1); memcpy(a.copy, s->b + o, l);
			return a;
		}
	}
	if(g_large && (g_fill || chance(70)))
	{
		int n = big_len(t); char* p = g_big + BIGN - n - a.is_c;
		if(!a.is_c && chance(60)) p -= rnd(BIGN - n);
		a.c = p; a.v = (strview_t){p, n}; a.n = n; a.copy = malloc(n + 1); memcpy(a.copy, p, n);
		if(a.is_c) { a.n = (int)strlen(p); a.v.size = a.n; }
		vh_count("large-operands");
		return a;
	}
	int n = gen_arg_len(t);
	a.copy = malloc(n + 1);
	rnd_text(a.copy, n, -1);
	if(a.is_c) for(int i = 0; i < n; i++) if(!a.copy[i]) a.copy[i] = 'z';
	a.copy[n] = 0;
	a.n = n;
	char* p = vh_place(a.copy, n + a.is_c, true);
	a.c = p; a.v = (strview_t){p, n};
	return a;
}
static const char* arg_s(const arg_t* a) { return a->valid ? vh_q(a->copy, a->n) : "(invalid)"; }
static void ideal_insert(tb_t* t, int at, const arg_t* a)
{
	memcpy(g_r, t->b, at);
	memcpy(g_r + at, a->copy, a->n);
	memcpy(g_r + at + a->n, t->b + at, t->n - at);
	g_rn = t->n + a->n;
}
static int g_pipe[2];
static struct { int ret, fill, calls; char* dst; int space; } g_fetch;
static int fetch_cb(void* dst, int n, void* vars)
{
	(void)vars;
	g_fetch.calls++; g_fetch.dst = dst; g_fetch.space = n;
	int k = g_fetch.fill < n ? g_fetch.fill : n;
	for(int i = 0; i < k; i++) ((char*)dst)[i] = g_x[i];
	return g_fetch.ret;
}
static char g_desc[1500], g_log[700];
#define DESC(...) do { snprintf(g_desc, sizeof g_desc, __VA_ARGS__); g_op = g_desc; vh_trace("buf%d cap=%d n=%d: %s", (int)(t - g_tb), t->cap, t->n, g_desc); if(vh.n_samples < 3 && strlen(g_log) < 500) snprintf(g_log + strlen(g_log), 150, "buf%d.%.100s; ", (int)(t - g_tb), g_desc); } while(0)
static uint64_t g_sig;

static void one_op(tb_t* t)
{
	strbuf_t* old = t->buf;
	strview_t r = STRVIEW_INVALID;
	int op = rnd(30);
	g_fill = g_large && t->n < 100000 && t->kind == DYN && chance(50);
	if(g_fill) op = 0;
	else if(g_large) { if(t->n > 5000000) op = chance(50) ? 0 : 14; else if(op == 29 && t->n > 100000) op = 5; }
	else if(t->n > 150000 || (t->n > 60000 && chance(30))) op = chance(50) ? 0 : 14;
	if(t->n > 1000000) vh_count("contents-over-1M");
	if(t->n > 65535) vh_count("contents-over-64K");
	g_expect = t->kind == DYN ? t->al : NULL;
	int selfk = K_NORMAL;
	g_sig = vh_mix(g_sig, op * 4 + (t - g_tb));
	#define AFTER(a) do { g_sig = vh_mix(g_sig, (a).n * 4 + (a).self * 2 + (a).is_c); after(t, r, selfk, old); free((a).copy); } while(0)
	switch(op)
	{
		case 0: case 1:
		{
			arg_t a = gen_arg(t, true, false);
			selfk = a.self ? K_SELF : K_NORMAL;
			memcpy(g_r, a.copy, a.n); g_rn = a.n;
			DESC("assign(%s%s)", a.self ? "self " : "", arg_s(&a));
			r = strbuf_assign(&t->buf, a.v);
			AFTER(a);
			break;
		}
		case 2: case 3: case 4:
		{
			bool many = chance(IS(9) || IS(12) ? 5 : 2);
			bool huge = many && chance(25);	/* more than strbuf_cat can count, for strbuf_vcat */
			int n = huge ? 128 + rnd(VCAT_MANY - 127) : many ? 1 + rnd(127) : 1 + rnd(7); static arg_t a[VCAT_MANY]; static strview_t v[VCAT_MANY]; g_rn = 0;
			bool any = false;
			for(int i = 0; i < n; i++)
			{
				if(many && i)
				{	/* one text, cut into views; now and then a view of the buffer */
					bool self = t->kind == DYN && t->n && chance(5);
					int m = rnd(8), from = self ? rnd(t->n) : a[0].n ? rnd(a[0].n) : 0, lim = self ? t->n : a[0].n;
					if(m > lim - from) m = lim - from;
					a[i] = (arg_t){.self = self, .valid = true, .n = m}; a[i].v = (strview_t){.data = self ? t->buf->cstr + from : a[0].v.data ? a[0].v.data + from : "", .size = m};
					a[i].copy = malloc(m + 1); memcpy(a[i].copy, self ? t->b + from : a[i].v.data, m);
				}
				else a[i] = gen_arg(t, !many && (t->kind == DYN || chance(10)), false);
				if(!many && n > 3 && a[i].n > 100 && !a[i].self) { a[i].n = rnd(20); a[i].v.size = a[i].n; }
				any |= a[i].self; v[i] = a[i].v;
				if(g_rn + a[i].n > RMAX - 10) { a[i].n = 0; a[i].v = v[i] = STRVIEW_INVALID; }
				memcpy(g_r + g_rn, a[i].copy, a[i].n); g_rn += a[i].n;
			}
			selfk = !any ? K_NORMAL : t->kind == DYN ? K_SELF : K_UNSPEC;
			if(selfk == K_UNSPEC) vh_count("cat-self-on-fixed");
			DESC("cat(%d views%s: %s...)", n, any ? ", some self" : "", arg_s(&a[0]));
			if(huge)
			{
				for(int i = n; i < VCAT_MANY; i++) v[i] = cstr("*past the last*");
				r = vcat_wrap(&t->buf, n, VCAT_ALL(v)); vh_count("vcat-of-hundreds");
			}
			else if(many) { r = cat_n(&t->buf, n, v); vh_count("cat-of-many"); }
			else switch(chance(80) ? n : 100 + n)
			{
				case 1: r = strbuf_cat(&t->buf, v[0]); break;
				case 2: r = strbuf_cat(&t->buf, v[0], v[1]); break;
				case 3: r = strbuf_cat(&t->buf, v[0], v[1], v[2]); break;
				case 4: r = strbuf_cat(&t->buf, v[0], v[1], v[2], v[3]); break;
				case 5: r = strbuf_cat(&t->buf, v[0], v[1], v[2], v[3], v[4]); break;
				case 6: r = strbuf_cat(&t->buf, v[0], v[1], v[2], v[3], v[4], v[5]); break;
				case 7: r = strbuf_cat(&t->buf, v[0], v[1], v[2], v[3], v[4], v[5], v[6]); break;
				default:
					switch(n)
					{
						case 1: r = vcat_wrap(&t->buf, 1, v[0]); break;
						case 2: r = vcat_wrap(&t->buf, 2, v[0], v[1]); break;
						case 3: r = vcat_wrap(&t->buf, 3, v[0], v[1], v[2]); break;
						case 4: r = vcat_wrap(&t->buf, 4, v[0], v[1], v[2], v[3]); break;
						default: r = vcat_wrap(&t->buf, n, v[0], v[1], v[2], v[3], v[4], v[5 % n], v[6 % n]);
							if(n > 5) {} break;
					}
			}
			for(int i = n - 1; i > 0; i--) { g_sig = vh_mix(g_sig, a[i].n * 2 + a[i].self); free(a[i].copy); }
			AFTER(a[0]);
			break;
		}
		case 5: case 6: case 7: case 8:	/* append, prepend */
		{
			bool app = op < 7;
			arg_t a = gen_arg(t, true, true);
			selfk = a.self ? K_SELF : K_NORMAL;
			ideal_insert(t, app ? t->n : 0, &a);
			DESC("%s%s(%s%s)", app ? "append" : "prepend", a.is_c ? "_cstr" : "", a.self ? "self " : "", arg_s(&a));
			const char* cc = a.c;
			if(app) r = !a.is_c ? strbuf_append(&t->buf, a.v) : chance(50) ? strbuf_append(&t->buf, a.c) : strbuf_append(&t->buf, cc);
			else r = !a.is_c ? strbuf_prepend(&t->buf, a.v) : chance(50) ? strbuf_prepend(&t->buf, a.c) : strbuf_prepend(&t->buf, cc);
			AFTER(a);
			break;
		}
		case 9: case 10: case 11:	/* insert at index */
		{
			arg_t a = gen_arg(t, true, true);
			int idx = rnd_index(t->n);
			int64_t at = idx < 0 ? (int64_t)idx + t->n : idx;
			if(at < 0) at = 0;
			if(at > t->n) at = t->n;
			selfk = a.self ? K_SELF : K_NORMAL;
			ideal_insert(t, (int)at, &a);
			DESC("insert_at_index%s(%d, %s%s) into %d", a.is_c ? "_cstr" : "", idx, a.self ? "self " : "", arg_s(&a), t->n);
			const char* cc = a.c;
			r = !a.is_c ? strbuf_insert_at_index(&t->buf, idx, a.v) : chance(50) ? strbuf_insert_at_index(&t->buf, idx, a.c) : strbuf_insert_at_index(&t->buf, idx, cc);
			AFTER(a);
			break;
		}
		case 12: case 13: case 19: case 20:	/* insert before / after a view of the buffer */
		{
			bool before = op & 1;
			arg_t a = gen_arg(t, true, true);
			strview_t pos; int at = -1, o = rnd(t->n + 1), l = rnd(t->n - o + 1), k = rnd(20);
			if(chance(20)) { o = t->n; l = 0; }
			static char foreign[8] = "foreign";
			if(k == 0) pos = STRVIEW_INVALID;
			else if(k == 1) pos = (strview_t){foreign, (int)rnd(8)};
			else if(k == 2 && !before) pos = (strview_t){t->buf->cstr + t->buf->size, 1};	/* its end is past the contents */
			else if(k == 3 && t->buf->capacity > t->buf->size) { pos = (strview_t){t->buf->cstr + t->buf->size + 1 + rnd(t->buf->capacity - t->buf->size), rnd(3)}; vh_count("position-in-spare-room"); }	/* a view of what the buffer once held */
			else { pos = (strview_t){t->buf->cstr + o, l}; at = before ? o : o + l; }
			selfk = a.self ? K_SELF : K_NORMAL;
			if(at >= 0) ideal_insert(t, at, &a);
			else { memcpy(g_r, t->b, t->n); g_rn = t->n; vh_count("position-outside"); }
			DESC("insert_%s%s(pos %d+%d kind %d, %s%s)", before ? "before" : "after", a.is_c ? "_cstr" : "", o, l, k, a.self ? "self " : "", arg_s(&a));
			const char* cc = a.c;
			if(before) r = !a.is_c ? strbuf_insert_before(&t->buf, pos, a.v) : chance(50) ? strbuf_insert_before(&t->buf, pos, a.c) : strbuf_insert_before(&t->buf, pos, cc);
			else r = !a.is_c ? strbuf_insert_after(&t->buf, pos, a.v) : chance(50) ? strbuf_insert_after(&t->buf, pos, a.c) : strbuf_insert_after(&t->buf, pos, cc);
			AFTER(a);
			break;
		}
		case 14: case 15:	/* strip */
		{
			arg_t a = gen_arg(t, true, true);
			if(!a.self && a.valid && t->n && chance(70))	/* characters that occur */
			{
				free(a.copy); a.n = 1 + rnd(4); a.copy = malloc(a.n + 1);
				for(int i = 0; i < a.n; i++) { a.copy[i] = g_large && chance(80) ? (char)(1 + rnd(9)) : t->b[rnd(t->n)]; if(a.is_c && !a.copy[i]) a.copy[i] = 'q'; }
				a.copy[a.n] = 0;
				a.c = vh_place(a.copy, a.n + a.is_c, true); a.v = (strview_t){a.c, a.n};
			}
			if(a.self && a.n > 3 && chance(60) && !a.is_c) { a.n = 1 + rnd(3); a.v.size = a.n; }
			g_rn = 0;
			bool in[256] = {false};
			for(int j = 0; j < a.n; j++) in[(unsigned char)a.copy[j]] = true;
			for(int i = 0; i < t->n; i++) if(!in[(unsigned char)t->b[i]]) g_r[g_rn++] = t->b[i];
			/* strip moves the tail once per character taken */
			if((double)(t->n - g_rn) * t->n > (g_large ? 1e9 : 1e8)) { memcpy(g_r, t->b, t->n); g_rn = t->n; a.n = 0; if(a.is_c) { a.copy[0] = 0; free(a.copy); a.copy = calloc(1, 1); a.c = vh_place(a.copy, 1, true); } a.v.size = 0; }
			if(g_rn < t->n) vh_count("stripped");
			selfk = a.self ? K_SELF : K_NORMAL;
			DESC("strip%s(%s%s) of %s", a.is_c ? "_cstr" : "", a.self ? "self " : "", arg_s(&a), vh_q(t->b, t->n));
			const char* cc = a.c;
			r = !a.is_c ? strbuf_strip(&t->buf, a.v) : chance(50) ? strbuf_strip(&t->buf, a.c) : strbuf_strip(&t->buf, cc);
			AFTER(a);
			break;
		}
		case 16: case 17:	/* append_char */
		{
			char c = chance(80) ? "abc,\r\n\0\xff"[rnd(8)] : (char)rnd(256);
			int k = 1 + (chance(20) ? rnd(40) : 0);
			while(k-- && !g_case_dead)
			{
				old = t->buf;
				memcpy(g_r, t->b, t->n); g_r[t->n] = c; g_rn = t->n + 1;
				DESC("append_char(%d)", c);
				r = strbuf_append_char(&t->buf, c);
				after(t, r, K_NORMAL, old);
			}
			break;
		}
		case 18: case 21:	/* grow */
		{
			int k = rnd(8);
			int min = k == 0 ? -(int)rnd(5) : k == 1 ? INT_MIN + (int)rnd(3) : k == 2 ? (int)rnd(3000) : vh_clampi((int64_t)t->buf->capacity + rndr(-3, 40));
			DESC("grow(%d)", min);
			r = strbuf_grow(&t->buf, min);
			g_sig = vh_mix(g_sig, min);
			check_shape(t);
			if(g_case_dead) break;
			if(t->kind == DYN)
			{
				check_view(t, r);
				MON(14, t->buf->capacity >= t->cap, "C14:grow-reduced", "grow(%d) reduced the capacity from %d to %d", min, t->cap, t->buf->capacity);
				MON(14, t->buf->capacity >= min, "C14:grow-short", "grow(%d) gave capacity %d", min, t->buf->capacity);
				if(min <= t->cap) MON(14, t->buf->capacity == t->cap && t->buf == old, "C14:grow-needless", "grow(%d) changed the buffer of capacity %d", min, t->cap);
				if(min > t->cap) vh_count("grown-on-request");
				MON(14, t->buf->size == t->n && !memcmp(t->buf->cstr, t->b, t->n), "C14:grow-content", "grow(%d) changed the contents", min);
				MON(9, t->buf->size == t->n && !memcmp(t->buf->cstr, t->b, t->n), "C09:content", "grow(%d) changed the contents", min);
				t->cap = t->buf->capacity;
			}
			else
			{
				MON(12, r.data == NULL && r.size == 0, "C12:grow", "growing a fixed buffer did not fail");
				MON(12, t->buf->size == t->n && !memcmp(t->buf->cstr, t->b, t->n), "C12:grow-content", "a failed grow changed the contents");
			}
			resync(t); no_leak();
			break;
		}
		case 22:	/* shrink */
		{
			DESC("shrink");
			r = strbuf_shrink(&t->buf);
			check_shape(t);
			if(g_case_dead) break;
			check_view(t, r);
			if(t->kind == DYN) { MON(14, t->buf->capacity == t->n, "C14:shrink", "shrink of %d bytes gave capacity %d", t->n, t->buf->capacity); vh_count("shrunk"); }
			MON(9, t->buf->size == t->n && !memcmp(t->buf->cstr, t->b, t->n), "C09:content", "shrink changed the contents");
			if(t->kind == DYN) t->cap = t->buf->capacity;
			resync(t); no_leak();
			break;
		}
		case 23:	/* append_using */
		{
			int space = t->cap - t->n;
			g_fetch.calls = 0;
			g_fetch.fill = rnd(space + 2); if(g_fetch.fill > space) g_fetch.fill = space;
			if(g_fetch.fill > 500) g_fetch.fill = rnd(500);
			g_fetch.ret = chance(60) ? g_fetch.fill : (int)rnd(g_fetch.fill + 1);	/* may report less than it wrote */
			if(g_fetch.ret < g_fetch.fill) vh_count("fetched-less-than-written");
			int k = rnd(10);
			if(k == 0) g_fetch.ret = -1 - (int)rnd(3); else if(k == 1) g_fetch.ret = space + 1 + rnd(3); else if(k == 2) g_fetch.ret = chance(50) ? INT_MIN : INT_MAX;
			rnd_text(g_x, g_fetch.fill, -1);
			bool bad = g_fetch.ret < 0 || g_fetch.ret > space;
			memcpy(g_r, t->b, t->n); g_rn = t->n;
			if(!bad) { memcpy(g_r + g_rn, g_x, g_fetch.ret); g_rn += g_fetch.ret; } else g_rn = 0;
			DESC("append_using(returns %d of %d)", g_fetch.ret, space);
			r = strbuf_append_using(&t->buf, fetch_cb, NULL);
			if(bad) r = strbuf_view(&t->buf);
			after(t, r, K_NORMAL, old);
			break;
		}
		case 24:	/* formatted */
		{
			int n = gen_arg_len(t) , mode = rnd(4);
			if(n > 600) n = rnd(600);
			char* s = malloc(n + 1);
			for(int i = 0; i < n; i++) s[i] = 'A' + rnd(26);
			s[n] = 0;
			int d = (int)rnd64();
			g_rn = 0;
			if(mode & 1) { memcpy(g_r, t->b, t->n); g_rn = t->n; }
			g_rn += sprintf(g_r + g_rn, "%s:%d", s, d);
			DESC("%s%s(%d bytes)", mode & 1 ? "append_" : "", mode & 2 ? "prnf" : "printf", n);
			switch(mode)
			{
				case 0: r = strbuf_printf(&t->buf, "%s:%d", s, d); break;
				case 1: r = strbuf_append_printf(&t->buf, "%s:%d", s, d); break;
				case 2: r = strbuf_prnf(&t->buf, "%s:%d", s, d); break;
				default: r = strbuf_append_prnf(&t->buf, "%s:%d", s, d); break;
			}
			free(s);
			after(t, r, K_NORMAL, old);
			break;
		}
		case 26:	/* from and to a descriptor */
		{
			int space = t->cap - t->n, k = rnd(3) == 0 ? 0 : (int)rnd(space + 20), got;
			if(k > 400) k = rnd(400);
			rnd_text(g_x, k, -1);
			if(k && write(g_pipe[1], g_x, k) != k) vh_harness_error("pipe");
			memcpy(g_r, t->b, t->n); g_rn = t->n;
			if(k > space) got = space; else got = k;
			memcpy(g_r + g_rn, g_x, got); g_rn += got;
			DESC("append_read(%d waiting, space %d)", k, space);
			g_expect = NULL;
			strbuf_append_read(&t->buf, g_pipe[0]);	/* an empty pipe answers EAGAIN */
			static char sink[512];
			while(read(g_pipe[0], sink, sizeof sink) > 0) {}
			after(t, strbuf_view(&t->buf), K_NORMAL, old);
			break;
		}
		case 27:
		{
			if(t->n > 4000) break;
			memcpy(g_r, t->b, 0); g_rn = 0;
			DESC("write to a descriptor");
			g_expect = t->kind == DYN ? t->al : NULL;
			int w = strbuf_write(g_pipe[1], &t->buf);
			static char sink[4096];
			int k = t->n ? (int)read(g_pipe[0], sink, sizeof sink) : 0;
			MON(9, w == t->n && k == t->n && !memcmp(sink, t->b, t->n), "C09:written", "write sent %d bytes of %d", k, t->n);
			after(t, strbuf_view(&t->buf), K_NORMAL, old);
			break;
		}
		case 28:	/* packed integers */
		{
			uint64_t x = rnd64(); int k = rnd(4), sz = 1 << k; bool be = chance(50);
			memcpy(g_r, t->b, t->n); g_rn = t->n;
			for(int i = 0; i < sz; i++) g_r[g_rn++] = (char)(x >> 8 * (be ? sz - 1 - i : i));
			DESC("pack %d bytes %s", sz, be ? "BE" : "LE");
			switch(k)
			{
				case 0: if(be) STRBUF_PACK_BE(&t->buf, (uint8_t)x); else STRBUF_PACK_LE(&t->buf, (uint8_t)x); break;
				case 1: if(be) STRBUF_PACK_BE(&t->buf, (uint16_t)x); else STRBUF_PACK_LE(&t->buf, (uint16_t)x); break;
				case 2: if(be) STRBUF_PACK_BE(&t->buf, (uint32_t)x); else STRBUF_PACK_LE(&t->buf, (uint32_t)x); break;
				default: if(be) STRBUF_PACK_BE(&t->buf, (uint64_t)x); else STRBUF_PACK_LE(&t->buf, (uint64_t)x); break;
			}
			after(t, strbuf_view(&t->buf), K_NORMAL, old);
			break;
		}
		case 29:	/* encryption: capacity grows to exactly what the padding needs; the other monitors apply as usual */
		{
			uint8_t key[32], iv[16];
			if(t->n > 600) break;
			for(int i = 0; i < 32; i++) key[i] = rnd64();
			for(int i = 0; i < 16; i++) iv[i] = rnd64();
			int padded = (t->n / 16 + 1) * 16;
			bool room = t->kind == DYN || padded <= t->cap;
			DESC("encrypt %d bytes", t->n);
			r = strbuf_encrypt(&t->buf, key, iv);
			check_shape(t);
			if(g_case_dead) break;
			if(!room) { vh_count("encrypt-no-room"); resync(t); break; }
			check_view(t, r);
			MON(14, t->buf->capacity >= t->cap, "C14:encrypt-reduced", "encrypt reduced the capacity");
			if(t->kind == DYN) t->cap = t->buf->capacity;
			no_leak();
			DESC("decrypt %d bytes", t->buf->size);
			memcpy(g_r, t->b, t->n); g_rn = t->n; old = t->buf;
			if(chance(15) && t->buf->size) { t->buf->cstr[rnd(t->buf->size)] ^= 0x40; g_rn = -1; }
			r = strbuf_decrypt(&t->buf, key, iv);
			if(g_rn < 0)
			{
				check_shape(t);
				if(g_case_dead) break;
				MON(14, t->kind != DYN || t->buf->capacity >= t->cap, "C14:decrypt-reduced", "decrypt reduced the capacity");
				if(t->kind == DYN) t->cap = t->buf->capacity;
				resync(t); no_leak();
				vh_count("decrypted-damaged");
				break;
			}
			vh_count("encrypted-decrypted");
			after(t, r, K_NORMAL, old);
			break;
		}
		default:
		{
			DESC("view");
			g_expect = NULL;
			r = strbuf_view(&t->buf);
			memcpy(g_r, t->b, t->n); g_rn = t->n;
			after(t, r, K_NORMAL, old);
		}
	}
	#undef AFTER
}
static __attribute__((noinline)) void history(void);
static void run(uint64_t ci) { (void)ci; dirty_stack(); history(); }
static void history(void)
{
	strbuf_t* l0 = STRBUF_FIXED_CAP(0); strbuf_t* l1 = STRBUF_FIXED_CAP(1); strbuf_t* l2 = STRBUF_FIXED_CAP(WIDE ? 24 : 3); strbuf_t* l3 = STRBUF_FIXED_CAP(31); strbuf_t* l4 = STRBUF_FIXED_CAP(200);
	g_local[0] = l0; g_local[1] = l1; g_local[2] = l2; g_local[3] = l3; g_local[4] = l4;
	memset(g_blk, 0, sizeof g_blk); g_nlive = 0; g_case_dead = false;
	for(int i = 0; i < NTB; i++) { g_tb[i].buf = NULL; }
	for(int i = 0; i < NAL; i++) g_al[i] = (strbuf_allocator_t){.allocator = i & 1 ? alloc_b : alloc_a, .app_data = &g_tags[i]};
	g_realloc_inplace = chance(30) ? 50 : 0;
	g_sig = 77; g_log[0] = 0;
	g_expect = NULL;
	uint64_t ev = vh.events;
	g_large = vh_rare(3000); if(g_large) big_source();
	int nops = g_large ? 14 : chance(90) ? 10 + (int)rnd(20) : 60, nb = 1 + rnd(NTB);
	set_default();
	if(chance(20)) reject_creations();
	for(int k = 0; k < nops && !g_case_dead; k++)
	{
		tb_t* t = &g_tb[rnd(nb)];
		if(!t->buf) create(t);
		else if(chance(3)) destroy(t);
		else one_op(t);
		g_expect = NULL;
		if(chance(8)) set_default();
		/* the other buffers must not have been touched */
		for(int i = 0; i < nb && !g_case_dead; i++)
			if(&g_tb[i] != t && g_tb[i].buf && (g_tb[i].buf->size != g_tb[i].n || memcmp(g_tb[i].buf->cstr, g_tb[i].b, g_tb[i].n)))
				MON(9, false, "C09:other-buffer", "%s changed another buffer", g_op);
		if(k % 4 == 3 && !g_case_dead)
		{
			/* free argument placements, keeping fixed memory alive */
			bool keep = false;
			for(int i = 0; i < NTB; i++) keep |= g_tb[i].buf && g_tb[i].kind == FIXED;
			if(!keep) vh_release_all();
			else
			{
				int used = 0;
				for(int i = 0; i < VH_SLOTS; i++) used += vh_slot[i].used;
				if(used > VH_SLOTS - 40)
				{
					for(int i = 0; i < NTB; i++) if(g_tb[i].buf && g_tb[i].kind == FIXED) g_tb[i].buf = NULL;
					vh_release_all();
				}
			}
		}
	}
	for(int i = 0; i < NTB; i++) if(g_tb[i].buf && !g_case_dead) destroy(&g_tb[i]);
	if(!g_case_dead) MON(13, g_nlive == 0, "C13:leak-at-end", "%d blocks remain after everything was destroyed", g_nlive);
	for(int i = 0; i < MAXBLK; i++) if(g_blk[i].live) raw_del(g_blk[i].p, g_blk[i].n);
	if(vh_want_sample()) vh_sample("%d operations on %d buffers: %s", nops, nb, g_log);
	vh_case(g_sig, vh.events - ev > 5);
}
static void init(int argc, char** argv)
{
	(void)argc; (void)argv;
	if(pipe(g_pipe) || fcntl(g_pipe[0], F_SETFL, O_NONBLOCK) || fcntl(g_pipe[1], F_SETFL, O_NONBLOCK)) vh_harness_error("pipe");
	int n = atoi(vh.prop + 1);
	if(n > 0 && n < 20) g_is[n] = true;
}
int main(int argc, char** argv) { return vh_main(argc, argv, init, run); }
