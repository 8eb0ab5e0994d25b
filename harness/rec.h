/*	Buffers for the smaller harnesses: a recording allocator that always relocates and checks its canaries,
	fixed buffers in guarded memory, and the structural check that must hold after every operation. */
#ifndef REC_H
#define REC_H
#include "vh.h"
#include "strbuf.h"
#define REC_PAD 16
#define REC_CANARY 0xC5
#define REC_MAX 64
typedef struct { char* p; size_t n; int live; } rec_blk_t;
static __thread rec_blk_t rec_blk[REC_MAX];
static __thread int rec_nlive, rec_calls;
static __thread size_t rec_limit = 1u << 28;
static UNUSED rec_blk_t* rec_find(const void* p)
{
	for(int i = 0; i < REC_MAX; i++) if(rec_blk[i].live && rec_blk[i].p == p) return &rec_blk[i];
	return NULL;
}
static UNUSED char* rec_raw(size_t n)
{
	#if defined(VH_ASAN) || defined(VH_MSAN)
	return malloc(n);
	#else
	char* r = malloc(n + 2 * REC_PAD);
	if(!r) return r;
	memset(r, REC_CANARY, REC_PAD); memset(r + REC_PAD + n, REC_CANARY, REC_PAD);
	memset(r + REC_PAD, 0xA5, n < 4096 ? n : 4096);
	return r + REC_PAD;
	#endif
}
static UNUSED bool rec_intact(const rec_blk_t* b)
{
	#if !defined(VH_ASAN) && !defined(VH_MSAN)
	for(int i = 1; i <= REC_PAD; i++) if((unsigned char)b->p[-i] != REC_CANARY || (unsigned char)b->p[b->n + i - 1] != REC_CANARY) return false;
	#endif
	(void)b;
	return true;
}
static UNUSED void rec_drop(rec_blk_t* b)
{
	#if defined(VH_ASAN) || defined(VH_MSAN)
	free(b->p);
	#else
	memset(b->p, 0xDD, b->n < 4096 ? b->n : 4096);
	free(b->p - REC_PAD);
	#endif
	b->live = 0; rec_nlive--;
}
static UNUSED void* rec_alloc(strbuf_allocator_t* self, void* ptr, size_t size)
{
	(void)self;
	rec_calls++;
	rec_blk_t* b = ptr ? rec_find(ptr) : NULL;
	if(ptr && !b) vh_fail("allocator", "an address that is not a live block was passed to the allocator");
	if(b && !rec_intact(b)) vh_fail("overrun", "memory outside a block of %zu bytes was written", b->n);
	if(size == 0) { if(b) rec_drop(b); return NULL; }
	if(size > rec_limit) vh_fail("huge-request", "%zu bytes were requested from the allocator", size);
	char* n = rec_raw(size);
	if(!n) vh_harness_error("malloc %zu", size);
	if(b) { memcpy(n, b->p, size < b->n ? size : b->n); rec_drop(b); }
	for(int i = 0; i < REC_MAX; i++) if(!rec_blk[i].live) { rec_blk[i] = (rec_blk_t){n, size, 1}; rec_nlive++; return n; }
	vh_harness_error("too many live blocks");
	return NULL;
}
static strbuf_allocator_t rec_al = {.allocator = rec_alloc, .app_data = NULL};

/* a fixed buffer of the given capacity, ending at unreadable memory (up to alignment, which is filled with canaries) */
typedef struct { char* pre; size_t pren; char* post; size_t postn; } rec_area_t;
static UNUSED strbuf_t* rec_fixed(int cap, rec_area_t* a)
{
	size_t n = sizeof(strbuf_t) + 1 + cap;
	memset(a, 0, sizeof *a);
	#ifdef VH_ASAN
	char* m = vh_place(NULL, n, true);
	#else
	size_t tail = (8 - n % 8) % 8;
	char* m = vh_place(NULL, REC_PAD + n + tail, true);
	memset(m, REC_CANARY, REC_PAD + n + tail);
	a->pre = m; a->pren = REC_PAD; m += REC_PAD; a->post = m + n; a->postn = tail;
	#endif
	memset(m, 0x5A, n);
	#ifdef VH_MSAN
	__msan_poison(m, n);
	#endif
	return strbuf_create_fixed(m, n);
}
static UNUSED void rec_shape(const char* op, strbuf_t* u, int fixed_cap, const rec_area_t* a)
{
	CHECK(u != NULL, "shape", "%s: the buffer pointer became NULL", op);
	if(fixed_cap < 0)
	{
		rec_blk_t* b = rec_find(u);
		CHECK(b != NULL, "shape", "%s: the buffer is not a live block", op);
		CHECK(u->capacity >= 0 && offsetof(strbuf_t, cstr) + (size_t)u->capacity + 1 <= b->n, "shape", "%s: capacity %d does not fit its block of %zu bytes", op, u->capacity, b->n);
		CHECK(rec_intact(b), "overrun", "%s wrote outside the buffer's block", op);
	}
	else
	{
		CHECK(u->capacity == fixed_cap, "shape", "%s: fixed capacity %d became %d", op, fixed_cap, u->capacity);
		for(size_t i = 0; i < a->pren; i++) CHECK((unsigned char)a->pre[i] == REC_CANARY, "overrun", "%s wrote before the fixed memory", op);
		for(size_t i = 0; i < a->postn; i++) CHECK((unsigned char)a->post[i] == REC_CANARY, "overrun", "%s wrote after the fixed memory", op);
	}
	CHECK(u->size >= 0 && u->size <= u->capacity, "shape", "%s: size %d capacity %d", op, u->size, u->capacity);
	#ifdef VH_MSAN
	__msan_check_mem_is_initialized(u->cstr, (size_t)u->size + 1);
	#endif
	CHECK(u->cstr[u->size] == 0, "shape", "%s: no NUL at size %d", op, u->size);
}
static UNUSED void rec_reset(void)
{
	for(int i = 0; i < REC_MAX; i++) if(rec_blk[i].live) rec_drop(&rec_blk[i]);
}
#endif
