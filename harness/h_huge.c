/*	Monitor C16: sizes around INT_MAX.  Views and buffers of up to 2 GiB live in lazily committed memory between
	unreadable pages, so a wrapped size or a copy that should have been refused traps or shows in the buffer. */
#include "vh.h"
#include "strbuf.h"
#include "prnf.h"
#define PG ((size_t)4096)
#define UP(n) (((n) + PG - 1) / PG * PG)
#define GUARD ((size_t)64 << 10)

typedef struct { char* map; size_t mapn; char* p; size_t n; int live; } blk_t;
#define MAXB 16
static blk_t g_blk[MAXB];
static int g_live;
static const char* g_op = "";
static blk_t* find(const void* p) { for(int i = 0; i < MAXB; i++) if(g_blk[i].live && g_blk[i].p == p) return &g_blk[i]; return NULL; }
static blk_t* fresh(size_t n)
{
	for(int i = 0; i < MAXB; i++) if(!g_blk[i].live)
	{
		blk_t* b = &g_blk[i];
		b->n = n; b->mapn = UP(n) + 2 * GUARD;
		b->map = mmap(NULL, b->mapn, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if(b->map == MAP_FAILED) vh_harness_error("mmap %zu", n);
		b->p = b->map + GUARD;
		b->live = 1; g_live++;
		return b;
	}
	vh_harness_error("blocks");
	return NULL;
}
static void set_tail(blk_t* b) { memset(b->p + b->n, 0xC5, UP(b->n) - b->n); }
static bool tail_ok(const blk_t* b) { for(size_t i = b->n; i < UP(b->n); i++) if((unsigned char)b->p[i] != 0xC5) return false; return true; }
static void drop(blk_t* b) { munmap(b->map, b->mapn); b->live = 0; g_live--; }
static blk_t* get(size_t n)
{
	blk_t* b = fresh(n);
	if(mmap(b->p, UP(n), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) vh_harness_error("mmap %zu", n);
	set_tail(b);
	return b;
}
static void* al(strbuf_allocator_t* self, void* ptr, size_t size)
{
	(void)self;
	blk_t* b = ptr ? find(ptr) : NULL;
	vh_trace("  allocator %s %zu", ptr ? "block" : "NULL", size);
	CHECK(!ptr || b, "C16:allocator", "%s passed an address that is not a block", g_op);
	if(b) CHECK(tail_ok(b), "C16:overrun", "%s wrote behind the %zu bytes of its block", g_op, b->n);
	if(!size) { if(b) drop(b); return NULL; }
	CHECK(size <= (size_t)INT_MAX + sizeof(strbuf_t) + 1, "C16:request", "%s requested %zu bytes", g_op, size);
	if(!b) return get(size)->p;
	blk_t o = *b;
	blk_t* n = fresh(size);
	b = find(o.p);
	size_t a = UP(o.n), z = UP(size);
	if(a > z) { munmap(o.p + z, a - z); a = z; }
	else memset(o.p + o.n, 0, a - o.n);
	if(mremap(o.p, a, z, MREMAP_MAYMOVE | MREMAP_FIXED, n->p) == MAP_FAILED)
	{
		if(errno != ENOMEM && errno != EFAULT) vh_harness_error("mremap %s", strerror(errno));
		vh_harness_error("mremap");
	}
	set_tail(n);
	drop(b);
	return n->p;
}
static strbuf_allocator_t g_al = {.allocator = al};

static char* g_src;	/* INT_MAX readable bytes (zero but for the first and last), unreadable around */
static void init(int c, char** v)
{
	(void)c; (void)v;
	char* m = mmap(NULL, UP((size_t)INT_MAX) + 2 * GUARD, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(m == MAP_FAILED) vh_harness_error("mmap");
	if(mprotect(m + GUARD, UP((size_t)INT_MAX), PROT_READ | PROT_WRITE)) vh_harness_error("mprotect");
	g_src = m + GUARD;
	memcpy(g_src, "source-begin", 12);
	if(mprotect(m + GUARD, UP((size_t)INT_MAX), PROT_READ)) vh_harness_error("mprotect");
}

typedef struct { int n; } fv_t;
static int fetch(void* dst, int space, void* vars)
{
	fv_t* f = vars;
	if(f->n > space) vh_harness_error("fetch");
	if(f->n >= 16) { memcpy(dst, "HEADhead", 8); memcpy((char*)dst + f->n - 8, "tailTAIL", 8); }
	else memset(dst, 'h', f->n);
	return f->n;
}
static strbuf_t* g_b; static int g_kind; static blk_t* g_home;
static void shape(strview_t r)
{
	CHECK(g_b != NULL, "C16:shape", "%s: the buffer pointer became NULL", g_op);
	if(g_kind) CHECK((char*)g_b == g_home->p, "C16:moved", "%s: the fixed buffer moved", g_op);
	blk_t* b = find(g_b);
	CHECK(b != NULL, "C16:shape", "%s: the buffer is not in its block", g_op);
	CHECK(g_b->capacity >= 0 && offsetof(strbuf_t, cstr) + (size_t)g_b->capacity + 1 <= b->n, "C16:memory", "%s: capacity %d in a block of %zu bytes", g_op, g_b->capacity, b->n);
	CHECK(g_b->size >= 0 && g_b->size <= g_b->capacity, "C16:size", "%s: size %d capacity %d", g_op, g_b->size, g_b->capacity);
	CHECK(tail_ok(b), "C16:overrun", "%s wrote behind the %zu bytes of its block", g_op, b->n);
	CHECK(g_b->cstr[g_b->size] == 0, "C16:terminator", "%s: no NUL at size %d", g_op, g_b->size);
	CHECK(r.data == g_b->cstr && r.size == g_b->size, "C16:returned-view", "%s: returned view of size %d, contents %d", g_op, r.size, g_b->size);
}
static void ordinary(strbuf_t** b)
{
	int first = rnd(4);
	#define THEN(op, want) do { strview_t v_ = op; CHECK(v_.data == (*b)->cstr && v_.size == (int)strlen(want) && !strcmp((*b)->cstr, want), "C16:afterwards", "%s gave %d bytes, %s, after %s", #op, v_.size, vh_q((*b)->cstr, (*b)->size < 60 ? (*b)->size : 60), g_op); } while(0)
	if(first == 0) THEN(strbuf_cat(b, cstr("ab"), cstr("c")), "abc");
	else if(first == 1) THEN(strbuf_printf(b, "%s%c", "ab", 'c'), "abc");
	else if(first == 2) THEN(strbuf_prnf(b, "%s%c", "ab", 'c'), "abc");
	else THEN(strbuf_assign(b, cstr("abc")), "abc");
	THEN(strbuf_insert_at_index(b, 1, cstr("--")), "a--bc");
	THEN(strbuf_append_char(b, 'd'), "a--bcd");
	THEN(strbuf_prepend(b, cstr(">")), ">a--bcd");
	THEN(strbuf_append_printf(b, "%d", 10), ">a--bcd10");
	THEN(strbuf_append_prnf(b, "%d", 11), ">a--bcd1011");
	THEN(strbuf_append(b, strview_sub(strbuf_view(b), 0, 2)), ">a--bcd1011>a");
	THEN(strbuf_insert_before(b, strview_sub(strbuf_view(b), 7, 9), cstr(".")), ">a--bcd.1011>a");
	THEN(strbuf_strip(b, cstr("-1")), ">abcd.0>a");
	THEN(strbuf_cat(b, cstr("1"), cstr("23"), cstr("")), "123");
}
/* sizes whose sum with 'have' lies on the interesting side of INT_MAX or wraps to something small */
static int pick_add(int64_t have, bool must_exceed)
{
	int64_t room = (int64_t)INT_MAX - have, v;
	switch(rnd(6))
	{
		case 0: v = room + 1; break;
		case 1: v = room + rndr(1, 40); break;
		case 2: v = INT_MAX; break;
		case 3: v = INT_MAX - rndr(0, 20); break;
		case 4: v = must_exceed ? room + rndr(1, 100000) : room - rndr(0, 40); break;
		default: v = rndr(0, INT_MAX);
	}
	if(v < 0) v = 0;
	if(v > INT_MAX) v = INT_MAX;
	return (int)v;
}
static strview_t src(int n) { return (strview_t){.data = chance(50) ? g_src : g_src + ((size_t)INT_MAX - n), .size = n}; }
static strview_t vcat(strbuf_t** b, int n, ...) { va_list va; va_start(va, n); strview_t r = strbuf_vcat(b, n, va); va_end(va); return r; }

static void run(uint64_t ci)
{
	char opbuf[300]; strview_t r; int64_t need; char small[64]; memset(small, 's', sizeof small);
	bool heavy = ci % 1000 == 77 && ci % 24000 < 3000;	/* real gigabyte copies */
	/* a buffer holding 'have' bytes */
	int have = 0, cap;
	switch(rnd(7)) { case 0: have = 0; break; case 1: have = 1 + rnd(100); break; case 2: have = INT_MAX; break; case 3: have = INT_MAX - (int)rnd(50); break; case 4: have = INT_MAX / 2 + (int)rndr(-5, 5); break; case 5: have = (1 << 30) + (int)rndr(-3, 3); break; default: have = rnd(INT_MAX); }
	g_kind = chance(40);
	cap = g_kind && chance(70) ? INT_MAX : chance(50) ? have : vh_clampi((int64_t)have + (int)rnd(60));
	if(heavy) { g_kind = ci % 3000 >= 2000 ? 0 : chance(40); have = rnd(40); cap = INT_MAX; }
	g_op = "creation";
	if(g_kind)
	{
		/* sometimes more memory than an int can count */
		size_t extra = cap == INT_MAX && chance(60) ? (chance(50) ? 1 + rnd(70000) : ((size_t)1 << 31) + rnd(100000)) : 0;
		size_t n = sizeof(strbuf_t) + 1 + (size_t)cap + extra;
		g_home = get(n);
		g_b = strbuf_create_fixed(g_home->p, n);
		CHECK(g_b != NULL && g_b->capacity == cap, "C16:fixed-capacity", "fixed buffer in %zu bytes: capacity %d, expected %d", n, g_b ? g_b->capacity : -1, cap);
		if(extra) vh_count("memory-beyond-INT_MAX");
	}
	else
	{
		if(chance(30))
		{
			size_t bad = chance(30) ? (size_t)INT_MAX + 1 + rnd(20) : chance(50) ? ((size_t)1 << 32) + rnd(100) : SIZE_MAX - rnd(100);
			strbuf_t* x = strbuf_create(bad, &g_al);
			CHECK(x == NULL && g_live == 0, "C16:create", "creation with capacity %zu did not return null", bad);
			vh_count("refused-capacity");
		}
		if(chance(50)) g_b = strbuf_create((size_t)cap, &g_al);
		else { g_b = strbuf_create(0, &g_al); strbuf_grow(&g_b, cap); vh_count("grown-to-limit"); }
		CHECK(g_b != NULL && g_b->capacity == cap, "C16:create", "creation with capacity %d failed", cap);
	}
	fv_t fv = {have};
	g_op = "append_using";
	r = strbuf_append_using(&g_b, fetch, &fv);
	shape(r);
	CHECK(g_b->size == have, "C16:fetched", "%d bytes fetched, size %d", have, g_b->size);
	uint64_t sig = vh_mix((uint64_t)have, (uint64_t)cap * 2 + g_kind);
	int pick = heavy ? 20 + (int)(ci / 1000 % 3) : (int)rnd(12), add = 0, idx = 0;
	bool must = true;	/* the case is built to exceed; without, it is cheap to succeed */
	#define OP(...) (snprintf(opbuf, sizeof opbuf, __VA_ARGS__), vh_trace("%s", opbuf), g_op = opbuf)
	need = 0;
	switch(pick)
	{
		case 0: case 1:
		{
			/* append: cheap on success too when the added text is short */
			if(chance(40)) { add = rnd(64); } else add = pick_add(have, true);
			if((int64_t)have + add <= INT_MAX && add > 64) add = 64;
			OP("append of %d bytes to %d", add, have);
			r = strbuf_append(&g_b, src(add)); need = (int64_t)have + add;
			break;
		}
		case 2:
		{
			add = pick_add(have, true);
			if((int64_t)have + add <= INT_MAX) { if(have) { add = INT_MAX; } else add = 10; }
			OP("prepend of %d bytes to %d", add, have);
			r = strbuf_prepend(&g_b, src(add)); need = (int64_t)have + add;
			break;
		}
		case 3: case 4:
		{
			add = pick_add(have, true);
			if((int64_t)have + add <= INT_MAX) { if(have) { add = INT_MAX; } else add = 10; }
			idx = rnd_index(have);
			OP("insert of %d bytes at %d into %d", add, idx, have);
			r = strbuf_insert_at_index(&g_b, idx, src(add)); need = (int64_t)have + add;
			break;
		}
		case 5:
		{
			/* the buffer into itself */
			if(have < (1 << 30) + 1) { if(have > 100000) { add = 0; } else add = have; } else { add = have; }
			if(!add) { OP("view"); r = strbuf_view(&g_b); need = have; break; }
			strview_t self = strbuf_view(&g_b);
			int w = rnd(4);
			OP("self insertion (%d) of %d bytes", w, have);
			r = w == 0 ? strbuf_append(&g_b, self) : w == 1 ? strbuf_prepend(&g_b, self) : w == 2 ? strbuf_insert_before(&g_b, strview_sub(self, have / 2, INT_MAX), self) : strbuf_insert_after(&g_b, self, self);
			need = 2 * (int64_t)have;
			break;
		}
		case 6: case 7: case 8:
		{
			/* concatenation whose sum exceeds, including sums that wrap to a small number */
			int n = 2 + rnd(5); strview_t a[6]; int64_t sum = 0;
			for(int i = 0; i < n; i++)
			{
				int s;
				switch(rnd(5)) { case 0: s = INT_MAX; break; case 1: s = (1 << 30) + (int)rndr(-1, 2); break; case 2: s = rnd(50); break; case 3: s = INT_MAX - (int)rnd(10); break; default: s = rnd(INT_MAX); }
				a[i] = src(s);
				if(chance(10)) { a[i] = strbuf_view(&g_b); s = have; if(chance(50)) { a[i] = STRVIEW_INVALID; s = 0; } }
				sum += s;
			}
			if(chance(40)) { /* wrap to exactly k modulo 2^32 */ int64_t k = rnd(50), rest = ((int64_t)1 << 32) + k - (sum - a[n-1].size); if(rest >= 0 && rest <= INT_MAX) { sum += rest - a[n-1].size; a[n-1] = src((int)rest); vh_count("sum-wraps-small"); } }
			if(sum <= INT_MAX) { sum -= a[0].size + a[1].size; a[0] = src(INT_MAX); a[1] = src(INT_MAX - (int)rnd(3)); sum += a[0].size + (int64_t)a[1].size; }
			OP("concatenation of %d views, %lld bytes", n, (long long)sum);
			bool viav = chance(40);
			#define C(...) (viav ? vcat(&g_b, __VA_ARGS__) : _strbuf_cat(&g_b, __VA_ARGS__))
			r = n == 2 ? C(2, a[0], a[1]) : n == 3 ? C(3, a[0], a[1], a[2]) : n == 4 ? C(4, a[0], a[1], a[2], a[3]) : n == 5 ? C(5, a[0], a[1], a[2], a[3], a[4]) : C(6, a[0], a[1], a[2], a[3], a[4], a[5]);
			need = sum;
			for(int i = 0; i < n; i++) sig = vh_mix(sig, (uint64_t)a[i].size);
			break;
		}
		case 9:
		{
			OP("append_char to %d", have);
			r = strbuf_append_char(&g_b, 'z'); need = (int64_t)have + 1; add = 1;
			break;
		}
		case 10:
		{
			add = rnd(60); small[add] = 0;
			OP("append_printf of %d bytes to %d", add, have);
			r = strbuf_append_printf(&g_b, "%s", small); need = (int64_t)have + add;
			break;
		}
		case 11:
		{
			add = rnd(60); small[add] = 0;
			OP("append_prnf of %d bytes to %d", add, have);
			r = strbuf_append_prnf(&g_b, "%s", small); need = (int64_t)have + add;
			break;
		}
		/* real copies right at the limit */
		case 20:
		{
			strbuf_assign(&g_b, cstr("abcdef"));
			have = g_b->size;
			add = INT_MAX - have + (chance(50) ? 1 : 0);
			OP("prepend of %d bytes to %d (real copy)", add, have);
			r = strbuf_prepend(&g_b, ((strview_t){.data = g_src, .size = add})); need = (int64_t)have + add;
			vh_count("real-copies");
			break;
		}
		case 21:
		{
			OP("assign of INT_MAX bytes (real copy)"); add = INT_MAX; have = 0;
			r = strbuf_assign(&g_b, src(INT_MAX)); need = INT_MAX;
			vh_count("real-copies");
			break;
		}
		default:
		{
			fv.n = g_b->capacity - g_b->size;
			strbuf_append_using(&g_b, fetch, &fv);
			int n = g_b->size;
			OP("to_cstr of %d bytes", n);
			char h = n ? g_b->cstr[0] : 0, l = n ? g_b->cstr[n - 1] : 0;
			char* c = strbuf_to_cstr(&g_b);
			CHECK(c != NULL && g_b == NULL && find(c) && find(c)->n > (size_t)n && tail_ok(find(c)), "C16:to_cstr", "no string for %d bytes", n);
			CHECK(c[n] == 0 && (!n || (c[0] == h && c[n - 1] == l)), "C16:to_cstr", "the string for %d bytes is wrong", n);
			vh_count("real-copies");
			for(int i = 0; i < MAXB; i++) if(g_blk[i].live) drop(&g_blk[i]);
			vh_case(vh_mix(sig, n), true);
			return;
		}
	}
	(void)must;
	shape(r);
	bool fits = need <= INT_MAX && (!g_kind || need <= cap);
	if(!fits)
	{
		vh_count(need > INT_MAX ? (g_kind ? "refused-fixed" : "refused-dynamic") : "fixed-overflow");
		CHECK(g_b->size == 0, "C16:not-emptied", "%s (%s capacity %d): size %d remains", g_op, g_kind ? "fixed" : "dynamic", cap, g_b->size);
	}
	else
	{
		vh_count("succeeded-at-limit");
		CHECK(g_b->size == need, "C16:wrong-size", "%s (%s capacity %d): size %d, expected %lld", g_op, g_kind ? "fixed" : "dynamic", cap, g_b->size, (long long)need);
		if(have >= 16 && pick < 12 && pick != 2 && pick != 3 && pick != 4 && pick != 5)
			CHECK(!memcmp(g_b->cstr, "HEADhead", 8) && !memcmp(g_b->cstr + have - 8, "tailTAIL", 8), "C16:content", "%s changed the existing contents", g_op);
		if(need == INT_MAX) vh_count("exactly-INT_MAX");
	}
	/* usable afterwards */
	if(!g_kind || cap >= 11)
	{
		strbuf_assign(&g_b, cstr("hello"));
		r = strbuf_append(&g_b, cstr(" world"));
		CHECK(g_b->size == 11 && !strcmp(g_b->cstr, "hello world"), "C16:unusable", "after %s the buffer is not usable", g_op);
		if(!g_kind && !fits && chance(40)) { OP("shrink"); r = strbuf_shrink(&g_b); shape(r); CHECK(g_b->capacity == 11, "C16:unusable", "shrink left capacity %d", g_b->capacity); }
	}
	/* and whatever was refused leaves nothing behind: ordinary operations on it and on a new buffer do what they always do */
	if(!g_kind || cap >= 32)
	{
		ordinary(&g_b);
		if(!g_kind) { strbuf_t* f = strbuf_create(0, &g_al); ordinary(&f); CHECK(f->capacity < 65536 + 2 * STRBUF_CAPACITY_GROW_STEP, "C16:afterwards", "a new buffer of %d bytes has capacity %d after %s", f->size, f->capacity, g_op); strbuf_destroy(&f); }
		vh_count("ordinary-afterwards");
	}
	strbuf_destroy(&g_b);
	if(!g_kind) CHECK(g_live == 0, "C16:leak", "%d blocks remain after %s", g_live, g_op);
	for(int i = 0; i < MAXB; i++) if(g_blk[i].live) { CHECK(tail_ok(&g_blk[i]), "C16:overrun", "after %s", g_op); drop(&g_blk[i]); }
	if(vh_want_sample()) vh_sample("%s buffer of %d/%d: %s, %s", g_kind ? "fixed" : "dynamic", have, cap, opbuf, fits ? "fits" : "refused");
	vh_case(vh_mix(sig, (uint64_t)pick << 40 ^ (uint64_t)need ^ (uint64_t)idx << 20), have > 0 || need > INT_MAX);
}
int main(int argc, char** argv) { return vh_main(argc, argv, init, run); }
