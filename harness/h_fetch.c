/*	Monitor C17: the callback checks what it is offered, returns every kind of result, and the buffer is judged after each. */
#include "rec.h"
typedef struct { int magic; strbuf_t* buf; int exp_space; const char* exp_dst; int ret, fill; int calls; int lie; } fv_t;
static char g_b[1 << 18]; static int g_n;	/* the contents expected */
static char g_in[1 << 18];
static int fetch(void* dst, int space, void* vars)
{
	fv_t* f = vars;
	CHECK(f && f->magic == 4711, "C17:vars", "the callback received another argument");
	f->calls++;
	CHECK(space == f->exp_space, "C17:space", "the callback was offered %d bytes, %d are free", space, f->exp_space);
	CHECK(dst == (void*)f->exp_dst, "C17:address", "the callback was given an address %td bytes from the end of the contents", (char*)dst - f->exp_dst);
	/* a callback may write anywhere in the offered space, whatever it returns */
	if(f->fill > space) f->fill = space;
	memcpy(dst, g_in, f->fill);
	return f->ret;
}
/* a fixed buffer with nearly INT_MAX bytes in memory that is committed where it is touched; callbacks write at the ends only */
static int hfetch(void* dst, int space, void* vars)
{
	fv_t* f = vars;
	CHECK(f && f->magic == 4711, "C17:vars", "the callback received another argument");
	f->calls++;
	CHECK(space == f->exp_space, "C17:space", "the callback was offered %d bytes, %d are free", space, f->exp_space);
	CHECK(dst == (void*)f->exp_dst, "C17:address", "the callback was given an address %td bytes from the end of the contents", (char*)dst - f->exp_dst);
	if(space > 0) { ((char*)dst)[space - 1] = 'e'; ((char*)dst)[0] = 'b'; }
	return f->ret;
}
static void run_huge(void)
{
	size_t bytes = sizeof(strbuf_t) + 1 + (size_t)INT_MAX - (chance(50) ? 0 : rnd(100)) , tot = (bytes + 4095) / 4096 * 4096;
	char* m = mmap(NULL, tot + 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(m == MAP_FAILED || mprotect(m, tot, PROT_READ | PROT_WRITE)) vh_harness_error("mmap 2 GiB");
	strbuf_t* b = strbuf_create_fixed(m, bytes);
	CHECK(b, "C17:create", "creation in %zu bytes failed", bytes);
	int cap = b->capacity, steps = 1 + rnd(6), n = 0; uint64_t sig = 77;
	for(int k = 0; k < steps; k++)
	{
		int space = cap - n;
		fv_t f = {.magic = 4711, .exp_space = space, .exp_dst = b->cstr + n};
		switch(rnd(8))
		{
			case 0: f.ret = -1 - (int)(rnd64() & 0x7fffffff); break;
			case 1: f.ret = space < INT_MAX ? space + 1 : INT_MIN; break;
			case 2: f.ret = INT_MAX; break;
			case 3: f.ret = space; break;
			case 4: f.ret = space / 2 + (int)rnd(2); break;
			case 5: f.ret = space > 65536 ? space - 65536 : 0; break;
			case 6: f.ret = space > 70000 ? 65536 + (int)rnd(100) : space; break;
			default: f.ret = (int)(rnd64() % ((uint64_t)space + 1)); break;
		}
		bool ok = f.ret >= 0 && f.ret <= space;
		vh_trace("append_using (huge) capacity %d size %d: callback returned %d (space %d)", cap, n, f.ret, space);
		strview_t r = strbuf_append_using(&b, hfetch, &f);
		CHECK(f.calls == 1, "C17:calls", "the callback was called %d times", f.calls);
		CHECK((char*)b == m && b->capacity == cap, "C17:moved", "append_using changed the allocation");
		if(ok)
		{
			CHECK(r.data == b->cstr && r.size == b->size && r.size == n + f.ret, "C17:returned-view", "%d bytes fetched after %d: returned view of size %d, contents %d", f.ret, n, r.size, b->size);
			if(f.ret) CHECK(b->cstr[n] == 'b', "C17:content", "the first byte fetched behind %d changed", n);
			if(f.ret == space && space > 1) CHECK(b->cstr[cap - 1] == 'e', "C17:content", "the last byte fetched changed");
			n += f.ret; vh_count("huge-fetched");
		}
		else
		{
			CHECK(!strview_is_valid(r), "C17:bad-result-valid", "the callback returned %d with %d free, the returned view is valid", f.ret, space);
			n = 0; vh_count("huge-refused");
		}
		CHECK(b->size == n && b->cstr[n] == 0, "C17:content", "the callback returned %d with %d free: size %d, expected %d, or no NUL", f.ret, space, b->size, n);
		sig = vh_mix(vh_mix(sig, (uint64_t)f.ret), (uint64_t)n);
	}
	munmap(m, tot + 65536);
	vh_case(sig, true);
}
static void run(uint64_t ci)
{
	if(ci % 1000 == 7) { run_huge(); return; }
	strbuf_t* b; rec_area_t area; char log[400] = "";
	int cap = chance(40) ? (int)rnd(5) : chance(60) ? (int)rnd(40) : rnd_size(20000);
	if(ci % 200 == 3) cap = 65536 + (int)rndr(-300, chance(50) ? 300 : 100000);
	int fixed = chance(50) ? cap : -1;
	if(fixed >= 0) b = rec_fixed(cap, &area); else b = strbuf_create(cap, &rec_al);
	CHECK(b != NULL, "C17:create", "creation failed");
	g_n = 0;
	uint64_t sig = vh_mix(9, (uint64_t)cap * 2 + (fixed >= 0));
	int steps = 1 + rnd(8);
	for(int k = 0; k < steps; k++)
	{
		if(chance(25))
		{
			/* other edits in between */
			int m = rnd(b->capacity + (fixed >= 0 ? 1 : 10)); if(m > 30000) m = 30000;
			rnd_text(g_b, m, -1);
			strbuf_assign(&b, (strview_t){.data = g_b, .size = m});
			g_n = m;
			if(fixed < 0 && chance(30)) strbuf_shrink(&b);
			if(fixed < 0 && chance(30)) strbuf_grow(&b, b->capacity + (int)rnd(40));
		}
		int space = b->capacity - b->size, calls0 = rec_calls;
		fv_t f = {.magic = 4711, .exp_space = space, .exp_dst = b->cstr + b->size};
		switch(rnd(9))
		{
			case 0: f.ret = INT_MIN; break;
			case 1: f.ret = INT_MAX; break;
			case 2: f.ret = -1; break;
			case 3: f.ret = space + 1; break;
			case 4: f.ret = space; break;
			case 5: f.ret = 0; break;
			case 6: f.ret = chance(50) ? (int)rnd64() : -(int)rnd(space + 10); break;
			default: f.ret = (int)rnd(space + 1); break;
		}
		bool ok = f.ret >= 0 && f.ret <= space;
		f.fill = ok ? f.ret : (int)rnd(space + 1);
		if(ok && chance(40)) f.fill = f.ret + (int)rnd(space - f.ret + 1);	/* scribbling in the rest of the space is allowed */
		rnd_text(g_in, f.fill < 4000 ? f.fill : 4000, -1);
		if(f.fill > 4000) for(int i = 4000; i < f.fill; i++) g_in[i] = (char)(i * 7);
		int size0 = b->size; strbuf_t* b0 = b;
		strview_t r = strbuf_append_using(&b, fetch, &f);
		vh_trace("append_using %s capacity %d size %d: callback returned %d (space %d)", fixed >= 0 ? "fixed" : "dynamic", cap, size0, f.ret, space);
		CHECK(f.calls == 1, "C17:calls", "the callback was called %d times", f.calls);
		CHECK(b == b0 && rec_calls == calls0, "C17:moved", "append_using changed the allocation");
		if(ok)
		{
			memcpy(g_b + g_n, g_in, f.ret); g_n += f.ret;
			CHECK(r.data == b->cstr && r.size == b->size, "C17:returned-view", "%d bytes fetched: returned view of size %d, contents %d", f.ret, r.size, b->size);
			vh_count(f.ret == space ? (space ? "filled" : "no-space") : f.ret ? "part" : "nothing-fetched");
		}
		else
		{
			g_n = 0;
			CHECK(!strview_is_valid(r), "C17:bad-result-valid", "the callback returned %d with %d free, the returned view is valid", f.ret, space);
			vh_count(f.ret < 0 ? "negative-result" : "too-large-result");
		}
		rec_shape("append_using", b, fixed, &area);
		CHECK(b->size == g_n && !memcmp(b->cstr, g_b, g_n), "C17:content", "the callback returned %d with %d free and %d present: expected %s got %s", f.ret, space, size0, vh_q(g_b, g_n), vh_q(b->cstr, b->size));
		sig = vh_mix(vh_mix(sig, (uint64_t)f.ret), (uint64_t)size0);
		if(strlen(log) < 350) sprintf(log + strlen(log), "%d/%d ", f.ret, space);
		if(chance(20))
		{
			strbuf_t* nb = NULL;
			f.calls = 0;
			strview_t a = strbuf_append_using(&nb, fetch, &f), c = strbuf_append_using(NULL, fetch, &f);
			CHECK(!strview_is_valid(a) && !strview_is_valid(c) && nb == NULL && f.calls == 0, "C17:null", "fetching into no buffer called the callback or returned a valid view");
			vh_count("null-buffer");
		}
		if(!ok && chance(50))
		{
			int m = rnd(b->capacity + 1); if(m > 3000) m = 3000;
			rnd_text(g_b, m, -1); g_n = m;
			strbuf_append(&b, ((strview_t){.data = g_b, .size = m}));
			CHECK(b->size == m && !memcmp(b->cstr, g_b, m), "C17:unusable", "after a bad fetch the buffer is not usable");
		}
	}
	strbuf_destroy(&b);
	CHECK(rec_nlive == 0, "C17:leak", "%d blocks remain", rec_nlive);
	rec_reset();
	if(vh_want_sample()) vh_sample("%s capacity %d, results/space: %s", fixed >= 0 ? "fixed" : "dynamic", cap, log);
	vh_case(sig, true);
}
int main(int argc, char** argv) { return vh_main(argc, argv, NULL, run); }
