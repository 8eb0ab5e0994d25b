/*	Monitor C29: the library calls back (allocator, fetching function) and waits (read, write); whatever runs there may
	use the library on other buffers.  Programs run as coroutines, each on a stack of its own; at any callback, and
	between operations, the scheduler may suspend one in the middle of its operation and let others run any number of
	theirs.  Every operation's digest must be the one it has when the program runs alone. */
#include <ucontext.h>
#include <sys/mman.h>
#include <malloc.h>
#include "vh.h"
#include "prog.h"
#if VH_ASAN
#include <sanitizer/common_interface_defs.h>
#endif
#define MAXP 5
#define STACK (1 << 20)
enum { IN_ALLOC, IN_FREE, IN_FETCH, IN_READ, IN_WRITE, BETWEEN, NPLACES };
static const char* g_place[NPLACES] = {"in-allocator", "in-release", "in-fetcher", "in-read", "in-write", "between-operations"};
static prog_t alone[MAXP], woven[MAXP];
static ucontext_t g_main, g_co[MAXP];
static char* g_stack[MAXP];
static bool g_done[MAXP], g_mid[MAXP];
static int g_cur = -1, g_nops, g_np, g_rate, g_lag;
static uint64_t g_sched, g_at[NPLACES], g_switches, g_nested, g_sig;
typedef struct { strbuf_allocator_t a; int who; int64_t live; } own_t;
static own_t own[MAXP];
static int g_place_now;
#if VH_ASAN
static void* g_fake_main; static void* g_fake[MAXP]; static const void* g_main_bottom; static size_t g_main_size;
#endif

/* the running program gives way, to go on when the scheduler chooses it again */
static void give_way(int where)
{
	if(g_cur < 0) return;
	uint64_t r = vh_splitmix(&g_sched);
	if((int)(r % 100) >= (where == BETWEEN ? g_rate / 3 : g_rate)) return;
	int me = g_cur, e = errno;
	g_at[where]++; g_switches++; g_mid[me] = where != BETWEEN;
	g_sig = vh_mix(g_sig, (uint64_t)me * 16 + (uint64_t)where);
	g_place_now = where;
#if VH_ASAN
	__sanitizer_start_switch_fiber(&g_fake[me], g_main_bottom, g_main_size);
#endif
	swapcontext(&g_co[me], &g_main);
#if VH_ASAN
	__sanitizer_finish_switch_fiber(g_fake[me], NULL, NULL);
#endif
	g_mid[me] = false;
	errno = e;
}
static void* own_fn(strbuf_allocator_t* self, void* p, size_t n)
{
	own_t* o = self->app_data;
	if(n == 0)
	{
		give_way(IN_FREE);
		o->live--; free(p); return NULL;
	}
	give_way(IN_ALLOC);
	if(!p) o->live++;
	void* q;
	if(p && g_cur >= 0 && vh_splitmix(&g_sched) & 1)
	{	/* the block moves, and the old one is gone before the others go on */
		size_t had = malloc_usable_size(p);
		q = malloc(n); memcpy(q, p, had < n ? had : n); free(p);
	}
	else q = realloc(p, n);
	if((vh_splitmix(&g_sched) & 7) == 0) give_way(IN_ALLOC);
	return q;
}
static void inside(void* arg) { (void)arg; give_way(IN_FETCH); }
static void between(void* arg, int op) { (void)arg; (void)op; give_way(BETWEEN); }
ssize_t __real_read(int fd, void* b, size_t n); ssize_t __real_write(int fd, const void* b, size_t n);
ssize_t __wrap_read(int fd, void* b, size_t n);	ssize_t __wrap_write(int fd, const void* b, size_t n);
ssize_t __wrap_read(int fd, void* b, size_t n) { give_way(IN_READ); return __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { give_way(IN_WRITE); return __real_write(fd, b, n); }

static void body(int i)
{
#if VH_ASAN
	__sanitizer_finish_switch_fiber(NULL, &g_main_bottom, &g_main_size);
#endif
	prog_run(&woven[i], g_nops);
	g_done[i] = true;
#if VH_ASAN
	__sanitizer_start_switch_fiber(NULL, g_main_bottom, g_main_size);
#endif
}
static void run(uint64_t ci)
{
	(void)ci;
	g_np = 2 + (int)rnd(MAXP - 1); g_nops = 10 + (int)rnd(40); g_rate = chance(30) ? 100 : 5 + (int)rnd(70);
	static char text[4096]; int tn = 200 + (int)rnd(3000);
	for(int i = 0; i < tn; ) { int m = 1 + (int)rnd(80); if(m > tn - i) m = tn - i; rnd_text(text + i, m, -1); i += m; }
	char* shared = vh_place(text, tn, true);
	vh_protect(shared);
	bool same = chance(30); uint64_t sd = rnd64();
	for(int t = 0; t < g_np; t++)
	{
		memset(&own[t], 0, sizeof own[t]);
		own[t].a = (strbuf_allocator_t){.allocator = own_fn, .app_data = &own[t]};
		alone[t] = (prog_t){.seed = same ? sd : rnd64(), .text = shared, .text_n = tn, .alloc = chance(10) ? NULL : &own[t].a};
		woven[t] = (prog_t){.seed = alone[t].seed, .text = shared, .text_n = tn, .alloc = alone[t].alloc, .between = between, .inside = inside};
		if(!g_stack[t])
		{
			g_stack[t] = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			if(g_stack[t] == MAP_FAILED || mprotect(g_stack[t], 4096, PROT_NONE)) vh_harness_error("mmap");
		}
	}
	bool first = chance(50);
	g_cur = -1; g_sched = rnd64(); g_sig = 0; g_switches = g_nested = 0; memset(g_at, 0, sizeof g_at);
	if(first) for(int t = 0; t < g_np; t++) prog_run(&alone[t], g_nops);
	for(int t = 0; t < g_np; t++)
	{
		g_done[t] = g_mid[t] = false;
		getcontext(&g_co[t]);
		g_co[t].uc_stack.ss_sp = g_stack[t]; g_co[t].uc_stack.ss_size = STACK; g_co[t].uc_link = &g_main;
		makecontext(&g_co[t], (void (*)(void))body, 1, t);
	}
	/* now and then one is left suspended until all others have finished */
	g_lag = chance(30) ? (int)rnd(g_np) : -1; int lag_after = 1 + (int)rnd(30), turns = 0;
	for(int left = g_np; left > 0; )
	{
		int t = (int)(vh_splitmix(&g_sched) % (uint64_t)g_np);
		if(g_done[t]) continue;
		if(t == g_lag && turns > lag_after && left > 1) continue;
		for(int k = 0; k < g_np; k++) if(k != t && g_mid[k]) { g_nested++; break; }
		turns++;
		g_cur = t;
#if VH_ASAN
		__sanitizer_start_switch_fiber(&g_fake_main, g_stack[t], STACK);
#endif
		swapcontext(&g_main, &g_co[t]);
#if VH_ASAN
		__sanitizer_finish_switch_fiber(g_fake_main, NULL, NULL);
#endif
		g_cur = -1;
		if(g_done[t]) left--;
	}
	if(!first) for(int t = 0; t < g_np; t++) prog_run(&alone[t], g_nops);
	for(int t = 0; t < g_np; t++)
	{
		CHECK(own[t].live == 0, "C29:leak", "program %d left %lld blocks", t, (long long)own[t].live);
		CHECK(alone[t].n == g_nops && woven[t].n == g_nops, "C29:count", "program %d performed %d operations of %d", t, woven[t].n, g_nops);
		for(int k = 0; k < g_nops; k++)
		{
			CHECK(alone[t].res[k] == woven[t].res[k], "C29:result", "operation %d (%s) of program %d of %d gave a different result than alone", k, alone[t].name[k] ? alone[t].name[k] : "?", t, g_np);
			vh_count_n(alone[t].name[k], 1);
		}
	}
	for(int i = 0; i < NPLACES; i++) vh_count_n(g_place[i], g_at[i]);
	vh_count_n("resumed-while-another-is-suspended-within-an-operation", g_nested);
	if(g_lag >= 0 && turns > lag_after) vh_count("one-suspended-to-the-end");
	if(vh_want_sample()) vh_sample("%d programs x %d operations, %llu switches, %llu while another was within an operation, %s programs", g_np, g_nops, (unsigned long long)g_switches, (unsigned long long)g_nested, same ? "equal" : "different");
	vh_case(g_sig, g_nested > 1);
}
int main(int argc, char** argv) { return vh_main(argc, argv, NULL, run); }
