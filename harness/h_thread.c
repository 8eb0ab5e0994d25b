/*	Monitor C26: threads with buffers of their own, and views of one read-only text, must not affect each other.
	The same programs run alone first; then together, from a barrier, with random delays between operations.
	Every operation's digest must be the same, and the race detector (tsan builds) watches every access. */
#include <pthread.h>
#include <sched.h>
#include "vh.h"
#include "prog.h"
#define MAXT 8
static prog_t alone[MAXT], together[MAXT];
static uint64_t delay_s[MAXT];
static pthread_barrier_t bar;
static uint64_t ticket;			/* relaxed: it must not order anything */
static uint16_t order[MAXT * PROG_MAXOPS];
static int nt, nops, style;
typedef struct { strbuf_allocator_t a; int64_t live, calls; } own_alloc_t;
static own_alloc_t own[MAXT];
static void* own_fn(strbuf_allocator_t* self, void* p, size_t n)
{
	/* the buffer carries a copy of the allocator: app_data leads back to the thread's own */
	own_alloc_t* o = self->app_data;
	o->calls++;
	if(!p) o->live++;
	if(!n) { o->live--; free(p); return NULL; }
	return realloc(p, n);
}
static void between(void* arg, int op)
{
	int t = (int)(intptr_t)arg;
	uint64_t i = __atomic_fetch_add(&ticket, 1, __ATOMIC_RELAXED);
	if(i < MAXT * PROG_MAXOPS) __atomic_store_n(&order[i], (uint16_t)(t + 1), __ATOMIC_RELAXED);
	uint64_t r = vh_splitmix(&delay_s[t]);
	(void)op;
	switch(style)
	{
		case 0: break;
		case 1: if(r % 4 == 0) sched_yield(); break;
		case 2: if(r % 8 == 0) usleep((useconds_t)(r >> 32) % 100); break;
		default: for(volatile int k = 0; k < (int)((r >> 40) % 2000); k++) {} break;
	}
}
static void* body(void* arg)
{
	int t = (int)(intptr_t)arg;
	pthread_barrier_wait(&bar);
	prog_run(&together[t], nops);
	return NULL;
}
static void run(uint64_t ci)
{
	(void)ci;
	nt = 2 + (int)rnd(MAXT - 1); nops = 20 + (int)rnd(60); style = (int)rnd(4);
	static char text[4096]; int tn = 200 + (int)rnd(3000);
	for(int i = 0; i < tn; ) { int m = 1 + (int)rnd(80); if(m > tn - i) m = tn - i; rnd_text(text + i, m, -1); i += m; }
	char* shared = vh_place(text, tn, true);
	vh_protect(shared);
	bool same = chance(30);		/* all threads run the same program: they meet in the same functions */
	uint64_t sd = rnd64();
	for(int t = 0; t < nt; t++)
	{
		memset(&own[t], 0, sizeof own[t]);
		own[t].a = (strbuf_allocator_t){.allocator = own_fn, .app_data = &own[t]};
		alone[t].seed = same ? sd : rnd64(); alone[t].text = shared; alone[t].text_n = tn; alone[t].alloc = chance(50) ? NULL : &own[t].a; alone[t].between = NULL; alone[t].log = NULL;
		together[t].seed = alone[t].seed; together[t].text = shared; together[t].text_n = tn; together[t].alloc = alone[t].alloc; together[t].between = between; together[t].arg = (void*)(intptr_t)t;
		delay_s[t] = rnd64();
	}
	bool first = chance(50);
	if(first) for(int t = 0; t < nt; t++) prog_run(&alone[t], nops);
	ticket = 0;
	pthread_t th[MAXT];
	pthread_barrier_init(&bar, NULL, nt);
	for(int t = 0; t < nt; t++) if(pthread_create(&th[t], NULL, body, (void*)(intptr_t)t)) vh_harness_error("pthread_create");
	for(int t = 0; t < nt; t++) pthread_join(th[t], NULL);
	pthread_barrier_destroy(&bar);
	if(!first) for(int t = 0; t < nt; t++) prog_run(&alone[t], nops);
	for(int t = 0; t < nt; t++)
	{
		CHECK(own[t].live == 0, "C26:leak", "thread %d left %lld blocks", t, (long long)own[t].live);
		CHECK(alone[t].n == nops && together[t].n == nops, "C26:count", "thread %d performed %d operations of %d", t, together[t].n, nops);
		for(int k = 0; k < nops; k++)
		{
			CHECK(alone[t].res[k] == together[t].res[k], "C26:result", "operation %d (%s) of thread %d of %d gave a different result than alone", k, alone[t].name[k] ? alone[t].name[k] : "?", t, nt);
			vh_count_n(alone[t].name[k], 1);
		}
	}
	/* how the operations were interleaved */
	uint64_t sig = 0, switches = 0;
	for(int i = 0; i < (int)ticket; i++) { sig = vh_mix(sig, order[i]); if(i && order[i] != order[i - 1]) switches++; }
	vh_count_n("operation-switches", switches);
	if(switches > (uint64_t)nt) vh_count("interleaved"); else vh_count("barely-interleaved");
	if(vh_want_sample()) vh_sample("%d threads x %d operations, %llu switches between threads, %s programs", nt, nops, (unsigned long long)switches, same ? "equal" : "different");
	vh_case(sig, switches > (uint64_t)nt);
}
int main(int argc, char** argv) { return vh_main(argc, argv, NULL, run); }
