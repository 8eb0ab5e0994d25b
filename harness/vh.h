/*	Harness runtime shared by all monitors: seeded generator, placement of data next to guards,
	failure reporting, distinct-case accounting and evidence counters.
	Every case derives all randomness from (seed, property, case index), so a case can be replayed alone. */
#ifndef VH_H
#define VH_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <limits.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <execinfo.h>
#include <sys/time.h>

#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#endif
#if __has_feature(memory_sanitizer)
#define VH_MSAN 1
#endif
#endif
#ifdef VH_ASAN
#include <sanitizer/asan_interface.h>
#endif
#ifdef VH_MSAN
#include <sanitizer/msan_interface.h>
#endif

#define VH_EXIT_FAIL 77
#define VH_EXIT_HANG 78
#define VH_EXIT_HARNESS 70
#define VH_PROGRESS (4096 * 32)
#define UNUSED __attribute__((unused))

typedef struct { volatile uint64_t cur_case, done, events, fails; } vh_progress_t;

static struct
{
	const char* prop;
	uint64_t seed, from, to, stride;
	int trace;
	const char* stats_path;
	const char* known[64]; int n_known;
	vh_progress_t* prog;
	uint64_t cur;
	uint64_t s[4];
	/* coverage */
	uint64_t evaluations, nontrivial, events, known_hits;
	uint64_t* set; size_t set_cap, set_n;
	struct { const char* name; uint64_t n; } ctr[160]; int n_ctr;
	char sample[8][800]; int n_samples;
	char known_msg[16][400]; int n_known_msg;
	int cpu_limit;
	const char* tier;
} vh;

/* ---------------------------------------------------------------- random */
static inline uint64_t vh_rotl(uint64_t x, int k){return (x << k) | (x >> (64 - k));}
static uint64_t vh_splitmix(uint64_t* x)
{
	uint64_t z = (*x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static uint64_t vh_hash_bytes(uint64_t h, const void* p, size_t n)
{
	const unsigned char* c = p;
	h ^= 0xcbf29ce484222325ull + n;
	while(n--) { h ^= *c++; h *= 0x100000001b3ull; h ^= h >> 29; }
	return h;
}
static uint64_t vh_mix(uint64_t h, uint64_t v) { return vh_hash_bytes(h, &v, sizeof v); }
static void vh_reseed(uint64_t seed, uint64_t idx)
{
	uint64_t x = seed * 0x9e3779b97f4a7c15ull ^ vh_hash_bytes(0, vh.prop, strlen(vh.prop)) ^ (idx + 1) * 0xd1342543de82ef95ull;
	for(int i = 0; i < 4; i++) vh.s[i] = vh_splitmix(&x);
}
#ifdef VH_GUIDED
static void vh_count_n(const char* name, uint64_t n);
#define vh_count(name) vh_count_n(name, 1)
#include "guided.h"
#endif
static UNUSED uint64_t rnd64(void)
{
	uint64_t* s = vh.s;
	uint64_t r = vh_rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
	s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = vh_rotl(s[3], 45);
#ifdef VH_GUIDED
	if(vg.pos < vg.n_play) r = vg.play[vg.pos];
	if(vg.pos < VG_TAPE) { vg.mark[vg.pos] = vg.in_text; vg.rec[vg.pos++] = r; vg.n_rec = vg.pos; }
#endif
	return r;
}
/* uniform in [0,n) */
static UNUSED uint64_t rnd(uint64_t n) { return n ? rnd64() % n : 0; }
/* one in n; never in guided builds, whose kept cases must be quick */
#ifdef VH_GUIDED
#define vh_rare(n) (rnd(n), false)
#else
#define vh_rare(n) (rnd(n) == 0)
#endif
/* uniform in [a,b] */
static UNUSED int64_t rndr(int64_t a, int64_t b) { return a + (int64_t)rnd((uint64_t)(b - a) + 1); }
static UNUSED bool chance(int pct) { return (int)rnd(100) < pct; }
/* a size with weight on small values and on both sides of powers of two; <= max */
static UNUSED int rnd_size(int max)
{
	int n;
	uint64_t k = rnd(100);
	if(k < 45) n = rnd(9);
	else if(k < 75) n = rnd(40);
	else if(k < 90) n = rndr(-2, 2) + (1 << rnd(12));
	else if(k < 98) n = rnd(400);
	else n = rnd((uint64_t)max + 1);
	if(n < 0) n = 0;
	return n > max ? max : n;
}
/* an index around the boundaries of a length, sometimes extreme */
static UNUSED int vh_clampi(int64_t v) { return v > INT_MAX ? INT_MAX : v < INT_MIN ? INT_MIN : (int)v; }
static UNUSED int rnd_index(int len)
{
	switch(rnd(12))
	{
		case 0: return INT_MAX;
		case 1: return INT_MIN;
		case 2: return vh_clampi((int64_t)INT_MIN + (int)rnd(3) + len);
		case 3: return INT_MAX - (int)rnd(3) - len;
		case 4: return (int)rnd64();
		case 5: return vh_clampi((int64_t)len + (int)rndr(-2, 2));
		case 6: return vh_clampi(-(int64_t)len + (int)rndr(-2, 2));
		case 7: return (int)rndr(-3, 3);
		default: return vh_clampi(rndr(-(int64_t)len - 1, (int64_t)len + 1));
	}
}

/* ---------------------------------------------------------------- coverage */
static UNUSED void vh_count_n(const char* name, uint64_t n)
{
	for(int i = 0; i < vh.n_ctr; i++)
		if(vh.ctr[i].name == name || !strcmp(vh.ctr[i].name, name)) { vh.ctr[i].n += n; return; }
	if(vh.n_ctr < 160) { vh.ctr[vh.n_ctr].name = name; vh.ctr[vh.n_ctr++].n = n; }
}
#ifndef vh_count
#define vh_count(name) vh_count_n(name, 1)
#endif
static inline void vh_event(void) { vh.events++; }

static void vh_set_add(uint64_t h)
{
	if(h == 0) h = 1;
	if(vh.set_n * 2 >= vh.set_cap)
	{
		size_t nc = vh.set_cap ? vh.set_cap * 2 : 1 << 14;
		if(nc > (1u << 22)) return;	/* counting stops at 2M distinct per process */
		uint64_t* n = calloc(nc, sizeof *n);
		if(!n) return;
		for(size_t i = 0; i < vh.set_cap; i++)
			if(vh.set[i]) { size_t j = vh.set[i] & (nc - 1); while(n[j]) j = (j + 1) & (nc - 1); n[j] = vh.set[i]; }
		free(vh.set); vh.set = n; vh.set_cap = nc;
	}
	size_t j = h & (vh.set_cap - 1);
	while(vh.set[j]) { if(vh.set[j] == h) return; j = (j + 1) & (vh.set_cap - 1); }
	vh.set[j] = h; vh.set_n++;
}
/* declare the case's identity: counted once per distinct signature, and only when non-trivial */
static UNUSED void vh_case(uint64_t sig, bool nontrivial)
{
	if(nontrivial) { vh.nontrivial++; vh_set_add(vh_mix(sig, 0x51)); }
}
static UNUSED bool vh_want_sample(void) { return vh.n_samples < 3; }
static UNUSED __attribute__((format(printf, 1, 2))) void vh_sample(const char* fmt, ...)
{
	if(vh.n_samples >= 3) return;
	va_list va; va_start(va, fmt);
	vsnprintf(vh.sample[vh.n_samples++], sizeof vh.sample[0], fmt, va);
	va_end(va);
}
/* printable rendering of bytes, rotating static buffers */
static UNUSED const char* vh_q(const void* p, int n)
{
	static char bufs[8][420]; static int k;
	char* o = bufs[k = (k + 1) & 7]; char* s = o;
	if(!p) return "(invalid)";
	*o++ = '"';
	for(int i = 0; i < n && o - s < 380; i++)
	{
		unsigned char c = ((const unsigned char*)p)[i];
		if(c >= 0x20 && c < 0x7f && c != '"' && c != '\\') *o++ = c;
		else o += sprintf(o, "\\x%02x", c);
		if(o - s >= 376) o += sprintf(o, "...(%d)", n);
	}
	*o++ = '"'; *o = 0;
	return s;
}
static UNUSED __attribute__((format(printf, 1, 2))) void vh_trace(const char* fmt, ...)
{
	if(!vh.trace) return;
	va_list va; va_start(va, fmt);
	printf("TRACE "); vprintf(fmt, va); printf("\n"); fflush(stdout);
	va_end(va);
}

/* ---------------------------------------------------------------- failures */
static UNUSED bool vh_is_known(const char* key)
{
	for(int i = 0; i < vh.n_known; i++)
		if(!strcmp(vh.known[i], key)) return true;
	return false;
}
/*	key identifies what failed independently of the random case, detail says how */
static UNUSED __attribute__((format(printf, 2, 3))) void vh_fail(const char* key, const char* fmt, ...)
{
	char msg[2000];
	va_list va; va_start(va, fmt);
	vsnprintf(msg, sizeof msg, fmt, va);
	va_end(va);
	if(vh_is_known(key))
	{
		vh.known_hits++;
		if(vh.n_known_msg < 16)
		{
			for(int i = 0; i < vh.n_known_msg; i++)
				if(!strncmp(vh.known_msg[i], key, strlen(key)) && vh.known_msg[i][strlen(key)] == ' ') return;
			snprintf(vh.known_msg[vh.n_known_msg++], sizeof vh.known_msg[0], "%s case=%llu %.300s", key, (unsigned long long)vh.cur, msg);
		}
		return;
	}
	printf("MONITOR-FAIL case=%llu key=%s %s\n", (unsigned long long)vh.cur, key, msg);
	fflush(stdout);
	_exit(VH_EXIT_FAIL);
}
#define CHECK(cond, key, ...) do { vh.events++; if(!(cond)) vh_fail(key, __VA_ARGS__); } while(0)
static UNUSED __attribute__((format(printf, 1, 2))) void vh_harness_error(const char* fmt, ...)
{
	va_list va; va_start(va, fmt);
	fprintf(stderr, "HARNESS-ERROR "); vfprintf(stderr, fmt, va); fprintf(stderr, "\n");
	va_end(va);
	_exit(VH_EXIT_HARNESS);
}

/* ---------------------------------------------------------------- guarded placement of data */
#define VH_SLOTS 64
#define VH_SLOT_BYTES (5u << 18)
static struct { char* base; bool used; bool ro; void* heap; } vh_slot[VH_SLOTS];
static void vh_arena_init(void)
{
	#ifndef VH_ASAN
	size_t pg = 4096, span = VH_SLOT_BYTES + pg;
	char* m = mmap(NULL, span * VH_SLOTS + pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(m == MAP_FAILED) vh_harness_error("mmap");
	for(int i = 0; i < VH_SLOTS; i++)
	{
		vh_slot[i].base = m + pg + i * span;
		if(mprotect(vh_slot[i].base, VH_SLOT_BYTES, PROT_READ | PROT_WRITE)) vh_harness_error("mprotect");
	}
	#endif
}
/*	Copy n bytes to memory whose end (or start) borders memory that traps.
	Under ASan: an exact-size heap block. Otherwise: against a PROT_NONE page on one side. */
static UNUSED char* vh_place(const void* bytes, size_t n, bool at_end)
{
	for(int i = 0; i < VH_SLOTS; i++)
	{
		if(vh_slot[i].used) continue;
		vh_slot[i].used = true;
		vh_slot[i].ro = false;
		#ifdef VH_ASAN
		(void)at_end;
		vh_slot[i].heap = malloc(n ? n : 1);
		if(!vh_slot[i].heap) vh_harness_error("malloc");
		if(n) { if(bytes) memcpy(vh_slot[i].heap, bytes, n); }
		else ASAN_POISON_MEMORY_REGION(vh_slot[i].heap, 1);
		return vh_slot[i].heap;
		#else
		if(n > VH_SLOT_BYTES) vh_harness_error("placement too big");
		char* p = at_end ? vh_slot[i].base + VH_SLOT_BYTES - n : vh_slot[i].base;
		#ifdef VH_MSAN
		/* only the placed bytes are defined; neighbours must not influence anything */
		if(at_end) __msan_poison(p - (p - vh_slot[i].base > 64 ? 64 : 0), 64 < p - vh_slot[i].base ? 64 : 0);
		else __msan_poison(p + n, 64);
		#endif
		if(n && bytes) memcpy(p, bytes, n);
		return p;
		#endif
	}
	vh_harness_error("no free slot");
	return NULL;
}
/* make the placed memory read-only (guard-page builds only) */
static UNUSED void vh_protect(const char* p)
{
	#ifndef VH_ASAN
	for(int i = 0; i < VH_SLOTS; i++)
		if(vh_slot[i].used && vh_slot[i].base <= p && p <= vh_slot[i].base + VH_SLOT_BYTES)
		{
			mprotect(vh_slot[i].base, VH_SLOT_BYTES, PROT_READ);
			vh_slot[i].ro = true;
		}
	#else
	(void)p;
	#endif
}
static UNUSED void vh_release_all(void)
{
	for(int i = 0; i < VH_SLOTS; i++)
	{
		if(!vh_slot[i].used) continue;
		vh_slot[i].used = false;
		#ifdef VH_ASAN
		ASAN_UNPOISON_MEMORY_REGION(vh_slot[i].heap, 1);
		free(vh_slot[i].heap);
		vh_slot[i].heap = NULL;
		#else
		if(vh_slot[i].ro) mprotect(vh_slot[i].base, VH_SLOT_BYTES, PROT_READ | PROT_WRITE);
		#endif
	}
}

/* ---------------------------------------------------------------- text generation */
static const char* vh_alphabets[] =
{
	"ab", "aAbB", "abc,", "a,\"", "a \t,;", "\r\na", "\r\n", "0123456789", "xX0bB1", "\"'a", "aZz@[`{AZ",
	"+-.eE0159", " _.abc", "\x80\xff\x7f\x01", "aA\xc1\xe1\xe9\xc9", ",;:|",
};
#define VH_N_ALPHA (int)(sizeof vh_alphabets / sizeof *vh_alphabets)
/* fill n random bytes of a random style; -1 style picks one */
static UNUSED void rnd_text(char* dst, int n, int style)
{
	if(style < 0) style = rnd(VH_N_ALPHA + 6);
#ifdef VH_GUIDED
	vg.in_text = 1;
#endif
	if(style < VH_N_ALPHA)
	{
		const char* a = vh_alphabets[style]; int la = strlen(a);
		for(int i = 0; i < n; i++) dst[i] = a[rnd(la)];
	}
	else switch(style - VH_N_ALPHA)
	{
		case 0: for(int i = 0; i < n; i++) dst[i] = (char)rnd(256); break;
		case 1: for(int i = 0; i < n; i++) dst[i] = (char)rndr(0x20, 0x7e); break;
		case 2: { char c = (char)rnd(256); for(int i = 0; i < n; i++) dst[i] = c; break; }
		case 3: { int per = 1 + rnd(4); for(int i = 0; i < n; i++) dst[i] = i < per ? "abAB\0,"[rnd(6)] : dst[i - per]; break; }
		case 4: { int per = 1 + rnd(6); for(int i = 0; i < n; i++) dst[i] = i < per ? (char)rnd(256) : dst[i - per];
				if(n) { dst[rnd(n)] ^= chance(50) ? 0x20 : 1; }
				break; }
		default: for(int i = 0; i < n; i++) dst[i] = chance(80) ? "abcXYZ"[rnd(6)] : ",;\" \r\n\0\xff"[rnd(8)]; break;
	}
#ifdef VH_GUIDED
	vg.in_text = 0;
#endif
}

/* ---------------------------------------------------------------- main loop */
static void vh_on_cpu(int sig)
{
	(void)sig;
	char b[100];
	int n = snprintf(b, sizeof b, "MONITOR-HANG case=%llu\n", (unsigned long long)vh.cur);
	if(write(1, b, n)) {}
	void* bt[40];
	backtrace_symbols_fd(bt, backtrace(bt, 40), 2);
	_exit(VH_EXIT_HANG);
}
static UNUSED void vh_arm(void)
{
	struct itimerval it = {{0, 0}, {vh.cpu_limit, 0}};
	setitimer(ITIMER_PROF, &it, NULL);
}
static void vh_json_str(FILE* f, const char* s)
{
	fputc('"', f);
	for(; *s; s++)
	{
		unsigned char c = *s;
		if(c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
		else if(c < 0x20 || c >= 0x7f) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}
static void vh_write_stats(void)
{
	if(!vh.stats_path) return;
	FILE* f = fopen(vh.stats_path, "w");
	if(!f) vh_harness_error("cannot write %s", vh.stats_path);
	fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"events\":%llu,\"distinct\":%llu,\"known_hits\":%llu,\"counters\":{",
		(unsigned long long)vh.evaluations, (unsigned long long)vh.nontrivial, (unsigned long long)vh.events, (unsigned long long)vh.set_n, (unsigned long long)vh.known_hits);
	for(int i = 0; i < vh.n_ctr; i++) { if(i) fputc(',', f); vh_json_str(f, vh.ctr[i].name); fprintf(f, ":%llu", (unsigned long long)vh.ctr[i].n); }
	fprintf(f, "},\"samples\":[");
	for(int i = 0; i < vh.n_samples; i++) { if(i) fputc(',', f); vh_json_str(f, vh.sample[i]); }
	fprintf(f, "],\"known\":[");
	for(int i = 0; i < vh.n_known_msg; i++) { if(i) fputc(',', f); vh_json_str(f, vh.known_msg[i]); }
	fprintf(f, "]");
#ifdef VH_GUIDED
	fprintf(f, ",\"edges\":%u,\"edges_seen\":[", vg.guards);
	for(uint32_t i = 0, any = 0; i < VG_EDGES; i++) if(vg.ever[i]) fprintf(f, "%s%u", any++ ? "," : "", i);
	fprintf(f, "]");
#endif
	fprintf(f, "}\n");
	fclose(f);
	char path[1000]; snprintf(path, sizeof path, "%s.set", vh.stats_path);
	f = fopen(path, "wb");
	if(!f) vh_harness_error("cannot write %s", path);
	for(size_t i = 0; i < vh.set_cap; i++) if(vh.set[i]) fwrite(&vh.set[i], 8, 1, f);
	fclose(f);
}
static UNUSED const char* vh_arg(int argc, char** argv, const char* name, const char* dfault)
{
	size_t l = strlen(name);
	for(int i = 1; i < argc; i++)
		if(!strncmp(argv[i], name, l) && argv[i][l] == '=') return argv[i] + l + 1;
	return dfault;
}
/*	run(case_index) executes one case completely; init(argc, argv) may be NULL */
static UNUSED int vh_main(int argc, char** argv, void (*init)(int, char**), void (*run)(uint64_t))
{
	vh.prop = vh_arg(argc, argv, "prop", "none");
	vh.seed = strtoull(vh_arg(argc, argv, "seed", "1"), NULL, 10);
	vh.from = strtoull(vh_arg(argc, argv, "from", "0"), NULL, 10);
	vh.to = strtoull(vh_arg(argc, argv, "to", "0"), NULL, 10);
	vh.stride = strtoull(vh_arg(argc, argv, "stride", "1"), NULL, 10);
	vh.trace = atoi(vh_arg(argc, argv, "trace", "0"));
	vh.cpu_limit = atoi(vh_arg(argc, argv, "cpu", "20"));
	vh.tier = vh_arg(argc, argv, "tier", "quick");
	vh.stats_path = vh_arg(argc, argv, "stats", NULL);
	const char* k = vh_arg(argc, argv, "known", NULL);
	if(k && *k)
	{
		char* d = strdup(k);
		for(char* t = strtok(d, ","); t && vh.n_known < 64; t = strtok(NULL, ",")) vh.known[vh.n_known++] = t;
	}
	static vh_progress_t dummy;
	vh.prog = &dummy;
	const char* pp = vh_arg(argc, argv, "progress", NULL);
	if(pp)
	{
		int fd = open(pp, O_RDWR | O_CREAT, 0644);
		if(fd < 0 || ftruncate(fd, VH_PROGRESS)) vh_harness_error("progress file");
		void* m = mmap(NULL, VH_PROGRESS, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if(m == MAP_FAILED) vh_harness_error("progress mmap");
		vh.prog = m; close(fd);
	}
#ifdef VH_GUIDED
	static uint64_t no_out[VG_TAPE + 2];
	vg.out = pp ? (void*)((char*)vh.prog + 4096) : (void*)no_out;
	vg.s = vh.seed * 0x9e3779b97f4a7c15ull + vh.from;
	FILE* tape = vh_arg(argc, argv, "tape", NULL) ? fopen(vh_arg(argc, argv, "tape", NULL), "rb") : NULL;
#endif
	signal(SIGPROF, vh_on_cpu);
	vh_arena_init();
	if(init) init(argc, argv);
	struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
	long budget = atol(vh_arg(argc, argv, "budget", "0"));
	uint64_t last_arm = 0;
	for(uint64_t i = vh.from; i < vh.to; i += vh.stride)
	{
		/* the limit is for 16 cases at most, or for one if it is long */
		if(last_arm++ % 16 == 0 || vh.cpu_limit > 90) vh_arm();
		vh.cur = i;
		vh.prog->cur_case = i;
		vh_reseed(vh.seed, i);
#ifdef VH_GUIDED
		vg_before(i);
		if(tape)
		{	/* a recorded case */
			if(fread(vg.out, 16, 1, tape) != 1 || vg.out->n > VG_TAPE || fread(vg.play, 8, vg.out->n, tape) != vg.out->n) vh_harness_error("tape");
			vg.n_play = (uint32_t)vg.out->n;
		}
		run(vg.out->ci);
		vg_after();
#else
		run(i);
#endif
		vh_release_all();
		vh.evaluations++;
		vh.prog->done = vh.evaluations;
		vh.prog->events = vh.events;
		if(budget && last_arm % 8 == 0 && (clock_gettime(CLOCK_MONOTONIC, &t1), t1.tv_sec - t0.tv_sec > budget)) { vh_count("budget-used-up"); break; }
	}
	vh_write_stats();
	printf("HARNESS-OK cases=%llu events=%llu\n", (unsigned long long)vh.evaluations, (unsigned long long)vh.events);
	return 0;
}
#endif
