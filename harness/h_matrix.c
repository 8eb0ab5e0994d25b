/*	One build configuration of C27: performs the programs of prog.h and writes the digest of every operation (0: not in this build).
	DEFAULT_ALLOC says what the configuration provides: 0 nothing, 1 the stdlib allocator, 2 an allocator of the application.
	usage: out=FILE seed=N n=PROGRAMS ops=N [log=1 from=K] */
#include "prog.h"
#if DEFAULT_ALLOC == 2
static long own_calls;
static void* own_fn(strbuf_allocator_t* self, void* p, size_t n) { (void)self; own_calls++; if(!n) { free(p); return NULL; } return realloc(p, n); }
strbuf_allocator_t strbuf_default_allocator = {.allocator = own_fn};
#endif
static void* al_fn(strbuf_allocator_t* self, void* p, size_t n) { (void)self; if(!n) { free(p); return NULL; } return realloc(p, n); }
static strbuf_allocator_t al = {.allocator = al_fn};
static const char* arg(int c, char** v, const char* n, const char* d) { size_t l = strlen(n); for(int i = 1; i < c; i++) if(!strncmp(v[i], n, l) && v[i][l] == '=') return v[i] + l + 1; return d; }
int main(int c, char** v)
{
	uint64_t seed = strtoull(arg(c, v, "seed", "1"), NULL, 10);
	int n = atoi(arg(c, v, "n", "10")), ops = atoi(arg(c, v, "ops", "100")), from = atoi(arg(c, v, "from", "0"));
	bool log = atoi(arg(c, v, "log", "0"));
	FILE* f = fopen(arg(c, v, "out", "/dev/null"), "wb");
	if(!f) return 70;
	/* the default allocator */
	strbuf_t* d = strbuf_create(10, NULL), * e = strbuf_create(cstr("initial"), NULL);
	#if DEFAULT_ALLOC == 0
	if(d || e) { printf("FAIL without a default allocator strbuf_create(.., NULL) did not return NULL\n"); return 1; }
	#else
	if(!d || !e || strcmp(e->cstr, "initial") || d->size || d->capacity < 10) { printf("FAIL strbuf_create(.., NULL) does not work although a default allocator is provided\n"); return 1; }
	strbuf_append(&d, "some text that must grow");
	char* s = strbuf_to_cstr(&d); if(strcmp(s, "some text that must grow") || d) { printf("FAIL to_cstr with the default allocator\n"); return 1; }
	free(s); strbuf_destroy(&e);
	if(e) { printf("FAIL destroy left a pointer\n"); return 1; }
	#if DEFAULT_ALLOC == 2
	if(own_calls < 5) { printf("FAIL the application's strbuf_default_allocator is not used (%ld calls)\n", own_calls); return 1; }
	#endif
	#endif
	static char text[4096]; static prog_t p;
	for(int i = from; i < from + n; i++)
	{
		uint64_t x = seed * 1000003 + (uint64_t)i;
		p.s = x; p.seed = x; p.log = log ? stdout : NULL;
		static const char* alpha[] = {"ab,", "a,\"; ", "\r\na", "0123456789", "\x80\xff\x7f\x01zZ@[", "aAbB \t"};
		p.text_n = 100 + (int)pg_rnd(&p, 3900);
		for(int k = 0; k < p.text_n; )
		{
			int m = 1 + (int)pg_rnd(&p, 60), st = (int)pg_rnd(&p, 8);
			for(; m-- && k < p.text_n; k++) text[k] = st < 6 ? alpha[st][pg_rnd(&p, strlen(alpha[st]))] : st == 6 ? (char)pg_rnd(&p, 256) : (char)(32 + pg_rnd(&p, 95));
		}
		p.text = text; p.alloc = DEFAULT_ALLOC ? NULL : &al;
		prog_run(&p, ops);
		for(int k = 0; k < p.n; k++)
		{
			uint64_t h = p.name[k] ? (p.res[k] ? p.res[k] : 1) : 0;
			if(fwrite(&h, 8, 1, f) != 1) return 70;
		}
	}
	if(fclose(f)) return 70;
	printf("MATRIX-OK\n");
	return 0;
}
