/*	Coverage-guided choice sequences (builds with -DVH_GUIDED, clang).
	Every random choice of a case is recorded.  Cases that reach something new in the library (an edge, a number of times
	it is taken, or a comparison whose operands come closer) are kept, and most further cases are mutations of kept
	ones: choices changed, moved, taken from another case, or set to an operand the library compared something with.
	The library's sources alone are instrumented; monitors and generators are those of the other builds. */
#define VG_TAPE 8192
#define VG_EDGES 65536
#define VG_BITS (1u << 22)
typedef struct { uint64_t ci, cost; uint32_t n, n_key; uint64_t* t; uint16_t* key; } vg_entry_t;	/* key: places of choices other than characters of texts */
static struct
{
	uint64_t rec[VG_TAPE], play[VG_TAPE]; uint8_t mark[VG_TAPE], in_text; uint32_t n_rec, n_play, pos;
	uint8_t hits[VG_EDGES]; uint32_t touched[VG_EDGES], n_touched; uint8_t ever[VG_EDGES]; uint32_t guards;
	uint8_t map[VG_BITS / 8]; bool fresh; uint8_t calls[4096]; uint64_t work;
	vg_entry_t* corpus; uint32_t n_corpus, cap_corpus;
	uint64_t operand[256]; uint32_t n_operand;
	uint64_t s; bool on;
	/* what the next case is made of, where the parent process finds it after a crash */
	struct { uint64_t n, ci; uint64_t t[VG_TAPE]; }* out;
} vg;
static inline void vg_feature(uint64_t f)
{
	f *= 0x9e3779b97f4a7c15ull; f >>= 64 - 22;
	if(!(vg.map[f >> 3] & (1 << (f & 7)))) { vg.map[f >> 3] |= (uint8_t)(1 << (f & 7)); vg.fresh = true; }
}
#define VG_HOOK __attribute__((used, no_sanitize("address", "undefined", "coverage")))
VG_HOOK void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { if(a == b || *a) return; for(; a != b; a++) *a = ++vg.guards; }
VG_HOOK void __sanitizer_cov_trace_pc_guard(uint32_t* g)
{
	if(!vg.on || *g >= VG_EDGES) return;
	vg.work++;
	if(!vg.hits[*g]) vg.touched[vg.n_touched++] = *g;
	if(vg.hits[*g] < 255) vg.hits[*g]++;
}
static inline void vg_cmp(uintptr_t pc, uint64_t a, uint64_t b, bool constant)
{
	if(!vg.on) return;
	vg.work++;
	uint8_t* c = &vg.calls[(pc * 0x9e3779b97f4a7c15ull) >> 52];
	if(*c >= 100) return;		/* inner loops: the first hundred comparisons of a case tell enough */
	++*c;
	uint64_t d = a > b ? a - b : b - a;
	vg_feature((uint64_t)pc * 131 + (uint64_t)__builtin_popcountll(a ^ b));
	vg_feature((uint64_t)pc * 131 + 65 + (uint64_t)(d ? 64 - __builtin_clzll(d) : 0));
	if(constant || d < 4096) { vg.operand[vg.n_operand++ & 255] = a; if(!constant) vg.operand[vg.n_operand++ & 255] = b; }
}
#define VG_PC (uintptr_t)__builtin_return_address(0)
VG_HOOK void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { vg_cmp(VG_PC, a, b, false); }
VG_HOOK void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { vg_cmp(VG_PC, a, b, false); }
VG_HOOK void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { vg_cmp(VG_PC, a, b, false); }
VG_HOOK void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { if(a >> 40 && b >> 40) return; /* addresses */ vg_cmp(VG_PC, a, b, false); }
VG_HOOK void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { vg_cmp(VG_PC, a, b, true); }
VG_HOOK void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { vg_cmp(VG_PC, a, b, true); }
VG_HOOK void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { vg_cmp(VG_PC, a, b, true); }
VG_HOOK void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { vg_cmp(VG_PC, a, b, true); }
VG_HOOK void __sanitizer_cov_trace_switch(uint64_t v, uint64_t* c) { for(uint64_t i = 0; i < c[0]; i++) vg_cmp(VG_PC + i, c[2 + i], v, true); }

static uint64_t vg_rnd(uint64_t n) { return vh_splitmix(&vg.s) % n; }
static void vg_mutate(void)
{
	vg_entry_t* e = &vg.corpus[vg_rnd(2) && vg.n_corpus > 32 ? vg.n_corpus - 1 - vg_rnd(32) : vg_rnd(vg.n_corpus)];
	vg_entry_t* f = &vg.corpus[vg_rnd(vg.n_corpus)];
	if(f->cost < e->cost && vg_rnd(4)) e = f;
	vg.out->ci = e->ci;
	memcpy(vg.play, e->t, e->n * 8); vg.n_play = e->n;
	for(int k = 1 + (int)vg_rnd(vg_rnd(3) ? 4 : 24); k > 0 && vg.n_play; k--)
	{
		uint32_t lim = vg_rnd(2) ? vg.n_play : 1 + (uint32_t)vg_rnd(vg.n_play), p = (uint32_t)vg_rnd(vg_rnd(3) ? lim : lim < 40 ? lim : 40);
		if(e->n_key && vg_rnd(8)) { p = e->key[vg_rnd(vg_rnd(2) ? e->n_key : 1 + vg_rnd(e->n_key))]; if(p >= vg.n_play) continue; }
		switch(vg_rnd(12))
		{
			case 0: vg.play[p] = vh_splitmix(&vg.s); break;
			case 1: vg.play[p] += 1 + vg_rnd(3); break;
			case 2: vg.play[p] -= 1 + vg_rnd(3); break;
			case 3: vg.play[p] = vg_rnd(vg_rnd(2) ? 300 : 100000); break;
			case 4: vg.play[p] = vg.play[vg_rnd(vg.n_play)]; break;
			case 5: if(vg_rnd(4) == 0) vg.n_play = p; break;
			case 6:
			{
				vg_entry_t* o = &vg.corpus[vg_rnd(vg.n_corpus)];
				if(o->n <= p || vg_rnd(2)) break;
				memcpy(vg.play + p, o->t + p, (o->n - p) * 8); vg.n_play = o->n; break;
			}
			case 7: { uint32_t m = 1 + (uint32_t)vg_rnd(8); if(p + m >= vg.n_play) break; memmove(vg.play + p, vg.play + p + m, (vg.n_play - p - m) * 8); vg.n_play -= m; break; }
			case 8: { uint32_t m = 1 + (uint32_t)vg_rnd(8); if(vg.n_play + m > VG_TAPE) break; memmove(vg.play + p + m, vg.play + p, (vg.n_play - p) * 8); for(uint32_t i = 0; i < m; i++) vg.play[p + i] = vh_splitmix(&vg.s); vg.n_play += m; break; }
			default: if(vg.n_operand) vg.play[p] = vg.operand[vg_rnd(vg.n_operand < 256 ? vg.n_operand : 256)] + (vg_rnd(3) ? 0 : vg_rnd(3) - 1); break;
		}
	}
}
static void vg_before(uint64_t i)
{
	vg.n_play = 0; vg.out->ci = i;
	if(vg.n_corpus && vg_rnd(10) < 7) { vg_mutate(); vh_count("guided-mutations"); }
	vg.out->n = vg.n_play; memcpy(vg.out->t, vg.play, vg.n_play * 8);
	vg.pos = vg.n_rec = vg.n_touched = 0; vg.work = 0; memset(vg.calls, 0, sizeof vg.calls); vg.fresh = false; vg.on = true;
}
static void vg_after(void)
{
	vg.on = false;
	for(uint32_t k = 0; k < vg.n_touched; k++)
	{
		uint32_t g = vg.touched[k]; uint8_t h = vg.hits[g];
		vg.ever[g] = 1; vg.hits[g] = 0;
		vg_feature(0x10000000ull + g * 16ull + (h < 4 ? h : h < 8 ? 4 : h < 16 ? 5 : h < 32 ? 6 : h < 128 ? 7 : 8));
	}
	uint64_t cost = vg.n_rec + vg.work / 8;
	if(!vg.fresh || vg.work > 60000) return;		/* what takes long is not worth its while */
	vh_count("guided-kept");
	if(vg.n_corpus == vg.cap_corpus)
	{
		vg.cap_corpus = vg.cap_corpus ? vg.cap_corpus * 2 : 256;
		vg.corpus = realloc(vg.corpus, vg.cap_corpus * sizeof *vg.corpus);
	}
	if(vg.n_corpus >= 6000) { uint32_t r = (uint32_t)vg_rnd(vg.n_corpus); free(vg.corpus[r].t); free(vg.corpus[r].key); vg.corpus[r] = vg.corpus[--vg.n_corpus]; }
	vg_entry_t* e = &vg.corpus[vg.n_corpus++];
	e->key = malloc(vg.n_rec * 2 + 1); e->n_key = 0;
	for(uint32_t k = 0; k < vg.n_rec; k++) if(!vg.mark[k]) e->key[e->n_key++] = (uint16_t)k;
	e->ci = vg.out->ci; e->cost = cost; e->n = vg.n_rec; e->t = malloc(vg.n_rec * 8 + 1); memcpy(e->t, vg.rec, vg.n_rec * 8);
}
