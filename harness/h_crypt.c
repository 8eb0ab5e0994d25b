/*	Monitors C24 and C25: AES-256-CBC with PKCS#7.  The reference cipher below is written from FIPS-197 (S-box by field
	inversion, matrices by shift-and-add) and proves itself on the published vectors before anything is judged. */
#include "rec.h"
#include "strbuf_crypt.h"

/* ---------------------------------------------------------------- reference */
static uint8_t SB[256], IS[256], M[16][256];
static uint8_t gmul(uint8_t a, uint8_t b) { uint8_t r = 0; while(b) { if(b & 1) r ^= a; a = (uint8_t)((a << 1) ^ (a & 0x80 ? 0x1b : 0)); b >>= 1; } return r; }
static void ref_init(void)
{
	for(int i = 0; i < 256; i++)
	{
		uint8_t inv = 0;
		for(int j = 1; j < 256 && i; j++) if(gmul((uint8_t)i, (uint8_t)j) == 1) { inv = (uint8_t)j; break; }
		uint8_t s = 0x63;
		for(int k = 0; k < 5; k++) s ^= (uint8_t)((inv << k) | (inv >> (8 - k)));
		SB[i] = s; IS[s] = (uint8_t)i;
	}
	for(int m = 0; m < 16; m++) for(int i = 0; i < 256; i++) M[m][i] = gmul((uint8_t)i, (uint8_t)m);
}
typedef struct { uint8_t w[60][4]; } ref_key_t;
static void ref_expand(ref_key_t* k, const uint8_t* key)
{
	memcpy(k->w, key, 32);
	uint8_t rc = 1;
	for(int i = 8; i < 60; i++)
	{
		uint8_t t[4]; memcpy(t, k->w[i - 1], 4);
		if(i % 8 == 0)
		{
			uint8_t f = t[0]; t[0] = SB[t[1]] ^ rc; t[1] = SB[t[2]]; t[2] = SB[t[3]]; t[3] = SB[f];
			rc = M[2][rc];
		}
		else if(i % 8 == 4) for(int j = 0; j < 4; j++) t[j] = SB[t[j]];
		for(int j = 0; j < 4; j++) k->w[i][j] = k->w[i - 8][j] ^ t[j];
	}
}
static void ref_enc(const ref_key_t* k, uint8_t* s)
{
	for(int i = 0; i < 16; i++) s[i] ^= k->w[i / 4][i % 4];
	for(int r = 1; r <= 14; r++)
	{
		uint8_t t[16];
		for(int c = 0; c < 4; c++) for(int w = 0; w < 4; w++) t[4 * c + w] = SB[s[4 * ((c + w) & 3) + w]];
		if(r < 14)
			for(int c = 0; c < 4; c++) for(int w = 0; w < 4; w++)
				s[4 * c + w] = M[2][t[4 * c + w]] ^ M[3][t[4 * c + ((w + 1) & 3)]] ^ t[4 * c + ((w + 2) & 3)] ^ t[4 * c + ((w + 3) & 3)];
		else memcpy(s, t, 16);
		for(int i = 0; i < 16; i++) s[i] ^= k->w[4 * r + i / 4][i % 4];
	}
}
static void ref_dec(const ref_key_t* k, uint8_t* s)
{
	for(int r = 14; r >= 1; r--)
	{
		uint8_t t[16];
		for(int i = 0; i < 16; i++) s[i] ^= k->w[4 * r + i / 4][i % 4];
		if(r < 14)
			for(int c = 0; c < 4; c++) for(int w = 0; w < 4; w++)
				t[4 * c + w] = M[14][s[4 * c + w]] ^ M[11][s[4 * c + ((w + 1) & 3)]] ^ M[13][s[4 * c + ((w + 2) & 3)]] ^ M[9][s[4 * c + ((w + 3) & 3)]];
		else memcpy(t, s, 16);
		for(int c = 0; c < 4; c++) for(int w = 0; w < 4; w++) s[4 * ((c + w) & 3) + w] = IS[t[4 * c + w]];
	}
	for(int i = 0; i < 16; i++) s[i] ^= k->w[i / 4][i % 4];
}
static void ref_cbc_enc(const uint8_t* key, const uint8_t* iv, uint8_t* p, int n)
{
	ref_key_t k; ref_expand(&k, key);
	for(int b = 0; b < n; b += 16)
	{
		for(int i = 0; i < 16; i++) p[b + i] ^= b ? p[b - 16 + i] : iv[i];
		ref_enc(&k, p + b);
	}
}
static void ref_cbc_dec(const uint8_t* key, const uint8_t* iv, const uint8_t* c, uint8_t* p, int n)
{
	ref_key_t k; ref_expand(&k, key);
	for(int b = 0; b < n; b += 16)
	{
		memcpy(p + b, c + b, 16);
		ref_dec(&k, p + b);
		for(int i = 0; i < 16; i++) p[b + i] ^= b ? c[b - 16 + i] : iv[i];
	}
}
static void hex(uint8_t* o, const char* s) { for(; *s; s += 2, o++) { unsigned v; sscanf(s, "%2x", &v); *o = (uint8_t)v; } }
static void init(int argc, char** argv)
{
	(void)argc; (void)argv;
	ref_init();
	uint8_t key[32], x[64], e[64], iv[16];
	/* FIPS-197 C.3 */
	hex(key, "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f"); hex(x, "00112233445566778899aabbccddeeff"); hex(e, "8ea2b7ca516745bfeafc49904b496089");
	ref_key_t k; ref_expand(&k, key); ref_enc(&k, x);
	if(memcmp(x, e, 16)) vh_harness_error("reference cipher disagrees with FIPS-197");
	/* SP 800-38A F.2.5 */
	hex(key, "603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4"); hex(iv, "000102030405060708090a0b0c0d0e0f");
	hex(x, "6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e5130c81c46a35ce411e5fbc1191a0a52eff69f2445df4f9b17ad2b417be66c3710");
	hex(e, "f58c4c04d6e5f1ba779eabfb5f7bfbd69cfc4e967edb808d679f777bc6702c7d39f23369a9d9bacfa530e26304231461b2eb05e2c39be9fcda6c19078c6a9d1b");
	uint8_t y[64], z[64]; memcpy(y, x, 64); ref_cbc_enc(key, iv, y, 64);
	if(memcmp(y, e, 64)) vh_harness_error("reference CBC disagrees with SP 800-38A");
	ref_cbc_dec(key, iv, y, z, 64);
	if(memcmp(z, x, 64)) vh_harness_error("reference CBC does not decrypt");
}

/* ---------------------------------------------------------------- the monitored buffer */
#define MAXN ((1 << 20) + 200)
#define USUAL 5000
static strbuf_t* g_b; static int g_fixed; static rec_area_t g_area;
static uint8_t g_key[32], g_iv[16], g_ct[MAXN + 64], g_pt[MAXN + 64];
static uint8_t *k_in, *v_in;
static void rnd_key(uint8_t* p, int n)
{
	switch(rnd(6)) { case 0: memset(p, 0, n); break; case 1: memset(p, 0xff, n); break; case 2: memset(p, 0, n); p[rnd(n)] = (uint8_t)(1 << rnd(8)); break; default: for(int i = 0; i < n; i++) p[i] = (uint8_t)rnd(256); }
}
static void place_keys(void)
{
	k_in = (uint8_t*)vh_place(g_key, 32, chance(50)); vh_protect((char*)k_in);
	v_in = (uint8_t*)vh_place(g_iv, 16, chance(50)); vh_protect((char*)v_in);
}
static void keys_kept(const char* op) { CHECK(!memcmp(k_in, g_key, 32) && !memcmp(v_in, g_iv, 16), "C24:key", "%s modified the key or the vector", op); }
static void make(int cap, bool fixed)
{
	if(fixed) { g_fixed = cap; g_b = rec_fixed(cap, &g_area); }
	else { g_fixed = -1; g_b = strbuf_create(cap, &rec_al); }
}
static void put(const uint8_t* p, int n) { strbuf_assign(&g_b, (strview_t){.data = (const char*)p, .size = n}); if(g_b->size != n) vh_harness_error("assign"); }
static void outcome(const char* key, const char* op, strview_t r, const uint8_t* want, int n)
{
	rec_shape(op, g_b, g_fixed, &g_area);
	if(g_fixed < 0) CHECK(rec_nlive == 1, "leak", "%s left %d live blocks", op, rec_nlive);
	if(n >= 0)
	{
		CHECK(g_b->size == n, key, "%s left %d bytes, expected %d", op, g_b->size, n);
		int d = 0; while(d < n && (uint8_t)g_b->cstr[d] == want[d]) d++;
		CHECK(d == n, key, "%s: byte %d of %d differs, block %s, expected %s", op, d, n, vh_q(g_b->cstr + d / 16 * 16, n - d / 16 * 16 < 16 ? n - d / 16 * 16 : 16), vh_q(want + d / 16 * 16, n - d / 16 * 16 < 16 ? n - d / 16 * 16 : 16));
		CHECK(r.data == g_b->cstr && r.size == n, "returned-view", "%s returned a view of %d bytes that is not its %d byte buffer", op, r.size, n);
	}
	else CHECK(!strview_is_valid(r), "returned-view", "%s failed but returned a valid view", op);
}
static int rnd_len(void)
{
	int r = rnd(20);
	return r < 8 ? (int)rnd(50) : r < 17 ? (int)rnd(20) * 16 + (int)rndr(-1, 1) + 1 : r < 19 ? (int)rnd(400) : (int)rnd(USUAL);
}
static void append_after(void)
{
	int n = g_b->size, room = g_fixed < 0 ? 1000 : g_b->capacity - n;
	if(!room) return;
	strbuf_append_char(&g_b, 'x');
	rec_shape("append after encryption", g_b, g_fixed, &g_area);
	CHECK(g_b->size == n + 1 && g_b->cstr[n] == 'x', "shape", "the buffer is not usable afterwards");
}
/* the library has no reason to allocate for contents it has to refuse; a context would be harmless, so blocks of that size are given */
static int g_refuse;
static void* refuse_allocator(struct strbuf_allocator_t* self, void* ptr, size_t size)
{
	(void)self;
	if(size == 0) { free(ptr); return NULL; }
	if(ptr || size > 4096) g_refuse++;
	if(ptr) { fprintf(stderr, "reallocation of contents that cannot be padded\n"); abort(); }
	return malloc(size);
}
static void run24(uint64_t ci)
{
	uint64_t ev = vh.events;
	int n = ci < 330 ? (int)(ci % 66) : rnd_len();
	bool big = ci % 12000 == 777 || ci % 1500 == 500;
	if(big) { n = (ci % 1500 == 500 ? 1 << 16 : 1 << 20) + (int)rndr(-40, 100); vh_count("64-KiB-or-more"); }
	if(ci % 2000 == 400)
	{
		/* contents that cannot be padded within an int; the memory is never touched */
		size_t bytes = offsetof(strbuf_t, cstr) + (size_t)INT_MAX + 1;
		char* m = mmap(NULL, bytes + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if(m == MAP_FAILED) vh_harness_error("mmap 2 GiB");
		strbuf_t* b = (strbuf_t*)m; b->capacity = INT_MAX; b->size = INT_MAX - (chance(60) ? 15 : (int)rnd(16)); b->allocator = (strbuf_allocator_t){0};
		bool dyn = chance(40);
		if(dyn) { b->allocator.allocator = refuse_allocator; g_refuse = 0; }
		int s0 = b->size;
		rnd_key(g_key, 32); rnd_key(g_iv, 16); place_keys();
		strview_t r = strbuf_encrypt(&b, k_in, v_in);
		CHECK(!strview_is_valid(r) && (b->size == s0 || b->size == 0) && b->cstr[b->size] == 0 && b->capacity == INT_MAX, "C24:no-room", "encrypting %d bytes did not refuse (size %d)", s0, b->size);
		CHECK(!dyn || !g_refuse, "C24:no-room", "encrypting %d bytes asked the allocator for %d blocks", s0, g_refuse);
		if(dyn) vh_count("beyond-INT_MAX-dynamic");
		munmap(m, bytes + 4096);
		vh_count("beyond-INT_MAX"); vh_case(s0, true);
		return;
	}
	for(int i = 0; i < n; i++) g_pt[i] = (uint8_t)rnd(chance(50) ? 256 : 17);
	rnd_key(g_key, 32); rnd_key(g_iv, 16); place_keys();
	int cn = (n / 16 + 1) * 16;
	memcpy(g_ct, g_pt, n); memset(g_ct + n, cn - n, cn - n);
	ref_cbc_enc(g_key, g_iv, g_ct, cn);
	uint64_t sig = vh_mix(vh_hash_bytes(n, g_pt, n), vh_hash_bytes(1, g_key, 32)); sig = vh_mix(sig, vh_hash_bytes(2, g_iv, 16));
	int how = big ? 9 : (int)rnd(10);
	if(how == 0)
	{
		/* a fixed buffer without room for the padding */
		int cap = n + (int)rnd(cn - n);
		make(cap, true); put(g_pt, n);
		strview_t r = strbuf_encrypt(&g_b, k_in, v_in);
		keys_kept("encrypt");
		outcome("", "encrypt without room", r, NULL, -1);
		CHECK(g_b->size == 0 || (g_b->size == n && !memcmp(g_b->cstr, g_pt, n)), "C24:no-room", "encrypting %d bytes without room in %d left %s", n, cap, vh_q(g_b->cstr, g_b->size));
		vh_count("no-room"); vh_case(sig, true);
		return;
	}
	bool fixed = how < 5;
	make(fixed ? cn + (chance(50) ? 0 : (int)rnd(40)) : chance(50) ? (int)rnd(cn + 20) : 0, fixed);
	put(g_pt, n);
	if(!fixed && chance(20)) strbuf_shrink(&g_b);
	vh_trace("encrypt %d bytes, capacity %d %s", n, g_b->capacity, fixed ? "fixed" : "dynamic");
	strview_t r = strbuf_encrypt(&g_b, k_in, v_in);
	keys_kept("encrypt");
	outcome("C24:ciphertext", "encrypt", r, g_ct, cn);
	vh_count(n % 16 == 0 ? "full-padding-block" : "padded");
	if(chance(10) && (!fixed || g_b->capacity >= cn + 16))
	{	/* encrypt the ciphertext again, and back */
		memset(g_ct + cn, 16, 16);
		static uint8_t save[MAXN + 64]; memcpy(save, g_ct, cn);
		ref_cbc_enc(g_key, g_iv, g_ct, cn + 16);
		r = strbuf_encrypt(&g_b, k_in, v_in);
		outcome("C24:ciphertext", "second encrypt", r, g_ct, cn + 16);
		r = strbuf_decrypt(&g_b, k_in, v_in);
		outcome("C24:plaintext", "decrypt of two", r, save, cn);
		memcpy(g_ct, save, cn);
		vh_count("twice");
	}
	if(chance(50))
	{	/* the receiver has a buffer of its own, exactly as large as the ciphertext */
		bool f2 = !big && chance(50);
		if(!fixed) strbuf_destroy(&g_b);
		make(f2 ? cn : (int)rnd(cn + 1), f2); put(g_ct, cn);
		vh_count("other-buffer");
	}
	r = strbuf_decrypt(&g_b, k_in, v_in);
	keys_kept("decrypt");
	outcome("C24:plaintext", "decrypt", r, g_pt, n);
	vh_count(g_fixed < 0 ? "round-trip-dynamic" : "round-trip-fixed");
	if(chance(30)) append_after();
	if(chance(5))
	{
		strbuf_t* nb = NULL;
		CHECK(!strview_is_valid(strbuf_encrypt(&nb, k_in, v_in)) && !strview_is_valid(strbuf_decrypt(&nb, k_in, v_in)) && !strview_is_valid(strbuf_encrypt(NULL, k_in, v_in)) && !strview_is_valid(strbuf_decrypt(NULL, k_in, v_in)), "C24:null", "encryption without a buffer returned a view");
	}
	if(g_fixed < 0) strbuf_destroy(&g_b);
	CHECK(rec_nlive == 0, "leak", "%d blocks remain", rec_nlive);
	rec_reset();
	if(vh_want_sample()) vh_sample("%d bytes %s, ciphertext %s", n, fixed ? "fixed" : "dynamic", vh_q(g_ct, 16));
	vh_case(sig, vh.events - ev > 5);
}
static void run25(uint64_t ci)
{
	uint64_t ev = vh.events;
	rnd_key(g_key, 32); rnd_key(g_iv, 16); place_keys();
	int n, how = rnd(10); const char* kind;
	bool enumerated = ci < 256 * 18, big = ci % 1000 == 500 && !enumerated;
	if(ci % 5000 == 4700)
	{
		/* nearly INT_MAX bytes that are no whole number of blocks; nothing has to be touched */
		size_t bytes = offsetof(strbuf_t, cstr) + (size_t)INT_MAX + 1;
		char* m = mmap(NULL, bytes + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if(m == MAP_FAILED) vh_harness_error("mmap 2 GiB");
		strbuf_t* b = (strbuf_t*)m; b->capacity = INT_MAX; b->size = INT_MAX - (int)rnd(15); b->allocator = (strbuf_allocator_t){0};
		int s0 = b->size;
		strview_t r = strbuf_decrypt(&b, k_in, v_in);
		CHECK(!strview_is_valid(r) && b->size == 0 && b->cstr[0] == 0 && b->capacity == INT_MAX, "C25:not-emptied", "decrypting %d bytes did not refuse (size %d)", s0, b->size);
		munmap(m, bytes + 4096);
		vh_count("nearly-INT_MAX"); vh_case(s0, true);
		return;
	}
	if(big) how = 9;
	if(enumerated)
	{	/* every value of the last byte x every number of matching bytes before it */
		int pad = (int)(ci % 256), same = (int)(ci / 256);	/* same: 0..17 */
		n = 16 * (1 + (int)rnd(3));
		for(int i = 0; i < n; i++) { g_pt[i] = (uint8_t)rnd(256); if(g_pt[i] == pad) g_pt[i] ^= 0x40; }
		for(int i = 1; i <= same && i <= n; i++) g_pt[n - i] = (uint8_t)pad;
		g_pt[n - 1] = (uint8_t)pad;
		memcpy(g_ct, g_pt, n); ref_cbc_enc(g_key, g_iv, g_ct, n);
		kind = "enumerated-padding";
	}
	else if(how < 3) { n = chance(50) ? (int)rnd(70) : rnd_len(); for(int i = 0; i < n; i++) g_ct[i] = (uint8_t)rnd(256); kind = "random-bytes"; }
	else if(how < 7)
	{	/* chosen padding: valid or nearly so */
		n = 16 * (1 + (int)rnd(chance(90) ? 5 : 200));
		for(int i = 0; i < n; i++) g_pt[i] = (uint8_t)rnd(256);
		int pad = chance(80) ? 1 + (int)rnd(16) : (int)rnd(40);
		for(int i = 1; i <= pad && i <= n; i++) g_pt[n - i] = (uint8_t)pad;
		if(chance(50) && pad) g_pt[n - 1 - rnd(pad < n ? pad : n)] ^= (uint8_t)(chance(50) ? 1u << rnd(8) : 1u + (unsigned)rnd(255));
		memcpy(g_ct, g_pt, n); ref_cbc_enc(g_key, g_iv, g_ct, n);
		kind = "chosen-padding";
	}
	else
	{	/* a real ciphertext, then damaged: bit flips, truncation, wrong key or vector */
		int m = rnd_len(); if(m > USUAL - 32) m = USUAL - 32;
		if(big) { m = (ci % 8000 == 5500 ? 1 << 20 : 1 << 16) + (int)rndr(-40, 100); vh_count("64-KiB-or-more"); }
		for(int i = 0; i < m; i++) g_pt[i] = (uint8_t)rnd(256);
		n = (m / 16 + 1) * 16;
		memcpy(g_ct, g_pt, m); memset(g_ct + m, n - m, n - m);
		uint8_t key2[32], iv2[16]; memcpy(key2, g_key, 32); memcpy(iv2, g_iv, 16);
		switch(big && chance(70) ? 4 : rnd(5)) { case 0: key2[rnd(32)] ^= (uint8_t)(1 << rnd(8)); break; case 1: iv2[rnd(16)] ^= (uint8_t)(1 << rnd(8)); break; default: break; }
		ref_cbc_enc(key2, iv2, g_ct, n);
		switch(big && chance(70) ? 3 : rnd(4)) { case 0: g_ct[rnd(n)] ^= (uint8_t)(1 << rnd(8)); break; case 1: n = (int)rnd(n); break; case 2: n = (int)rnd(n / 16) * 16; break; default: break; }
		kind = "damaged";
	}
	uint64_t sig = vh_mix(vh_hash_bytes(n, g_ct, n), vh_hash_bytes(1, g_key, 32)); sig = vh_mix(sig, vh_hash_bytes(2, g_iv, 16));
	int expect = -1;
	if(n && n % 16 == 0)
	{
		ref_cbc_dec(g_key, g_iv, g_ct, g_pt, n);
		int pad = g_pt[n - 1], ok = pad >= 1 && pad <= 16;
		for(int i = 1; ok && i <= pad; i++) ok = g_pt[n - i] == pad;
		if(ok) expect = n - pad;
	}
	bool fixed = !big && chance(50);
	make(fixed ? n + (chance(60) ? 0 : (int)rnd(40)) : (int)rnd(n + 1), fixed);
	put(g_ct, n);
	if(!fixed && chance(50)) strbuf_shrink(&g_b);
	vh_trace("decrypt %d bytes (%s), expect %d", n, kind, expect);
	strview_t r = strbuf_decrypt(&g_b, k_in, v_in);
	keys_kept("decrypt");
	outcome("C25:plaintext", "decrypt", r, g_pt, expect);
	if(expect < 0) CHECK(g_b->size == 0, "C25:not-emptied", "undecryptable %d bytes left %d bytes in the buffer", n, g_b->size);
	vh_count(expect < 0 ? (n == 0 ? "empty" : n % 16 ? "partial-block" : "invalid-padding") : expect == 0 ? "empty-plaintext" : "valid");
	vh_count(kind);
	if(chance(30)) append_after();
	if(g_fixed < 0) strbuf_destroy(&g_b);
	CHECK(rec_nlive == 0, "leak", "%d blocks remain", rec_nlive);
	rec_reset();
	if(vh_want_sample()) vh_sample("%s: %d bytes in a %s buffer, expected result %d", kind, n, fixed ? "fixed" : "dynamic", expect);
	vh_case(sig, vh.events - ev > 3);
}
static void run(uint64_t ci) { if(!strcmp(vh.prop, "C24")) run24(ci); else run25(ci); }
int main(int argc, char** argv) { return vh_main(argc, argv, init, run); }
