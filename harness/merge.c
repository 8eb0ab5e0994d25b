/*	merge FILE...: number of distinct 64-bit signatures over all the files */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
static int cmp(const void* a, const void* b)
{
	uint64_t x = *(const uint64_t*)a, y = *(const uint64_t*)b;
	return x < y ? -1 : x > y;
}
int main(int argc, char** argv)
{
	uint64_t* v = NULL; size_t n = 0, cap = 0;
	for(int i = 1; i < argc; i++)
	{
		FILE* f = fopen(argv[i], "rb"); uint64_t x;
		if(!f) continue;
		while(fread(&x, 8, 1, f) == 1)
		{
			if(n == cap) { cap = cap ? cap * 2 : 1 << 16; v = realloc(v, cap * 8); if(!v) return 1; }
			v[n++] = x;
		}
		fclose(f);
	}
	if(n) qsort(v, n, 8, cmp);
	size_t d = 0;
	for(size_t i = 0; i < n; i++) if(!i || v[i] != v[i - 1]) d++;
	printf("%zu\n", d);
	return 0;
}
