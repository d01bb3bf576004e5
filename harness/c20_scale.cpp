// Many live blocks of many sizes in one cache: contents kept through frees, re-use and reallocation; everything released once.
#include "tls_common.h"
#include <cstring>
static uint8_t *p[N2]; static size_t z[N2]; static uint8_t base;
static size_t sz(size_t i) { return i % 50 == 49 ? 30000 + i * 20 : 1 + i * 13 % 700; }
static uint8_t pat(size_t i, size_t j) { return (uint8_t)(base ^ (i * 31 + j)); }
static void put(size_t i, size_t n) { z[i] = n; for (size_t j = 0; j < n; j += n < 1000 ? 1 : 101) p[i][j] = pat(i, j); p[i][n - 1] = pat(i, n - 1); }
static void get(size_t i, size_t n) { for (size_t j = 0; j < n; j += z[i] < 1000 ? 1 : 101) vp_assert(p[i][j] == pat(i, j), "block content changed"); if (n == z[i]) vp_assert(p[i][n - 1] == pat(i, n - 1), "block content changed"); }
extern "C" void vp_main() {
	static const size_t bits[] = { 0, 4, 9, 15 }; base = vp_u8(); unsigned how = vp_choice(3); size_t mb = bits[vp_choice(4)];
	{
		TLS t; vp_assert(t.ThreadInit(mb), "thread init");
		for (size_t i = 0; i < N2; i++) { p[i] = (uint8_t *)t.malloc(sz(i)); vp_assert(p[i] != NULL, "allocation fails"); put(i, sz(i)); }
		for (size_t i = 0; i < N2; i++) get(i, z[i]);
		for (size_t i = 0; i < N2; i += 2) { t.free(p[i]); p[i] = NULL; }
		for (size_t i = 1; i < N2; i += 2) get(i, z[i]);
		for (size_t i = 0; i < N2; i += 2) { p[i] = (uint8_t *)t.malloc(sz(i + 3)); vp_assert(p[i] != NULL, "allocation fails"); put(i, sz(i + 3)); }
		for (size_t i = 0; i < N2; i++) { size_t n = how == 0 ? z[i] * 2 + 1 : how == 1 ? z[i] / 3 + 1 : sz(N2 - i), o = z[i] < n ? z[i] : n; uint8_t *r = (uint8_t *)t.realloc(p[i], n); vp_assert(r != NULL, "reallocation fails"); p[i] = r; get(i, o); put(i, n); }
		for (size_t i = 0; i < N2; i++) get(i, z[i]); vp_cover("many");
		size_t keep = vp_choice(2); for (size_t i = 0; i < N2; i++) t.free(p[i], !keep); vp_assert(t.ThreadEnd(), "thread end");
	}
	vp_assert(vp_heap_live() == 0, "memory not released exactly once");
}
