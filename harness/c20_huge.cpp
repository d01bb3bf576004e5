// Requests of any size up to 40 or above 2^41: satisfied with enough room or refused, always terminating.
#include "tls_common.h"
extern "C" void vp_main() {
	{
		TLS t; t.ThreadInit(); uint8_t *p = NULL; uint8_t v = vp_u8(); bool re = vp_choice(2); size_t n = vp_u64(), was = 0; vp_assume(n <= 40 || n > ((size_t)1 << 41));
		if (re) { was = 10; p = (uint8_t *)t.malloc(was); vp_assert(p, "allocation fails"); p[was - 1] = v; }
		uint8_t *r = (uint8_t *)(re ? t.realloc(p, n) : t.malloc(n));
		if (vp_split(n == 0)) vp_assert(!r, "empty request");
		else if (r) { r[n - 1] = v; if (re && vp_split(was <= n - 1)) vp_assert(r[was - 1] == v, "content lost"); vp_cover("satisfied"); t.free(r); }
		else { vp_cover("refused"); if (re) { vp_assert(p[was - 1] == v, "refused reallocation changed the block"); t.free(p); } }
		vp_assert(t.ThreadEnd(), "thread end");
	}
	vp_assert(vp_heap_live() == 0, "memory not released exactly once");
}
