// Allocating ConvertToUTF8: whole NUL-terminated text, in exactly the memory allocated (heap or caller's allocator).
#include "u8ref.h"
#include "utf8/utf8_util.cpp"
using namespace CubicleSoft::UTF8;
#if W == 1
typedef uint8_t unit;
#elif W == 2
typedef uint16_t unit;
#else
typedef uint32_t unit;
#endif
static size_t asked; static void *mgr; static int calls;
static void *amalloc(void *m, size_t n) { vp_assert(m == mgr, "allocator called with another manager"); calls++; asked = n; return new uint8_t[n]; }
extern "C" void vp_main() {
	size_t n = r_pickn();
	unit *src = new unit[n + 1]; r_fill(src, n); src[n] = 0;
	for (size_t i = 0; i < n; i++) vp_assume(src[i] != 0);
	uint8_t out[4 * N + 4]; size_t on = 0;
	for (size_t i = 0; i < n;) {
		uint32_t c; unsigned k; bool ok = true;
#if W == 1
		k = r_dec8(src, i, n, &c); if (!k) { k = 1; ok = false; }
#elif W == 2
		c = src[i]; k = 1;
		if (c >= 0xD800 && c <= 0xDBFF) { if (i + 1 < n && src[i + 1] >= 0xDC00 && src[i + 1] <= 0xDFFF) { k = 2; c = 0x10000 + ((c - 0xD800) << 10) + (src[i + 1] - 0xDC00); } else ok = false; }
#else
		c = src[i]; k = 1;
#endif
		i += k;
		if (!ok || !vp_split(r_valid(c)) || (!on && vp_split(r_comb(c)))) continue;
		unsigned m = r_len8(c);
		r_enc8(c, m, out + on); on += m;
	}
	bool alt = vp_choice(2); int x; mgr = &x;
	size_t lp;
	uint8_t *r = (uint8_t *)(alt ? Util::ConvertToUTF8(src, W, vp_choice(2) ? &lp : NULL, mgr, amalloc) : Util::ConvertToUTF8(src, W));
	if (alt) vp_assert(calls == 1 && asked == on + 1, "allocation size is not the exact size of the converted text"); else vp_assert(calls == 0, "unexpected allocator use");
	for (size_t i = 0; i < on; i++) vp_assert(r[i] == out[i], "allocated conversion differs");
	vp_assert(r[on] == 0, "allocated conversion is not NUL terminated");
	vp_assert(!vp_accessible(r, on + 2), "allocation larger than the converted text");
	vp_cover(alt ? "alt" : "heap");
	delete[] r; delete[] src;
	vp_assert(vp_heap_live() == 0, "leak");
}
