// ConvertToUTF8 on every sequence of N units of width W, every capacity.
#include "u8ref.h"
#include "utf8/utf8_util.cpp"
using namespace CubicleSoft::UTF8;
#if W == 1
typedef uint8_t unit;
#elif W == 2
typedef uint16_t unit;
#else
typedef uint32_t unit;
#endif
extern "C" void vp_main() {
	size_t n = r_pickn();
	unit *src = new unit[n]; r_fill(src, n);
	static const size_t NONE = ~(size_t)0;
	size_t cap = NONE;
#ifdef CAPS
	cap = r_pickcap(N * (W == 1 ? 1 : W == 2 ? 3 : 4) + 1);
#endif
	// reference
	uint8_t out[4 * N + 4]; size_t on = 0, last = 12345;
	for (size_t i = 0; i < n;) {
		uint32_t c; unsigned k; bool ok = true;
#if W == 1
		k = r_dec8(src, i, n, &c); if (!k) { k = 1; ok = false; }
#elif W == 2
		c = src[i]; k = 1;
		if (c >= 0xD800 && c <= 0xDBFF) { if (i + 1 < n && src[i + 1] >= 0xDC00 && src[i + 1] <= 0xDFFF) { k = 2; c = 0x10000 + ((c - 0xD800) << 10) + (src[i + 1] - 0xDC00); } else ok = false; }
#else
		c = src[i]; k = 1;
#endif
		i += k;
		if (!ok || !vp_split(r_valid(c)) || (!on && vp_split(r_comb(c)))) { vp_cover("dropped"); continue; }
		unsigned m = r_len8(c);
		if (cap != NONE && m > cap - on) continue;
		r_enc8(c, m, out + on); on += m; last = i;
	}
	size_t sz = vp_u64(); // the sizing call takes no capacity
	Util::ConvertToUTF8(src, n, W, NULL, sz);
	if (cap == NONE) { vp_assert(sz == on, "sizing call does not report the exact UTF-8 size"); cap = on; }
	uint8_t *dst = new uint8_t[cap]; size_t dn = cap, lp = 12345;
	Util::ConvertToUTF8(src, n, W, dst, dn, &lp);
	vp_assert(dn <= cap, "reported size exceeds the capacity");
	vp_assert(dn == on, "converted size differs from the UTF-8 encoding of the valid code points");
	for (size_t i = 0; i < on; i++) vp_assert(dst[i] == out[i], "converted bytes differ from the UTF-8 encoding of the valid code points");
#if W == 1
	vp_assert(lp == last, "last position is not just after the last converted sequence");
#endif
	if (on) vp_cover("some");
	delete[] dst; delete[] src;
}
