// Valid text of K code points: to UTF-8 and back is the identity, for UTF-16 and UTF-32.
#include "u8ref.h"
#include "utf8/utf8_util.cpp"
using namespace CubicleSoft::UTF8;
#if W == 2
typedef uint16_t unit;
#else
typedef uint32_t unit;
#endif
extern "C" void vp_main() {
	unsigned k = 1 + vp_choice(K);
	unit src[2 * K]; size_t n = 0;
	for (unsigned i = 0; i < k; i++) {
		uint32_t c = vp_u32(); vp_assume(r_valid(c)); if (!i) vp_assume(!r_comb(c));
		if (W == 2 && vp_split(c > 0xFFFF)) { src[n++] = (unit)(0xD800 + ((c - 0x10000) >> 10)); src[n++] = (unit)(0xDC00 + ((c - 0x10000) & 0x3FF)); vp_cover("pair"); }
		else src[n++] = (unit)c;
	}
	if (W == 4) vp_cover("pair");
	uint8_t mid[4 * K]; size_t mn = sizeof(mid);
	Util::ConvertToUTF8(src, n, W, mid, mn);
	unit *back = new unit[n]; size_t bn = n;
	Util::ConvertFromUTF8(mid, mn, back, bn, W);
	vp_assert(bn == n, "round trip changes the length");
	for (size_t i = 0; i < n; i++) vp_assert(back[i] == src[i], "round trip changes the text");
	delete[] back;
}
