// Invalid radix and tiny buffers are refused without touching memory outside the buffer.
#include "vp.h"
#include "convert/convert_int.cpp"
using namespace CubicleSoft;
extern "C" void vp_main() {
	size_t size = vp_choice(80), radix = vp_u64(); uint64_t num = vp_u64(); char sep = (char)vp_u8();
	bool badradix = vp_split(radix < 2 || radix > 36);
	if (!badradix) { vp_assume(size < 2); vp_assume(radix == 2 || radix == 10 || radix == 36); vp_cover("tiny"); } else vp_cover("badradix");
	char *buf = new char[size];
	bool r = vp_choice(2) ? Convert::Int::ToString(buf, size, (int64_t)num, sep, radix) : Convert::Int::ToString(buf, size, num, sep, radix);
	vp_assert(!r, "ToString accepts an invalid radix or a buffer that cannot hold any number");
	delete[] buf;
}
