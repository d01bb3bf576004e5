// Buffers that run out at any point of the number (before a digit, a separator or the sign): refused, nothing written outside.
#include "vp.h"
#include "convert/convert_int.cpp"
using namespace CubicleSoft;
extern "C" void vp_main() {
	unsigned radix = 2 + vp_choice(35); size_t size = 2 + vp_choice(MAXS - 1); bool issigned = vp_choice(2), sep = vp_choice(2);
	uint64_t num = vp_u64(), mag = num; char sepc = 0; if (sep) { sepc = (char)vp_u8(); vp_assume(sepc != 0); }
	size_t need = 1; if (issigned && vp_split((int64_t)num < 0)) { need++; mag = 0 - num; }
	unsigned k = 0; uint64_t lim = radix; // count digits up to what fits
	while (true) { need++; if (sep && k && k % 3 == 0) need++; k++; if (need > size) break; if (vp_split(mag < lim)) break; lim *= radix; }
	char *buf = new char[size];
	bool r = issigned ? Convert::Int::ToString(buf, size, (int64_t)num, sepc, radix) : Convert::Int::ToString(buf, size, num, sepc, radix);
	vp_assert(r == (need <= size), "ToString success does not match whether the text fits");
	if (r) { vp_assert(buf[need - 1] == 0, "text is not terminated"); vp_cover("fits"); } else vp_cover("refused");
	delete[] buf;
}
