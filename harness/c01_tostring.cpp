// Integer to text: exact digits, separators, sign; false exactly when it does not fit; nothing outside the buffer.
#include "vp.h"
#include "convert/convert_int.cpp"
using namespace CubicleSoft;
#ifndef RLO
#define RLO 2
#define RHI 36
#endif
static unsigned refdigits(uint64_t n, unsigned r, char *d) { // least significant first
	unsigned k = 0; do { d[k++] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[n % r]; n /= r; } while (n); return k;
}
extern "C" void vp_main() {
	unsigned radix = RLO + vp_choice(RHI - RLO + 1);
	bool issigned = vp_choice(2), sep = vp_choice(2);
	uint64_t num = vp_u64(); bool neg = false; uint64_t mag = num;
	if (issigned && vp_split((int64_t)num < 0)) { neg = true; mag = 0 - num; }
	char sepc = 0; if (sep) { sepc = (char)vp_u8(); vp_assume(sepc != 0); }
	char digs[64]; unsigned k = refdigits(mag, radix, digs);
	char exp[100]; size_t len = 0;
	if (neg) exp[len++] = '-';
	for (unsigned i = k; i-- > 0;) { exp[len++] = digs[i]; if (sep && i && i % 3 == 0) exp[len++] = sepc; }
	exp[len] = 0; size_t need = len + 1;
	static const int delta[] = { 0, -1, 1, 30 };
	size_t size = need + delta[vp_choice(4)];
	char *buf = new char[size];
	bool r = issigned ? Convert::Int::ToString(buf, size, (int64_t)num, sepc, radix) : Convert::Int::ToString(buf, size, num, sepc, radix);
	if (size < need) { vp_assert(!r, "ToString reports success although the text does not fit"); vp_cover("toosmall"); }
	else { vp_assert(r, "ToString fails although the text fits"); for (size_t i = 0; i < need; i++) vp_assert(buf[i] == exp[i], "ToString text differs from the exact representation"); vp_cover("fits"); }
	delete[] buf;
}
