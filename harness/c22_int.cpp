// Random integers: always in range; rejected words leave no trace; every result has as many preimages as every other. The last is
// shown by a bijection between the words yielding any two results r, s (exchange by xor of the difference, or shift by it).
#include "rng_common.h"
static uint64_t word[3]; static unsigned pos, limit;
extern "C" ssize_t vp_stub_read(int, void *p, size_t n) {
	if (pos >= limit) { errno = EIO; return -1; }
	if (n > limit - pos) n = limit - pos;
	memcpy(p, (uint8_t *)word + pos, n); pos += n; return (ssize_t)n;
}
static bool f(Security::CSPRNG &r, uint64_t w, uint64_t a, uint64_t b, uint64_t &res) { word[0] = w; pos = 0; limit = 8; res = 0; bool ok = r.GetInteger(res, a, b); return ok; }
extern "C" void vp_main() {
	openmask = 3; Security::CSPRNG r(vp_choice(2)); uint64_t a = vp_u64(), b = vp_u64(), lo, hi; if (vp_split(a <= b)) {  lo = a; hi = b; } else { lo = b; hi = a; }
#ifdef WIDTH
	vp_assume(hi - lo <= ((uint64_t)1 << WIDTH));
#endif
	uint64_t x, y;
	switch (vp_choice(4)) {
		case 0: { // range, and two words in a row: the second counts only if the first is rejected, and then like a first one
			uint64_t w = vp_u64(), w2 = vp_u64(); word[0] = w; word[1] = w2; pos = 0; limit = 16; uint64_t res = 0; bool ok = r.GetInteger(res, a, b);
			if (!ok) { vp_cover("both rejected"); bool k = f(r, w2, a, b, x); vp_assert(!k, "rejection depends on history"); break; }
			vp_assert(res >= lo && res <= hi, "result out of range");
			if (pos > 8) { bool k = f(r, w2, a, b, x); vp_assert(k && x == res, "result depends on a rejected word"); k = f(r, w, a, b, x); vp_assert(!k, "accepted word rejected"); vp_cover("first rejected"); }
			break; }
		case 1: { // preimages
			if (a != lo) vp_end(); uint64_t w = vp_u64(), s = vp_u64(), v = vp_u64(), u = vp_u64(); vp_assume(s >= lo && s <= hi && u >= lo && u <= hi);
			bool k = f(r, w, a, b, x); if (!k) vp_end(); bool k2 = f(r, w ^ ((x - lo) ^ (s - lo)), a, b, y); bool xorok = vp_split(k2 && y == s);
			if (!xorok) { k = f(r, v, a, b, x); if (!k) vp_end(); k2 = f(r, v - x + u, a, b, y); vp_assert(k2 && y == u, "some results have more preimages than others"); } vp_cover("bijection"); break; }
		case 2: { // the order of the bounds does not matter
			if (a == lo) vp_end(); vp_assume(hi - lo < 256); uint64_t w = vp_u64(); bool k = f(r, w, a, b, x); bool k2 = f(r, w, b, a, y); vp_assert(k == k2 && (!k || x == y), "the result depends on the order of the bounds"); vp_cover("order"); break; }
		default: { // some word is accepted for every range
			bool k = f(r, 0, a, b, x) || f(r, ~0ULL, a, b, x) || f(r, hi - lo, a, b, x) || f(r, 1ULL << 63, a, b, x); vp_assert(k, "no random word is accepted"); }
	}
}
