// ConvertFromUTF8 to width W for every byte sequence and capacity: the units of the code points up to the first
// one that is invalid or does not fit; malformed bytes are skipped.
#include "u8ref.h"
#include "utf8/utf8_util.cpp"
using namespace CubicleSoft::UTF8;
#if W == 1
typedef uint8_t unit;
#elif W == 2
typedef uint16_t unit;
#else
typedef uint32_t unit;
#endif
static size_t asked; static void *mgr; static int calls;
static void *amalloc(void *m, size_t n) { vp_assert(m == mgr, "allocator called with another manager"); calls++; asked = n; return new unit[n / sizeof(unit)]; }
static unsigned ulen(uint32_t c) { return W == 1 ? r_len8(c) : W == 2 ? R_FIX(c > 0xFFFF ? 2 : 1) : 1; }
static void uenc(uint32_t c, unsigned m, unit *o) {
#if W == 1
	r_enc8(c, m, o);
#else
	if (m == 1) o[0] = (unit)c; else { o[0] = (unit)(0xD800 + ((c - 0x10000) >> 10)); o[1] = (unit)(0xDC00 + ((c - 0x10000) & 0x3FF)); }
#endif
}
extern "C" void vp_main() {
	size_t n = r_pickn();
#ifdef ALLOC
	uint8_t *src = new uint8_t[n + 1]; src[n] = 0;
#else
	uint8_t *src = new uint8_t[n];   // exact: a read past the given size is a violation
#endif
	r_fill(src, n);
	static const size_t NONE = ~(size_t)0; size_t cap = NONE;
#ifdef CAPS
	cap = r_pickcap(N + 1);
#endif
#ifdef ALLOC
	for (size_t i = 0; i < n; i++) vp_assume(src[i] != 0);
#endif
	unit out[N + 4]; size_t on = 0;
	for (size_t i = 0; i < n && cap;) {
		uint32_t c; unsigned k = r_dec8(src, i, n, &c);
		if (!k) { i++; vp_cover("malformed"); continue; }
		if (!vp_split(r_valid(c)) || (!on && vp_split(r_comb(c)))) { vp_cover("invalid"); break; }
		unsigned m = ulen(c);
		if (cap != NONE && m > cap - on) break;
		uenc(c, m, out + on); on += m; i += k;
	}
#ifdef ALLOC
	bool alt = vp_choice(2); int x; mgr = &x;
	unit *r = (unit *)(alt ? Util::ConvertFromUTF8((char *)src, W, mgr, amalloc) : Util::ConvertFromUTF8((char *)src, W));
	if (alt) vp_assert(calls == 1 && asked == (on + 1) * sizeof(unit), "allocation size is not the exact size of the converted text"); else vp_assert(calls == 0, "unexpected allocator use");
	vp_assert(vp_accessible(r, (on + 1) * sizeof(unit)), "allocation too small for the converted text");
	for (size_t i = 0; i < on; i++) vp_assert(r[i] == out[i], "allocated conversion differs");
	vp_assert(r[on] == 0, "allocated conversion is not terminated");
	delete[] r;
#else
	size_t sz = 1; Util::ConvertFromUTF8(src, n, NULL, sz, W);
	if (cap == NONE) { vp_assert(sz == on, "sizing call does not report the exact unit count"); cap = on; if (!cap) vp_end(); }
	unit *dst = new unit[cap]; size_t dn = cap;
	Util::ConvertFromUTF8(src, n, dst, dn, W);
	vp_assert(dn <= cap, "reported size exceeds the capacity");
	vp_assert(dn == on, "unit count differs from the decoded code points");
	for (size_t i = 0; i < on; i++) vp_assert(dst[i] == out[i], "units differ from the decoded code points");
	if (on) vp_cover("some");
	delete[] dst;
#endif
	delete[] src;
	vp_assert(vp_heap_live() == 0, "leak");
}
