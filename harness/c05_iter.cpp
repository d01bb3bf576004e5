// Code point iteration, length, search and ASCII iteration over every NUL-terminated string of up to N bytes.
#include "u8ref.h"
#include "utf8/utf8_util.cpp"
using namespace CubicleSoft::UTF8;
extern "C" void vp_main() {
	size_t n = r_pickn();
	uint8_t *s = new uint8_t[n + 1]; r_fill(s, n); s[n] = 0; char *str = (char *)s;
	for (size_t i = 0; i < n; i++) vp_assume(s[i] != 0);
	uint32_t cps[N + 1]; size_t pos[N + 1]; bool comb[N + 1]; unsigned k = 0; size_t i = 0;
	while (i < n) {
		uint32_t c; unsigned m = r_dec8(s, i, n, &c);
		if (!m) { vp_cover("malformed"); break; }
		if (vp_split(c == 0)) break;   // an overlong NUL ends the iteration
		comb[k] = vp_split(r_comb(c)); if (!k && comb[0]) break;
		cps[k] = c; pos[k++] = i; i += m;
	}
	comb[k] = false;
	unsigned mode = vp_choice(4);
	if (mode == 0) {
		uint32_t rc, nc; size_t p = 0, sz; bool hc; unsigned j = 0;
		while (Util::NextCodePoint(rc, nc, str, p, sz, hc)) {
			vp_assert(j < k, "iteration yields more code points than the text has");
			vp_assert(rc == cps[j], "iteration yields a wrong code point value");
			vp_assert(hc == comb[j + 1], "combining mark look-ahead is wrong");
			vp_assert(p <= n, "position past the end");
			j++;
		}
		vp_assert(j == k, "iteration stops before the end");
		if (k > 1) vp_cover("iter");
	} else if (mode == 1) {
		size_t c = 0; for (unsigned j = 0; j < k; j++) if (!comb[j + 1]) c++;
		vp_assert(Util::strlen(str) == c, "length does not count the characters");
		vp_cover("len");
	} else if (mode == 2) {
		uint32_t want = vp_u32(); bool allow = vp_choice(2); size_t rp = 777; bool found = false; size_t at = 0;
		vp_assume(want != 0);
		bool wc = vp_split(r_comb(want));
		if (allow || !wc) for (unsigned j = 0; j < k && !found; j++) if ((allow || !comb[j + 1]) && vp_split(cps[j] == want)) { found = true; at = pos[j]; }
		bool r = Util::FindCodePoint(rp, want, str, allow);
		vp_assert(r == found, "code point search result is wrong");
		if (found) { vp_assert(rp == at, "code point search reports a wrong position"); vp_cover("found"); }
	} else {
		char c; uint32_t nc; size_t p = 0, sz; unsigned j = 0;
		for (;;) {
			while (j < k && (comb[j + 1] || !vp_split(cps[j] <= 0x7F))) j++;
			bool r = Util::NextASCIICodePoint(c, nc, str, p, sz);
			vp_assert(r == (j < k), "ASCII iteration ends too early or too late");
			if (!r) break;
			vp_assert((uint8_t)c == cps[j], "ASCII iteration yields a wrong character");
			j++; vp_cover("ascii");
		}
	}
	delete[] s;
}
