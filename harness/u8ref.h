// Reference model of the UTF conversions, written from the documentation and the Unicode encoding rules.
#pragma once
#include "vp.h"
#ifdef LONG
#define R_FIX(x) ((unsigned)vp_concretize(x))   // long texts: lengths decided case by case, so that positions stay constants
#else
#define R_FIX(x) (x)
#endif
static bool r_comb(uint32_t c) { return (c >= 0x300 && c <= 0x36F) || (c >= 0x1DC0 && c <= 0x1DFF) || (c >= 0x20D0 && c <= 0x20FF) || (c >= 0xFE20 && c <= 0xFE2F); }
static bool r_valid(uint32_t c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF) && !(c >= 0xFDD0 && c <= 0xFDEF) && (c & 0xFFFE) != 0xFFFE; }
static unsigned r_len8(uint32_t c) { return R_FIX(c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4); }
static void r_enc8(uint32_t c, unsigned n, uint8_t *o) {
	if (n == 1) o[0] = (uint8_t)c;
	else if (n == 2) { o[0] = 0xC0 | (c >> 6); o[1] = 0x80 | (c & 0x3F); }
	else if (n == 3) { o[0] = 0xE0 | (c >> 12); o[1] = 0x80 | ((c >> 6) & 0x3F); o[2] = 0x80 | (c & 0x3F); }
	else { o[0] = 0xF0 | (c >> 18); o[1] = 0x80 | ((c >> 12) & 0x3F); o[2] = 0x80 | ((c >> 6) & 0x3F); o[3] = 0x80 | (c & 0x3F); }
}
// decode one unit sequence of s[i..n): returns its length, 0 if malformed
static unsigned r_dec8(const uint8_t *s, size_t i, size_t n, uint32_t *cp) {
	uint8_t b = s[i];
	unsigned k = R_FIX(b < 0x80 ? 1 : b < 0xC0 ? 0 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : 0);
	if (!k || k > n - i) return 0;
	uint32_t c = k == 1 ? b : k == 2 ? (b & 0x1F) : k == 3 ? (b & 0x0F) : (b & 0x07);
	for (unsigned j = 1; j < k; j++) { if ((s[i + j] & 0xC0) != 0x80) return 0; c = (c << 6) | (s[i + j] & 0x3F); }
	*cp = c; return k;
}
// Long texts (LONG units): all encoded widths repeated, arbitrary units around one place; otherwise every content of up to N units.
#ifdef LONG
#undef N
#define N LONG
#ifdef SHORTER
static inline size_t r_pickn() { static const size_t l[] = { 255, 256, 257, LONG }; return l[vp_choice(4)]; }
#else
static inline size_t r_pickn() { return LONG; }
#endif
template <class T> static void r_fill(T *s, size_t n) {
	static const uint8_t u8[] = { 0x61, 0xC3, 0xA9, 0xE6, 0xBC, 0xA2, 0xF0, 0x9F, 0x98, 0x80 }; static const uint16_t u16[] = { 0x61, 0xE9, 0x6F22, 0xD83D, 0xDE00 }; static const uint32_t u32[] = { 0x61, 0xE9, 0x6F22, 0x1F600 };
	for (size_t i = 0; i < n; i++) s[i] = (T)(sizeof(T) == 1 ? u8[i % 10] : sizeof(T) == 2 ? u16[i % 5] : u32[i % 4]);
	static const size_t at[] = { AT }; size_t p = at[vp_choice(sizeof(at) / sizeof(at[0]))]; if (p >= n) p = n - 1; vp_sym_bytes(s + p, sizeof(T)); if (p + 1 < n) vp_sym_bytes(s + p + 1, sizeof(T));
}
static inline size_t r_pickcap(size_t most) { static const size_t l[] = { 254, 255, 256, 257, 258, LONG - 1, LONG }; size_t c = vp_choice(8); return c == 7 ? most : l[c]; }
#elif defined(N)
static inline size_t r_pickn() { return vp_choice(N + 1); }
template <class T> static void r_fill(T *s, size_t n) { vp_sym_bytes(s, n * sizeof(T)); }
static inline size_t r_pickcap(size_t most) { return vp_choice((unsigned)most + 1); }
#endif
