// Larger capacities: wide text of hundreds to thousands of characters of every encoded width, whole and truncated, and back.
#include "u8ref.h"
#include <cstring>
#include "utf8/utf8_mixed_var.h"
#include "utf8/utf8_util.cpp"
using namespace CubicleSoft;
static unsigned r_fixed; static size_t symat, byteat = ~(size_t)0; static bool eqat(const uint8_t *a, const uint8_t *b, size_t n) { bool r = true; for (size_t i = 0; i < n; i++) r &= a[i] == b[i]; return r; }
template <size_t CAP> static void go() {
	UTF8::UTF8MixedVar<char[CAP]> *v = new UTF8::UTF8MixedVar<char[CAP]>; uint8_t *m = new uint8_t[CAP + 8]; size_t n = 0, pre = vp_choice(2) ? 0 : 255; for (size_t i = 0; i < pre; i++) m[n++] = 'p';
	static const wchar_t cyc[] = { 'a', 0xE9, 0x6F22, 0x1F600 }; static const size_t L[] = { 1, 63, 64, 65, 85, 86, 127, 128, 255, 256, 257, CAP / 3, CAP - 1, CAP }; size_t k = L[vp_choice(14)]; unsigned kind = vp_choice(5); wchar_t *s = new wchar_t[k + 1];
	for (size_t i = 0; i < k; i++) s[i] = kind == 4 ? cyc[i % 4] : cyc[kind]; s[k] = 0; { uint32_t c = vp_u32(); vp_assume(c && r_valid(c) && !r_comb(c)); r_fixed = (unsigned)vp_concretize(r_len8(c)); s[k / 2] = (wchar_t)c; symat = k / 2; }
	if (pre) { m[pre] = 0; v->SetStr((char *)m); v->AppendUTF8(s); } else if (vp_choice(2)) v->SetUTF8(s); else v->SetUTF8(s, k);
	for (size_t i = 0; i < k; i++) { unsigned l = i == symat ? r_fixed : r_len8(s[i]); if (l > CAP - 1 - n) { vp_cover("full"); continue; } r_enc8(s[i], l, m + n); if (i == symat) byteat = n; n += l; }
	vp_assert(v->GetSize() == n && v->IsStr(), "length differs from the UTF-8 encoding"); vp_assert(v->GetStr()[n] == 0, "text is not NUL terminated"); vp_assert(eqat((uint8_t *)v->GetStr(), m, n), "text differs from the UTF-8 encoding");
	wchar_t *back = new wchar_t[CAP]; size_t bn = CAP, e = 0; v->ConvertFromUTF8(back, bn); for (size_t i = 0; i < n;) { uint32_t c; unsigned w = i == byteat ? r_fixed : r_dec8(m, i, n, &c); if (i == byteat) c = s[symat]; vp_assert(w && e < bn && (uint32_t)back[e] == c, "back conversion differs"); e++; i += w; } vp_assert(bn == e + 1 && back[e] == 0, "back conversion is not terminated");
	delete v; delete[] m; delete[] s; delete[] back; vp_assert(vp_heap_live() == 0, "leak");
}
extern "C" void vp_main() { if (vp_choice(2)) go<600>(); else go<5000>(); }
