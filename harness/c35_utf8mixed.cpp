// UTF8MixedVar: set/append wide text within capacity CAP, back conversion.
#include "u8ref.h"
#include <cstring>
#include "utf8/utf8_mixed_var.h"
#include "utf8/utf8_util.cpp"
using namespace CubicleSoft;
static uint8_t m[CAP]; static size_t n;
static void add(const wchar_t *s, size_t k) { // each code point that does not fit whole is omitted; a leading combining mark is dropped
	bool first = true;
	for (size_t i = 0; i < k; i++) {
		uint32_t c = s[i];
		if (!vp_split(r_valid(c)) || (first && vp_split(r_comb(c)))) continue;
		unsigned l = r_len8(c); if (l > CAP - 1 - n) { vp_cover("full"); continue; }
		r_enc8(c, l, m + n); n += l; first = false;
	}
}
static wchar_t src[K + 2]; static size_t sl;
static void pick() { sl = vp_choice(K + 1); vp_sym_bytes(src, sl * sizeof(wchar_t)); src[sl] = 0; for (size_t i = 0; i < sl; i++) vp_assume(src[i] != 0); }
extern "C" void vp_main() {
	UTF8::UTF8MixedVar<char[CAP]> *v = new UTF8::UTF8MixedVar<char[CAP]>;
	static const char *pre[] = { "", "ab", "abcdef", "abcdefgh" };
	unsigned p = vp_choice(5);
	if (p == 4) { pick(); n = 0; switch (vp_choice(3)) { case 0: v->SetUTF8(src); break; case 1: v->SetUTF8(src, sl); break; default: v->SetUTF8(src, sl + 1); } add(src, sl); vp_cover("set"); }
	else { v->SetStr(pre[p]); n = v->GetSize(); memcpy(m, pre[p], n); pick(); v->AppendUTF8(src); add(src, sl); vp_cover("append"); }
	vp_assert(v->GetSize() == n, "length differs from the UTF-8 encoding");
	vp_assert(v->MxStr[n] == 0, "text is not NUL terminated");
	for (size_t i = 0; i < n; i++) vp_assert((uint8_t)v->MxStr[i] == m[i], "text differs from the UTF-8 encoding");
	vp_assert(v->IsStr(), "type");
	// back conversion of what is stored, with its terminator
	wchar_t back[CAP]; size_t bn = CAP; v->ConvertFromUTF8(back, bn); size_t e = 0;
	for (size_t i = 0; i < n;) { uint32_t c; unsigned k = r_dec8(m, i, n, &c); vp_assert(k && e < bn && (uint32_t)back[e] == c, "back conversion differs"); e++; i += k; }
	vp_assert(bn == e + 1 && back[e] == 0, "back conversion is not terminated");
	delete v;
}
