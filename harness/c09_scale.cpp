// Larger capacities: lengths around a byte and a 16-bit word, whole and truncated text; the bytes follow an arbitrary value.
#include "vp.h"
#include "templates/static_mixed_var.h"
using namespace CubicleSoft;
static char *m, *src; static size_t n;
template <size_t CAP> static void go() {
	typedef StaticMixedVar<char[CAP]> V; V *v = new V; m = new char[CAP + 1]; uint8_t base = vp_u8(); static const size_t add[] = { 1, 2, 3, 100, CAP / 2, CAP - 257, CAP - 3, CAP - 2, CAP - 1, CAP, CAP + 5 };
	src = new char[CAP + 6]; for (size_t i = 0; i < CAP + 6; i++) { src[i] = (char)(base ^ (i * 7 + i / 256)); }
	bool cstr = vp_choice(2); if (cstr) { vp_assume(base == 1); for (size_t i = 0; i < CAP + 6; i++) if (!src[i]) src[i] = 'x'; }
	size_t k = vp_choice(2) ? 254 + vp_choice(5) : add[vp_choice(11)]; if (cstr) { char z = src[k]; src[k] = 0; v->SetStr(src); src[k] = z; } else v->SetData(src, k); n = k < CAP ? k : CAP - 1; memcpy(m, src, n);
	for (unsigned step = 0; step < 2; step++) {
		vp_assert(v->GetSize() == n && v->GetMaxSize() == CAP && v->IsStr(), "length differs from the textbook string"); vp_assert(v->GetStr()[n] == 0, "text is not NUL terminated"); vp_assert(!memcmp(v->GetStr(), m, n), "text differs from the textbook string"); if (step) break;
		size_t left = CAP - 1 - n; static const size_t more[] = { 1, 255, 256, 257, CAP - 1 }; unsigned c = vp_choice(8); k = c < 5 ? more[c] : c == 5 ? left : c == 6 ? left + 1 : left / 2; if (k > CAP + 5) vp_end();
		char z = src[k]; if (cstr) src[k] = 0;
		if (vp_choice(2)) { if (cstr) v->AppendStr(src); else v->AppendData(src, k); src[k] = z; size_t a = k < left ? k : left; memcpy(m + n, src, a); n += a; vp_cover("appended"); }
		else { if (cstr) v->PrependStr(src); else v->PrependData(src, k); src[k] = z; if (k <= left) { memmove(m + k, m, n); memcpy(m, src, k); n += k; vp_cover("prepended"); } }
	}
	size_t s = n / 2; v->SetSize(s); vp_assert(v->GetSize() == s && v->GetStr()[s] == 0, "SetSize"); if (s) { bool has = v->GetStr()[s - 1] == src[0]; vp_assert(v->RemoveTrailingChar(src[0]) == has, "RemoveTrailingChar"); }
	delete v; delete[] m; delete[] src;
}
extern "C" void vp_main() { if (vp_choice(2)) go<600>(); else go<70000>(); }
