#include "oh_common.h"
template <class L> static void runh(L &a) {
	M m; unsigned n = vp_choice(INIT + 1); fill(a, m, n); verify(a, m);
	for (unsigned s = 0; s < STEPS; s++) { step(a, m); verify(a, m); }
	for (size_t i = 0; i < nf; i++) delete fr[i];
}
extern "C" void vp_main() {
	static const size_t est[] = { 1, 3, 0 }; size_t e = est[vp_choice(3)];
	switch (vp_choice(3)) { case 0: { OrderedHash<uint32_t> a(e); runh(a); break; } case 1: { OrderedHashNoCopy<uint32_t> a(e); runh(a); break; } default: { OrderedHashNoCopy<uint32_t> a(e, 0x0706050403020100ULL, 0x0F0E0D0C0B0A0908ULL); runh(a); } }
	vp_assert(vp_heap_live() == 0, "nodes or keys not freed exactly once");
}
