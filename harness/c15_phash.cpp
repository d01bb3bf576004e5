#include "ph_common.h"
template <class L> static void runh(L &a) {
	M m; fill(a, m, vp_choice(INIT + 1), vp_choice(4)); verify(a, m);
	for (unsigned s = 0; s < STEPS; s++) { step(a, m); verify(a, m); }
	for (unsigned i = 0; i < TAIL; i++) { Key k = fillkey(20 + i); put(a, m, k); }   // later growth
	verify(a, m);
}
extern "C" void vp_main() {
	static const size_t est[] = { 0, 3, 8 }; size_t e = est[vp_choice(3)];
	switch (vp_choice(3)) { case 0: { PackedOrderedHash<E> a(e); runh(a); break; } case 1: { PackedOrderedHashNoCopy<E> a(e); runh(a); break; } default: { PackedOrderedHashNoCopy<E> a(e, 0x0706050403020100ULL, 0x0F0E0D0C0B0A0908ULL); runh(a); } }
	vp_assert(vp_heap_live() == 0 && live == 0, "nodes, keys or tables not freed exactly once");
}
