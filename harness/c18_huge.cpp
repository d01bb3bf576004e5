// Patterns beyond the internal 1024-entry table (heap path), one symbolic element in pattern-sized text.
typedef unsigned T;
#include "ffr_common.h"
static Mgr mg;
extern "C" void vp_main() {
	static const size_t L[] = { 1025, 1026, 1027, 1031 }; size_t l = L[vp_choice(4)];
	{
		T *p = new T[l], *t = new T[l + 1]; size_t odd = vp_choice(3) * (l - 1) / 2; for (size_t i = 0; i < l; i++) p[i] = i == odd ? 9 : 7;
		for (size_t i = 0; i < l; i++) t[i + 1] = p[i]; t[0] = 7; size_t s = 1 + vp_choice(4) * (l - 1) / 3; t[s] = vp_u32();
		const T *r;
		switch (vp_choice(3)) {
			case 0: { FastFind<T> f; f.SetPattern(p, l); f.SetData(t, l + 1); r = f.FindNext(); break; }
			case 1: { FastFindAlloc<T, Alloc> f; f.SetPattern(p, l, (Alloc *)&mg); f.SetData(t, l + 1); r = f.FindNext(false); break; }
			default: { FastFindCompare<T, Eq> f; f.SetPattern(p, l, fold); f.SetData(t, l + 1); r = f.FindNext(fold); T v = t[s], w = p[s - 1]; bool m0 = true; for (size_t i = 0; i < l; i++) if (i != s && !fold(t[i], p[i])) m0 = false; m0 &= s >= l || fold(v, p[s]); vp_assert((r == t) == m0, "first occurrence"); if (!m0) vp_assert((r == t + 1) == fold(v, w), "occurrence"); goto done; }
		}
		{ T v = t[s], w = p[s - 1]; bool m0 = true; for (size_t i = 0; i < l; i++) if (i != s && t[i] != p[i]) m0 = false; m0 &= s >= l || v == p[s]; vp_assert((r == t) == m0, "first occurrence"); if (!m0) vp_assert((r == t + 1) == (v == w), "occurrence"); if (r == t + 1) vp_cover("found"); }
		done: delete[] p; delete[] t;
	}
	vp_assert(vp_heap_live() == 0 && mg.live == 0, "storage not freed exactly once");
}
