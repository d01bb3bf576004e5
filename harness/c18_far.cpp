// Long data: occurrences around positions that no longer fit a byte or a 16-bit word; every occurrence, in order, nothing else.
typedef char T;
#include "ffr_common.h"
#include <cstring>
static Mgr mg; static bool same(const T &a, const T &b) { return a == b; }
static bool eqat(const T *a, const T *b, size_t n) { for (size_t i = 0; i < n; i++) if (!vp_split(a[i] == b[i])) return false; return true; }
template <class F, class N> static void go(F &f, N next, const T *t, size_t n, const T *p, size_t l) {
	f.SetData(t, n); size_t pos = 0, cnt = 0; const T *r; while ((r = next(f)) != NULL) { size_t q = r - t; vp_assert(q >= pos && q + l <= n && eqat(r, p, l), "reported position is not an occurrence"); for (size_t i = pos; i < q; i++) vp_assert(!eqat(t + i, p, l), "an occurrence is skipped"); pos = q + 1; cnt++; }
	for (size_t i = pos; i + l <= n; i++) vp_assert(!eqat(t + i, p, l), "an occurrence is not reported"); if (cnt > 2) vp_cover("found");
}
extern "C" void vp_main() {
	static const size_t PL[] = { 1, 2, 5, 255, 256, 257 }, N[] = { 600, 5000, 66000 }; size_t l = PL[vp_choice(6)], n = N[vp_choice(3)]; if (n > 10000 && l > 5) n = 10000; T *t = new T[n], *p = new T[l]; for (size_t i = 0; i < l; i++) p[i] = (T)('A' + i % 23);
	for (size_t i = 0; i < n; i++) t[i] = (T)(i % 31 + 64); static const size_t at[] = { 0, 250, 600 - 257, 4090, 65530 }; for (unsigned i = 0; i < 5; i++) if (at[i] + l <= n) memcpy(t + at[i], p, l); memcpy(t + n - l, p, l); unsigned k = vp_choice(3); if (k) t[k == 1 ? n - 1 : n / 2] = (T)vp_u8();
	switch (vp_choice(3)) {
		case 0: { FastFind<T> f; f.SetPattern(p, l); go(f, [](FastFind<T> &g) { return g.FindNext(); }, t, n, p, l); break; }
		case 1: { FastFindAlloc<T, Alloc> f; f.SetPattern(p, l, (Alloc *)&mg); go(f, [](FastFindAlloc<T, Alloc> &g) { return g.FindNext(false); }, t, n, p, l); break; }
		default: { FastFindCompare<T, Eq> f; f.SetPattern(p, l, same); go(f, [](FastFindCompare<T, Eq> &g) { return g.FindNext(same); }, t, n, p, l); }
	}
	delete[] t; delete[] p; vp_assert(vp_heap_live() == 0 && mg.live == 0, "storage not freed exactly once");
}
