// FastFind (all four variants) against the definition of "occurrence".
#ifndef TT
#define TT char
#endif
typedef TT T;
#include "ffr_common.h"
template <class F, class S, class N> static void go(F &f, S setp, N next, bool fo) {
	static const unsigned L[] = { LENS }; unsigned li = vp_choice(sizeof(L) / sizeof(L[0])); size_t l = L[li];
	T *p = new T[l];
#ifdef BIG
	// long patterns: every pattern over two letters that differs from one letter in up to two places, or all distinct, or runs
	unsigned fam = vp_choice(4);
	for (size_t i = 0; i < l; i++) p[i] = fam == 1 ? (T)(1 + i) : fam == 2 ? (T)(1 + i / 3) : 7;
	if (fam == 0) p[vp_choice(l)] = 9;
	if (fam == 3) { size_t a = vp_choice(l); p[a] = 9; p[(a + 1 + vp_choice(3)) % l] = 10; }
#else
	for (size_t i = 0; i < l; i++) p[i] = sym();
#endif
	size_t n = l + vp_choice(EXTRA + 2); n = n ? n - 1 : 0; T *t = new T[n]; for (size_t i = 0; i < n; i++) t[i] = sym();
	if (vp_choice(2)) { setp(f, t, n > 2 ? 2 : n); f.SetData(p, l); next(f); } // reuse after another pattern
	setp(f, p, l); f.SetData(t, n);
	unsigned skip = vp_choice(3); size_t pos = 0, cnt = 0;
	while (true) {
		const T *r = next(f); size_t end = l && n >= l ? n - l + 1 : 0, q;
		if (r == NULL) { for (q = pos; q < end; q++) vp_assert(!at(t, q, p, l, fo), "an occurrence is not reported"); vp_assert(next(f) == NULL, "search goes on after its end"); break; }
		vp_assert(r >= t + pos && r < t + end, "reported position is outside the data or not after the previous one");
		q = r - t; vp_assert(at(t, q, p, l, fo), "reported position is not an occurrence"); for (size_t z = pos; z < q; z++) vp_assert(!at(t, z, p, l, fo), "an occurrence is skipped");
		vp_cover("hit"); pos = q + 1; 
#ifndef BIG
		if (++cnt > 1) vp_cover("second hit");
#endif
	
		if (skip) { size_t ex = skip == 2 ? 1 : 0; const T *s = f.SkipMatch(ex); pos = q + l + ex; vp_assert(s == t + pos, "skip position"); }
	}
	delete[] p; delete[] t;
}
typedef FastFind<T> F0; typedef FastFindAlloc<T, Alloc> F1; typedef FastFindCompare<T, Eq> F2; typedef FastFindAllocCompare<T, Alloc, Eq> F3;
static Mgr mg;
static void s0(F0 &f, const T *p, size_t n) { f.SetPattern(p, n); } static const T *n0(F0 &f) { return f.FindNext(); } static const T *m0(F0 &f) { return f.FindNext(false); }
static void s1(F1 &f, const T *p, size_t n) { f.SetPattern(p, n, (Alloc *)&mg); } static const T *n1(F1 &f) { return f.FindNext(); }
static void s2(F2 &f, const T *p, size_t n) { f.SetPattern(p, n, fold); } static const T *n2(F2 &f) { return f.FindNext(fold); }
static void s3(F3 &f, const T *p, size_t n) { f.SetPattern(p, n, (Alloc *)&mg, fold); } static const T *n3(F3 &f) { return f.FindNext(fold); }
extern "C" void vp_main() {
	switch (vp_choice(5)) { case 0: { F0 f; go(f, s0, n0, false); break; } case 1: { F0 f; go(f, s0, m0, false); break; } case 2: { F1 f; go(f, s1, n1, false); break; } case 3: { F2 f; go(f, s2, n2, true); break; } default: { F3 f; go(f, s3, n3, true); } }
	vp_assert(vp_heap_live() == 0 && mg.live == 0, "storage not freed exactly once");
}
