// Step-wise replacement with all four template variants, default arguments, in-place and fixed buffers, objects re-used and destroyed at any stage.
typedef char T;
#include "ffr_common.h"
typedef FastReplace<T> R0; typedef FastReplaceAlloc<T, Alloc> R1; typedef FastReplaceCompare<T, Eq> R2; typedef FastReplaceAllocCompare<T, Alloc, Eq> R3;
static Mgr mg; static T p[4], *t, rp[4]; static size_t l, n, rl;
static void s(R0 &r, const T *a, size_t k) { r.SetPattern(a, k); } static void s(R1 &r, const T *a, size_t k) { r.SetPattern(a, k, (Alloc *)&mg); } static void s(R2 &r, const T *a, size_t k) { r.SetPattern(a, k, fold); } static void s(R3 &r, const T *a, size_t k) { r.SetPattern(a, k, (Alloc *)&mg, fold); }
static const T *nx(R0 &r) { return r.FindNext(); } static const T *nx(R1 &r) { return r.FindNext(); } static const T *nx(R2 &r) { return r.FindNext(fold); } static const T *nx(R3 &r) { return r.FindNext(fold); }
static size_t all(R0 *, T *&r, size_t &z) { return R0::ReplaceAll(r, z, t, n, p, l, rp, rl); } static size_t all(R1 *, T *&r, size_t &z) { return R1::ReplaceAll(r, z, t, n, p, l, rp, rl, (Alloc *)&mg); } static size_t all(R2 *, T *&r, size_t &z) { return R2::ReplaceAll(r, z, t, n, p, l, rp, rl, fold); } static size_t all(R3 *, T *&r, size_t &z) { return R3::ReplaceAll(r, z, t, n, p, l, rp, rl, (Alloc *)&mg, fold); }
static size_t sta(R0 *, T *r, size_t &z) { return R0::StaticReplaceAll(r, z, t, n, p, l, rp, rl); } static size_t sta(R1 *, T *r, size_t &z) { return R1::StaticReplaceAll(r, z, t, n, p, l, rp, rl, (Alloc *)&mg); } static size_t sta(R2 *, T *r, size_t &z) { return R2::StaticReplaceAll(r, z, t, n, p, l, rp, rl, fold); } static size_t sta(R3 *, T *r, size_t &z) { return R3::StaticReplaceAll(r, z, t, n, p, l, rp, rl, (Alloc *)&mg, fold); }
template <class R> static void go(bool fo, bool al) {
	T e[64]; size_t k = 0, cnt = 0; unsigned mode = vp_choice(4);
	if (mode < 3) { // whole calls with default arguments: dynamic, fixed, in place
		if (mode == 2 && rl > l) vp_end();
		for (size_t i = 0; i < n;) if (l && n - i >= l && vp_split(at(t, i, p, l, fo))) { for (size_t j = 0; j < rl; j++) e[k++] = rp[j]; i += l; cnt++; } else e[k++] = t[i++];
		T *r = NULL; size_t z; T fix[64]; size_t c;
		if (mode == 0) c = all((R *)NULL, r, z); else if (mode == 1) { r = fix; z = sizeof(fix); c = sta((R *)NULL, r, z); } else { r = t; z = n; c = sta((R *)NULL, r, z); vp_cover("in place"); }
		vp_assert(c == cnt && z == k, "number of replacements or size differs"); for (size_t i = 0; i < k; i++) vp_assert(r[i] == e[i], "result differs from textbook replacement");
		if (mode == 0) { vp_assert(vp_accessible(r, k + 1), "no room for a terminator"); if (al) Alloc::free(&mg, r); else delete[] (char *)r; }
		return;
	}
	if (!l) vp_end();
	bool pick[4]; for (unsigned i = 0; i < 4; i++) pick[i] = i < 2 ? vp_choice(2) : true; size_t post = vp_choice(2); bool fixed = vp_choice(2); unsigned stop = vp_choice(3), reuse = vp_choice(3);
	R r; if (vp_choice(2)) { r.SetGrowthSize(vp_choice(2)); r.SetExtraAlloc(vp_choice(2)); } s(r, p, l);
	T fix[64], fix2[4]; if (reuse) { if (vp_choice(2)) r.SetData(p, l, fix2, 4); else r.SetData(p, l); if (reuse == 2) { nx(r); s(r, t, n > 2 ? 2 : n); s(r, p, l); } }
	size_t i = 0, seen = 0; while (i < n) { if (n - i >= l && vp_split(at(t, i, p, l, fo)) && pick[seen++ % 4]) { for (size_t j = 0; j < rl; j++) e[k++] = rp[j]; i += l + post; } else e[k++] = t[i++]; }
	if (fixed) r.SetData(t, n, fix, sizeof(fix)); else r.SetData(t, n);
	if (stop == 1) return; // destroyed before the search
	seen = 0; const T *q; while ((q = nx(r)) != NULL) { vp_assert(q >= t && q + l <= t + n && eqx(fo, *q, p[0]), "match"); if (pick[seen++ % 4]) { if (post) r.Replace(rp, rl, post); else r.Replace(rp, rl); } else vp_cover("not replaced"); if (stop == 2) return; }
	vp_assert(r.GetDataSize() == k, "result size differs"); for (size_t j = 0; j < k; j++) vp_assert(r.GetData()[j] == e[j], "result differs from textbook replacement"); vp_assert(!fixed || r.GetData() == fix, "fixed buffer not used");
	if (!fixed && vp_choice(2)) { T *d = r.DetachData(); if (al) Alloc::free(&mg, d); else delete[] (char *)d; } vp_cover("finished");
}
extern "C" void vp_main() {
	l = vp_choice(LMAX + 1); n = vp_choice(NMAX + 1); rl = vp_choice(RMAX + 1);
	t = new T[n]; for (size_t i = 0; i < n; i++) t[i] = sym(); for (size_t i = 0; i < l; i++) p[i] = sym(); for (size_t i = 0; i < rl; i++) rp[i] = sym();
	switch (vp_choice(4)) { case 0: go<R0>(false, false); break; case 1: go<R1>(false, true); break; case 2: go<R2>(true, false); break; default: go<R3>(true, true); }
	delete[] t; vp_assert(vp_heap_live() == 0 && mg.live == 0, "storage not freed exactly once");
}
