// Replacement (dynamic, static, step-wise, allocator and comparison variants) against textbook replacement.
typedef char T;
#include "ffr_common.h"
typedef FastReplace<T> R0; typedef FastReplaceAlloc<T, Alloc> R1; typedef FastReplaceCompare<T, Eq> R2; typedef FastReplaceAllocCompare<T, Alloc, Eq> R3;
static Mgr mg;
#define MAXO 64
static T p[4], *t, rp[4]; static size_t l, n, rl;
static size_t expect(T *o, size_t limit, bool fo, size_t &cnt, const bool *pick = NULL) {
	size_t k = 0; cnt = 0; size_t seen = 0;
	for (size_t i = 0; i < n;) {
		if (cnt < limit && l && n - i >= l && vp_split(at(t, i, p, l, fo))) { bool doit = !pick || pick[seen % 4]; seen++; if (doit) { for (size_t j = 0; j < rl; j++) o[k++] = rp[j]; i += l; cnt++; continue; } }
		o[k++] = t[i++];
	}
	return k;
}
extern "C" void vp_main() {
	l = LMIN + vp_choice(LMAX - LMIN + 1); n = vp_choice(NMAX + 1); rl = vp_choice(RMAX + 1);
	t = new T[n]; for (size_t i = 0; i < n; i++) t[i] = sym(); for (size_t i = 0; i < l; i++) p[i] = sym(); for (size_t i = 0; i < rl; i++) rp[i] = sym();
	unsigned var = vp_choice(4), mode = vp_choice(MODES); bool fo = var >= 2;
	static const size_t gs[] = { 1024, 0, 1 }; size_t g = mode == 1 ? 1024 : gs[vp_choice(3)], ex = vp_choice(2);
	if (mode < 2) {
		static const size_t lims[] = { ~(size_t)0, 0, 1, 2 }; size_t limit = lims[vp_choice(4)], cnt, c = 0, rs = 0; T e[MAXO]; size_t k = expect(e, limit, fo, cnt);
		T *r = NULL; size_t pz = l, rz = rl; if (vp_choice(2)) { for (size_t i = 0; i < l; i++) vp_assume(p[i] != 0); for (size_t i = 0; i < rl; i++) vp_assume(rp[i] != 0); p[l] = rp[rl] = 0; pz = rz = (size_t)-1; vp_cover("terminated strings"); }
		if (mode == 0) {
			
			switch (var) {
				case 0: c = R0::ReplaceAll(r, rs, t, n, p, pz, rp, rz, limit, g, ex, vp_choice(2)); break;
				case 1: c = R1::ReplaceAll(r, rs, t, n, p, pz, rp, rz, (Alloc *)&mg, limit, g, ex); break;
				case 2: c = R2::ReplaceAll(r, rs, t, n, p, pz, rp, rz, fold, limit, g, ex); break;
				default: c = R3::ReplaceAll(r, rs, t, n, p, pz, rp, rz, (Alloc *)&mg, fold, limit, g, ex);
			}
			vp_assert(c == cnt, "number of replacements"); vp_assert(rs == k, "result size differs"); vp_assert(vp_accessible(r, k + ex), "result lacks the requested extra room"); vp_cover("dynamic");
		} else {
			static const int dl[] = { 0, -1, 1, -2, -3, 30 }; int dd = dl[vp_choice(6)]; if (dd < 0 && (size_t)-dd > k) vp_end(); size_t cap = k + dd; rs = cap; r = new T[cap];
			switch (var) {
				case 0: c = R0::StaticReplaceAll(r, rs, t, n, p, pz, rp, rz, limit); break;
				case 1: c = R1::StaticReplaceAll(r, rs, t, n, p, pz, rp, rz, (Alloc *)&mg, limit); break;
				case 2: c = R2::StaticReplaceAll(r, rs, t, n, p, pz, rp, rz, fold, limit); break;
				default: c = R3::StaticReplaceAll(r, rs, t, n, p, pz, rp, rz, (Alloc *)&mg, fold, limit);
			}
			if (cap >= k) vp_assert(c == cnt, "number of replacements"); else vp_assert(c <= cnt, "number of replacements");
			if (k > cap) { k = cap; vp_cover("truncated"); } vp_assert(rs == k, "result size differs");
		}
		for (size_t i = 0; i < k; i++) vp_assert(r[i] == e[i], "result differs from textbook replacement");
		if (mode == 0 && (var & 1)) { vp_assert(mg.live == 1, "allocator blocks"); Alloc::free(&mg, r); } else if (mode == 0) delete[] (char *)r; else delete[] r;
	} else { // step-wise interface: the caller decides per match whether to replace, and may reuse the object
		if (l == 0) vp_end(); bool pick[4]; for (unsigned i = 0; i < 4; i++) pick[i] = i < 2 ? vp_choice(2) : true; 
		R0 r; r.SetGrowthSize(g); r.SetExtraAlloc(ex); r.SetPattern(p, l); if (vp_choice(2)) { r.SetData(p, l); if (vp_choice(2)) r.FindNext(); if (vp_choice(2)) r.SetPattern(p, l); }
		// matches come overlapping when not replaced, so build the reference on the fly
		T e[MAXO]; size_t k = 0, i = 0, seen = 0;
		while (i < n) { if (n - i >= l && vp_split(at(t, i, p, l, false)) && pick[seen++ % 4]) { for (size_t j = 0; j < rl; j++) e[k++] = rp[j]; i += l; } else e[k++] = t[i++]; }
		r.SetData(t, n); seen = 0; const T *q; while ((q = r.FindNext()) != NULL) { vp_assert(*q == p[0], "match"); if (pick[seen++ % 4]) r.Replace(rp, rl); else vp_cover("not replaced"); }
		vp_assert(r.GetDataSize() == k, "result size differs"); for (size_t j = 0; j < k; j++) vp_assert(r.GetData()[j] == e[j], "result differs from textbook replacement");
		if (vp_choice(2)) { T *d = r.DetachData(); delete[] (char *)d; }
	}
	delete[] t; vp_assert(vp_heap_live() == 0 && mg.live == 0, "storage not freed exactly once");
}
