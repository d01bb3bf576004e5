// Ordered hash with fully symbolic keys (every 64-bit integer, every string of up to SL bytes): refinement of an insertion-ordered map.
#include "oh_common.h"
static Key symkey() {
	Key k = { false, 0, 0, 0 };
	if (vp_choice(2)) { k.i = (int64_t)vp_u64(); return k; }
	k.str = true; k.len = vp_choice(SL + 1); uint8_t *s = new uint8_t[k.len + 1]; vp_sym_bytes(s, k.len); k.s = (const char *)s; return k;
}
#ifdef COPY
typedef OrderedHash<uint32_t> HT;
#else
typedef OrderedHashNoCopy<uint32_t> HT;
#endif
template <class L> static void check(L &l, M &m, const Key &q) {
	vp_assert(l.GetListSize() == m.k, "count differs");
	Node *n = l.FirstList(); size_t i;
	for (i = 0; i < m.k; i++, n = n->NextList()) { vp_assert(n != NULL && n == m.n[i] && n->Value == m.v[i], "traversal differs"); samekey(n, m.key[i]); }
	vp_assert(n == NULL, "traversal is too long");
	int f = find(m, q); n = lookup(l, q); vp_assert(n == (f >= 0 ? m.n[f] : NULL), "lookup result"); if (f >= 0) vp_cover("found"); else vp_cover("absent");
}
extern "C" void vp_main() {
	Key pool[STEPS + 1]; size_t np = 0;
	{ HT a(vp_choice(2) ? 1 : 2); M m;
	for (unsigned s = 0; s < STEPS; s++) {
		Key k = symkey(); pool[np++] = k; uint32_t v = vp_u32(); int f = find(m, k); Node *n;
		switch (vp_choice(4)) {
			case 0: n = k.str ? a.Push(k.s, k.len, v) : a.Push(k.i, v); vp_assert((n == NULL) == (f >= 0), "push result"); if (n) ins(m, m.k, n, k, v); break;
			case 1: n = k.str ? a.Unshift(k.s, k.len, v) : a.Unshift(k.i, v); vp_assert((n == NULL) == (f >= 0), "unshift result"); if (n) ins(m, 0, n, k, v); break;
			case 2: { n = lookup(a, k); vp_assert((n != NULL) == (f >= 0), "lookup before removal"); if (f >= 0) { vp_assert(a.Remove(n), "removal result"); del(m, f); vp_cover("removed"); } break; }
			default: a.ResizeHash(RS); n = k.str ? a.Push(k.s, k.len, v) : a.Push(k.i, v); vp_assert((n == NULL) == (f >= 0), "push result"); if (n) ins(m, m.k, n, k, v); 
		}
	}
	Key q = symkey(); pool[np++] = q; check(a, m, q);
#ifdef COPY
	{ HT b(a), c(3); c = a; M mb = m, mc = m; Node *n = b.FirstList(); for (size_t i = 0; i < mb.k; i++, n = n->NextList()) { vp_assert(n != NULL && n != m.n[i], "copy shares or misses entries"); mb.n[i] = n; }
	  n = c.FirstList(); for (size_t i = 0; i < mc.k; i++, n = n->NextList()) { vp_assert(n != NULL && n != m.n[i], "assigned copy shares or misses entries"); mc.n[i] = n; }
	  check(b, mb, q); check(c, mc, q); n = lookup(a, q); if (n) { int f = find(m, q); a.Remove(n); del(m, f); vp_cover("removed from source"); } check(a, m, q); check(b, mb, q); check(c, mc, q); }
#endif
	}
	for (size_t i = 0; i < np; i++) if (pool[i].str) delete[] pool[i].s;
	vp_assert(vp_heap_live() == 0, "nodes or keys not freed exactly once");
}
