// Packed hash with fully symbolic keys (every 64-bit integer, every string of up to SL bytes): refinement of an insertion-ordered map.
#include "ph_common.h"
static Key symkey() {
	Key k = { false, 0, 0, 0 };
	if (vp_choice(2)) { k.i = (int64_t)vp_u64(); return k; }
	k.str = true; k.len = vp_choice(SL + 1); uint8_t *s = new uint8_t[k.len + 1]; vp_sym_bytes(s, k.len); k.s = (const char *)s; return k;
}
static void freekey(Key &k) { if (k.str) delete[] k.s; }
template <class L> static void check(L &l, M &m, const Key &q) {
	vp_assert(l.GetSize() == m.k, "count differs");
	size_t p = l.GetNextPos(), i = 0; Node *n;
	while ((n = l.Next(p)) != NULL) { vp_assert(i < m.k, "traversal is too long"); samekey(n, m.key[i]); vp_assert(*n->Value.p == m.v[i], "traversal value differs"); i++; }
	vp_assert(i == m.k, "traversal is too short");
	int f = find(m, q); n = lookup(l, q); vp_assert((n != NULL) == (f >= 0), "lookup result"); if (n) { vp_assert(*n->Value.p == m.v[f], "lookup value"); samekey(n, q); vp_cover("found"); } else vp_cover("absent");
}
extern "C" void vp_main() {
	Key pool[STEPS + 1]; size_t np = 0;
	{ PackedOrderedHash<E> a(0); M m;
	for (unsigned s = 0; s < STEPS; s++) {
		Key k = symkey(); pool[np++] = k;
		switch (vp_choice(3)) { case 0: put(a, m, k); break; case 1: unset(a, m, k, false); break; default: a.Optimize(); vp_assert(a.ResizeHash(16) || true, ""); put(a, m, k); }
	}
	Key q = symkey(); pool[np++] = q; check(a, m, q); 
#ifdef COPY
	{ PackedOrderedHash<E> b(a), c(3); M mb = m; c = a; check(b, m, q); check(c, m, q); if (vp_choice(2)) { unset(a, m, q, false); check(a, m, q); check(b, mb, q); } else { put(b, mb, q); check(a, m, q); check(b, mb, q); check(c, m, q); } }
#endif
	}
	for (size_t i = 0; i < np; i++) freekey(pool[i]);
	vp_assert(vp_heap_live() == 0 && live == 0, "nodes, keys or tables not freed exactly once");
}
