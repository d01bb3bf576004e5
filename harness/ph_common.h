#pragma once
#include "vp.h"
#include <cstddef>
#include <cstdlib>
#include "templates/packed_ordered_hash.h"
#include "templates/packed_ordered_hash.cpp"
using namespace CubicleSoft;
static int live;
struct E { uint32_t *p; E() : p(new uint32_t(0)) { live++; } E(uint32_t v) : p(new uint32_t(v)) { live++; } E(const E &o) : p(new uint32_t(*o.p)) { live++; } ~E() { delete p; live--; } E &operator=(const E &o) { *p = *o.p; return *this; } };
typedef PackedOrderedHashNode<E> Node;
struct Key { bool str; int64_t i; const char *s; size_t len; };
static const Key KEYS[] = { { false, 0, 0, 0 }, { false, 5381, 0, 0 }, { false, 0x4141414141414141LL, 0, 0 }, { true, 0, "AAAAAAAA", 8 }, { true, 0, "", 0 }, { true, 0, "AB", 2 }, { true, 0, "AC", 2 }, { false, -1, 0, 0 } };
#define NKEYS 8
static Key fillkey(unsigned i) { Key k = { false, 100 + 3 * (int64_t)i, 0, 0 }; return k; }
static bool same(const Key &a, const Key &b) { if (a.str != b.str) return false; if (!a.str) return a.i == b.i; if (a.len != b.len) return false; for (size_t i = 0; i < a.len; i++) if (a.s[i] != b.s[i]) return false; return true; }
#define MAXN 40
struct M { Key key[MAXN]; uint32_t v[MAXN]; size_t k; M() : k(0) {} };
static int find(const M &m, const Key &k) { for (size_t i = 0; i < m.k; i++) if (same(m.key[i], k)) return (int)i; return -1; }
static void del(M &m, size_t at) { for (size_t i = at + 1; i < m.k; i++) { m.v[i - 1] = m.v[i]; m.key[i - 1] = m.key[i]; } m.k--; }
template <class L> static Node *lookup(L &l, const Key &k) { size_t p = 0, q; Node *n = k.str ? l.Find(k.s, k.len, p) : l.Find(k.i, p); Node *n2 = k.str ? l.Find(k.s, k.len) : l.Find(k.i); vp_assert(n == n2, "lookup forms differ"); if (n) vp_assert(l.Get(p) == n && l.GetPos(n) == p, "lookup position is wrong"); (void)q; return n; }
static void samekey(Node *n, const Key &k) {
	if (k.str) { vp_assert(n->GetStrKey() != NULL && n->GetStrLen() == k.len, "node lost its string key"); for (size_t i = 0; i < k.len; i++) vp_assert(n->GetStrKey()[i] == k.s[i], "node has another string key"); }
	else vp_assert(n->GetStrKey() == NULL && n->GetIntKey() == k.i, "node has another integer key");
}
template <class L> static void verify(L &l, M &m) {
	vp_assert(l.GetSize() == m.k, "count differs");
	vp_assert(l.GetNextPos() <= l.GetHashSize(), "positions exceed the table");
	size_t p = l.GetNextPos(), i = 0; Node *n;
	while ((n = l.Next(p)) != NULL) { vp_assert(i < m.k, "forward traversal is too long"); samekey(n, m.key[i]); vp_assert(*n->Value.p == m.v[i], "forward traversal value differs"); vp_assert(l.Get(p) == n && l.GetPos(n) == p, "position differs"); i++; }
	vp_assert(i == m.k, "forward traversal is too short");
	p = l.GetNextPos(); while ((n = l.Prev(p)) != NULL) { vp_assert(i > 0, "backward traversal is too long"); i--; samekey(n, m.key[i]); vp_assert(*n->Value.p == m.v[i], "backward traversal value differs"); }
	vp_assert(i == 0, "backward traversal is too short");
	for (i = 0; i < m.k; i++) { n = lookup(l, m.key[i]); vp_assert(n != NULL && *n->Value.p == m.v[i], "stored key is not found with its value"); samekey(n, m.key[i]); }
	for (unsigned k = 0; k < NKEYS; k++) if (find(m, KEYS[k]) < 0) vp_assert(lookup(l, KEYS[k]) == NULL, "key found that is not stored");
	vp_assert(l.Get(l.GetNextPos()) == NULL, "entry beyond the end");
}
template <class L> static void put(L &a, M &m, const Key &k) {
	uint32_t v = vp_u32(); int f = find(m, k); E e(v);
	Node *n = k.str ? a.Set(k.s, k.len, e) : a.Set(k.i, e);
	vp_assert(n != NULL && *n->Value.p == v, "store result"); samekey(n, k);
	if (f >= 0) { m.v[f] = v; vp_cover("update"); } else { m.key[m.k] = k; m.v[m.k++] = v; }
}
template <class L> static void unset(L &a, M &m, const Key &k, bool bynode) {
	int f = find(m, k); bool r = bynode ? a.Unset(k.str ? a.Find(k.s, k.len) : a.Find(k.i)) : k.str ? a.Unset(k.s, k.len) : a.Unset(k.i);
	vp_assert(r == (f >= 0), "removal result"); if (f >= 0) del(m, f);
}
template <class L> static void step(L &a, M &m, unsigned nk = NKEYS) {
	switch (vp_choice(5)) {
		case 0: put(a, m, KEYS[vp_choice(nk)]); break;
		case 1: unset(a, m, KEYS[vp_choice(nk)], vp_choice(2)); break;
		case 2: { if (!m.k) vp_end(); size_t i = vp_choice(m.k); Key k = m.key[i]; unset(a, m, k, false); break; }
		case 3: a.ShouldOptimize(); vp_assert(a.Optimize(), "optimize result"); vp_assert(a.GetNextPos() == m.k, "optimize leaves holes"); vp_cover("optimize"); break;
		default: { static const size_t sz[] = { 0, 4, 16, 20 }; size_t s = sz[vp_choice(4)], h = a.GetHashSize(); a.ResizeHash(s); vp_assert(a.GetHashSize() >= h || a.GetHashSize() >= s, "resize"); if (vp_choice(2)) a.AutoResizeHash(); }
	}
}
template <class L> static void fill(L &a, M &m, unsigned n, unsigned holes) {
	for (unsigned i = 0; i < n; i++) put(a, m, i < 3 ? KEYS[2 + i] : fillkey(i));
	for (unsigned i = 0; i < n; i++) if (holes == 1 ? i % 2 == 0 : holes == 2 ? i + 1 == n : holes == 3 ? i + 1 < n : false) { Key k = i < 3 ? KEYS[2 + i] : fillkey(i); unset(a, m, k, false); }
}
