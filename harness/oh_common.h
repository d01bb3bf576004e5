#pragma once
#include "vp.h"
#include <cstddef>
#include <cstdlib>
#include "templates/detachable_ordered_hash.h"
#include "templates/detachable_ordered_hash.cpp"
using namespace CubicleSoft;
typedef OrderedHashNode<uint32_t> Node;
struct Key { bool str; int64_t i; const char *s; size_t len; };
// integer and string keys that share bytes, length values, hashes and buckets
static const Key KEYS[] = { { false, 0, 0, 0 }, { false, 8, 0, 0 }, { false, 0x4141414141414141LL, 0, 0 }, { true, 0, "AAAAAAAA", 8 }, { true, 0, "", 0 }, { true, 0, "AB", 2 }, { true, 0, "AC", 2 }, { false, -1, 0, 0 } };
#define NKEYS 8
static Key fillkey(unsigned i) { Key k = { false, 100 + 3 * (int64_t)i, 0, 0 }; return k; }
static bool same(const Key &a, const Key &b) { if (a.str != b.str) return false; if (!a.str) return a.i == b.i; if (a.len != b.len) return false; for (size_t i = 0; i < a.len; i++) if (a.s[i] != b.s[i]) return false; return true; }
#define MAXN 20
struct M { Node *n[MAXN]; Key key[MAXN]; uint32_t v[MAXN]; size_t k; M() : k(0) {} };
static int find(const M &m, const Key &k) { for (size_t i = 0; i < m.k; i++) if (same(m.key[i], k)) return (int)i; return -1; }
static void ins(M &m, size_t at, Node *n, const Key &k, uint32_t v) { for (size_t i = m.k; i > at; i--) { m.n[i] = m.n[i - 1]; m.v[i] = m.v[i - 1]; m.key[i] = m.key[i - 1]; } m.n[at] = n; m.v[at] = v; m.key[at] = k; m.k++; }
static void del(M &m, size_t at) { for (size_t i = at + 1; i < m.k; i++) { m.n[i - 1] = m.n[i]; m.v[i - 1] = m.v[i]; m.key[i - 1] = m.key[i]; } m.k--; }
template <class L> static Node *lookup(L &l, const Key &k) { return k.str ? l.Find(k.s, k.len) : l.Find(k.i); }
static void samekey(Node *n, const Key &k) {
	if (k.str) { vp_assert(n->GetStrKey() != NULL && n->GetIntKey() == (int64_t)k.len, "node lost its string key"); for (size_t i = 0; i < k.len; i++) vp_assert(n->GetStrKey()[i] == k.s[i], "node has another string key"); }
	else vp_assert(n->GetStrKey() == NULL && n->GetIntKey() == k.i, "node has another integer key");
}
static Node *fr[MAXN]; static Key frk[MAXN]; static uint32_t frv[MAXN]; static size_t nf;
template <class L> static void verify(L &l, M &m, bool ids = true) {
	vp_assert(l.GetListSize() == m.k, "count differs");
	Node *n = l.FirstList(), *p = NULL; size_t i;
	for (i = 0; i < m.k; i++, p = n, n = n->NextList()) {
		vp_assert(n != NULL, "forward traversal is too short"); if (!ids) m.n[i] = n;
		vp_assert(n == m.n[i] && n->Value == m.v[i], "forward traversal differs"); samekey(n, m.key[i]); vp_assert(n->PrevList() == p, "backward link differs");
	}
	vp_assert(n == NULL, "forward traversal is too long"); vp_assert(l.LastList() == p, "last entry differs");
	for (i = 0; i < m.k; i++) vp_assert(lookup(l, m.key[i]) == m.n[i] && l.Find(m.n[i]) == m.n[i], "stored key is not found");
	for (unsigned k = 0; k < NKEYS; k++) if (find(m, KEYS[k]) < 0) vp_assert(lookup(l, KEYS[k]) == NULL, "key found that is not stored");
	if (ids) for (i = 0; i < nf; i++) { int f = find(m, frk[i]); vp_assert(l.Find(fr[i]) == (f < 0 ? NULL : m.n[f]), "look-up by a detached node finds another entry"); }
	if (ids) { vp_assert(!l.Remove(NULL) && !l.Detach(NULL, false), "removal of nothing succeeds"); vp_assert(l.GetListSize() == m.k, "removal of nothing changes the count"); }
	size_t tot = 0;   // every bucket chain is well formed
	for (size_t b = 0; b < l.GetHashSize(); b++) { Node *pp = NULL; for (Node *q = l.RawHash()[b]; q; pp = q, q = q->NextHash()) { vp_assert(q->PrevHash() == pp && ++tot <= m.k, "bucket chain broken"); } }
	vp_assert(tot == m.k, "entries missing from the buckets");
}
static void gone(Node *n, const Key &k, uint32_t v) { vp_assert(n->PrevHash() == NULL && n->NextHash() == NULL && n->Value == v, "detached node keeps links or loses its value"); samekey(n, k); fr[nf] = n; frk[nf] = k; frv[nf++] = v; }
template <class L> static void step(L &a, M &m, bool lite = false) {
	unsigned op = lite ? 2 * vp_choice(7) : vp_choice(14); uint32_t v = vp_u32(); Node *n; size_t i = 0;
	switch (op) {
		case 0: case 1: case 2: case 3: {  // insert a key somewhere
			const Key &k = KEYS[vp_choice(NKEYS)]; size_t at = op == 0 ? m.k : 0; if (op >= 2) { if (!m.k) vp_end(); i = vp_choice(m.k); at = op == 2 ? i : i + 1; }
			int f = find(m, k);
			if (op == 0) n = k.str ? a.Push(k.s, k.len, v) : a.Push(k.i, v);
			else if (op == 1) n = k.str ? a.Unshift(k.s, k.len, v) : a.Unshift(k.i, v);
			else if (op == 2) n = k.str ? a.InsertBefore(m.n[i], k.s, k.len, v) : a.InsertBefore(m.n[i], k.i, v);
			else n = k.str ? a.InsertAfter(m.n[i], k.s, k.len, v) : a.InsertAfter(m.n[i], k.i, v);
			vp_assert((n == NULL) == (f >= 0), "insertion accepted for an existing key or refused for a new one");
			if (n) ins(m, at, n, k, v); else vp_cover("dup"); break; }
		case 4: if (!m.k) vp_end(); i = vp_choice(m.k); vp_assert(a.Remove(m.n[i]), "remove result"); del(m, i); break;
		case 5: if (!m.k) vp_end(); i = vp_choice(m.k); n = m.n[i]; vp_assert(a.Detach(n, vp_choice(2)), "detach result"); gone(n, m.key[i], m.v[i]); del(m, i); break;
		case 6: n = a.Pop(vp_choice(2)); if (!m.k) vp_assert(!n, "pop of an empty table"); else { vp_assert(n == m.n[m.k - 1], "pop returns another entry"); gone(n, m.key[m.k - 1], m.v[m.k - 1]); del(m, m.k - 1); } break;
		case 7: n = a.Shift(vp_choice(2)); if (!m.k) vp_assert(!n, "shift of an empty table"); else { vp_assert(n == m.n[0], "shift returns another entry"); gone(n, m.key[0], m.v[0]); del(m, 0); } break;
		case 8: case 9: { // attach a detached node
			if (!nf) vp_end(); --nf; n = fr[nf]; Key k = frk[nf]; uint32_t w = frv[nf]; int f = find(m, k); unsigned how = vp_choice(m.k ? 4 : 2); if (how >= 2) i = vp_choice(m.k);
			Node *r = how == 0 ? a.Push(n) : how == 1 ? a.Unshift(n) : how == 2 ? a.InsertBefore(m.n[i], n) : a.InsertAfter(m.n[i], n);
			vp_assert(r == (f >= 0 ? NULL : n), "attach accepted for an existing key or refused for a new one");
			if (r) { ins(m, how == 0 ? m.k : how == 1 ? 0 : how == 2 ? i : i + 1, n, k, w); vp_cover("attach"); } else { fr[nf] = n; nf++; } break; }
		case 10: a.Empty(); m.k = 0; break;
		case 11: { a.Empty(false, vp_choice(2)); size_t c = m.k; m.k = 0; for (size_t j = 0; j < c; j++) gone(m.n[j], m.key[j], m.v[j]); break; }
		case 12: { static const size_t sz[] = { 0, 1, 2, 7 }; size_t s = sz[vp_choice(4)], old = a.GetHashSize(); bool r = a.ResizeHash(s); vp_assert(r == (s != 0) && a.GetHashSize() == (s ? s : old), "resize result"); break; }
		default: { // key change of a detached node
			if (!nf) vp_end(); n = fr[nf - 1]; const Key &k = KEYS[vp_choice(NKEYS)]; if (k.str) n->SetStrKey(k.s, k.len, true); else n->SetIntKey(k.i, true); frk[nf - 1] = k; samekey(n, k); }
	}
}
template <class L> static void fill(L &a, M &m, unsigned n) { for (unsigned i = 0; i < n; i++) { Key k = i < 2 ? KEYS[2 + i] : fillkey(i); uint32_t v = vp_u32(); Node *x = k.str ? a.Push(k.s, k.len, v) : a.Push(k.i, v); vp_assert(x != NULL, "fresh key refused"); ins(m, m.k, x, k, v); } }
