// Doubly linked list against a sequence model; every history of STEPS operations from every initial pair of lists.
#include "vp.h"
#include <cstddef>
#include <cstdlib>
#include "templates/detachable_list.h"
using namespace CubicleSoft;
#define MAXN (INIT + INIT2 + 2 * STEPS + 2)
typedef ListNode<uint32_t> Node;
struct M { Node *n[MAXN]; uint32_t v[MAXN]; size_t k; };
static void ins(M &m, size_t at, Node *n, uint32_t v) { for (size_t i = m.k; i > at; i--) { m.n[i] = m.n[i - 1]; m.v[i] = m.v[i - 1]; } m.n[at] = n; m.v[at] = v; m.k++; }
static void del(M &m, size_t at) { for (size_t i = at + 1; i < m.k; i++) { m.n[i - 1] = m.n[i]; m.v[i - 1] = m.v[i]; } m.k--; }
template <class L> static void verify(L &l, M &m, bool ids = true) {
	vp_assert(l.GetSize() == m.k, "count differs");
	vp_assert((l.First() == NULL) == (m.k == 0) && (l.Last() == NULL) == (m.k == 0), "ends of the list");
	Node *n = l.First(), *p = NULL; size_t i;
	for (i = 0; i < m.k; i++, p = n, n = n->Next()) { vp_assert(n != NULL, "forward traversal is too short"); vp_assert((!ids || n == m.n[i]) && n->Value == m.v[i], "forward traversal differs"); vp_assert(n->Prev() == p, "backward link differs"); if (!ids) m.n[i] = n; }
	vp_assert(n == NULL, "forward traversal is too long");
	n = l.Last(); for (i = m.k; i-- > 0; n = n->Prev()) { vp_assert(n != NULL && n == m.n[i], "backward traversal differs"); }
	vp_assert(n == NULL, "backward traversal is too long");
}
static Node *freen[MAXN]; static uint32_t freev[MAXN]; static size_t nf;
static void gone(Node *n, uint32_t v) { vp_assert(n->Prev() == NULL && n->Next() == NULL && n->Value == v, "detached node keeps links or loses its value"); freen[nf] = n; freev[nf++] = v; }
static void assigned(List<uint32_t> &a, List<uint32_t> &b, M &ma, M &mb, unsigned how) {
	if (how == 0) { a = b; for (size_t i = 0; i < mb.k; i++) ma.v[i] = mb.v[i]; ma.k = mb.k; verify(a, ma, false); }
	else if (how == 1) { a = *&a; verify(a, ma); }
	else { List<uint32_t> c(a); M mc = ma; verify(c, mc, false); for (size_t i = 0; i < mc.k; i++) { vp_assert(mc.n[i] != ma.n[i], "copy shares nodes"); } if (mc.k) { c.First()->Value++; c.Remove(c.Last()); } c.Push(1); verify(a, ma); vp_cover("copied"); }
}
static void assigned(ListNoCopy<uint32_t> &, ListNoCopy<uint32_t> &, M &, M &, unsigned) {}
template <class L> static void runl() {
	L a, b; M ma, mb; ma.k = mb.k = 0;
	size_t na = vp_choice(INIT + 1), nb = vp_choice(INIT2 + 1);
	for (size_t i = 0; i < na; i++) { uint32_t v = vp_u32(); Node *n = a.Push(v); ins(ma, ma.k, n, v); }
	for (size_t i = 0; i < nb; i++) { uint32_t v = vp_u32(); Node *n = b.Unshift(v); ins(mb, 0, n, v); }
	if (vp_choice(2)) { uint32_t v = vp_u32(); Node *n = L::CreateNode(v); gone(n, v); }
	verify(a, ma); verify(b, mb);
	for (unsigned s = 0; s < STEPS; s++) {
		unsigned op = vp_choice(17); uint32_t v = vp_u32(); Node *n;
		size_t i = 0;
		if (op == 2 || op == 3 || op == 6 || op == 7 || op == 10 || op == 11) { if (!ma.k) vp_end(); i = vp_choice(ma.k); }
		if ((op >= 4 && op <= 7) || op == 16) { if (!nf) vp_end(); n = freen[--nf]; v = freev[nf]; }
		switch (op) {
			case 0: n = a.Push(v); ins(ma, ma.k, n, v); break;
			case 1: n = a.Unshift(v); ins(ma, 0, n, v); break;
			case 2: n = a.InsertBefore(ma.n[i], v); ins(ma, i, n, v); break;
			case 3: n = a.InsertAfter(ma.n[i], v); ins(ma, i + 1, n, v); break;
			case 4: vp_assert(a.Push(n) == n, "attach result"); ins(ma, ma.k, n, v); break;
			case 5: vp_assert(a.Unshift(n) == n, "attach result"); ins(ma, 0, n, v); break;
			case 6: vp_assert(a.InsertBefore(ma.n[i], n) == n, "attach result"); ins(ma, i, n, v); break;
			case 7: vp_assert(a.InsertAfter(ma.n[i], n) == n, "attach result"); ins(ma, i + 1, n, v); break;
			case 8: n = a.Pop(); if (!ma.k) vp_assert(!n, "pop of an empty list"); else { vp_assert(n == ma.n[ma.k - 1], "pop returns another node"); gone(n, ma.v[ma.k - 1]); del(ma, ma.k - 1); } break;
			case 9: n = a.Shift(); if (!ma.k) vp_assert(!n, "shift of an empty list"); else { vp_assert(n == ma.n[0], "shift returns another node"); gone(n, ma.v[0]); del(ma, 0); } break;
			case 10: n = ma.n[i]; vp_assert(a.Detach(n), "detach result"); gone(n, ma.v[i]); del(ma, i); break;
			case 11: vp_assert(a.Remove(ma.n[i]), "remove result"); del(ma, i); break;
			case 12: a.Empty(); ma.k = 0; break;
			case 13: a.DetachAllAndAppend(b); for (size_t j = 0; j < mb.k; j++) ins(ma, ma.k, mb.n[j], mb.v[j]); mb.k = 0; vp_cover("appendall"); break;
			case 14: assigned(a, b, ma, mb, vp_choice(3)); break;
			case 15: { if (ma.k < 2) vp_end(); size_t j = vp_choice(ma.k); Node *o = ma.n[j]; vp_assert(b.Push(o) == NULL && b.Unshift(o) == NULL && b.InsertBefore(NULL, o) == NULL && b.InsertAfter(NULL, o) == NULL && !b.Detach(NULL), "linked node accepted by another list"); break; }
			default: { L &r = vp_choice(2) ? (a += n) : (freen[nf] = n, freev[nf++] = v, a += v); vp_assert(&r == &a, "+= result"); ins(ma, ma.k, a.Last(), v); }
		}
		verify(a, ma); verify(b, mb);
	}
	vp_cover("end");
	for (size_t i = 0; i < nf; i++) delete freen[i];
}
extern "C" void vp_main() { if (vp_choice(2)) runl<List<uint32_t> >(); else runl<ListNoCopy<uint32_t> >(); { List<uint32_t> o(5u); ListNoCopy<uint32_t> p(6u); vp_assert(o.GetSize() == 1 && o.First()->Value == 5 && p.Last()->Value == 6, "value constructor"); } vp_assert(vp_heap_live() == 0, "nodes not freed exactly once"); }
