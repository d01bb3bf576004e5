// Queue against a sequence model; every history of STEPS operations from every initial pair of queues.
#include "vp.h"
#include <cstddef>
#include <cstdlib>
#include "templates/detachable_queue.h"
using namespace CubicleSoft;
#define MAXN (INIT + INIT2 + 2 * STEPS + 2)
typedef QueueNode<uint32_t> Node;
struct M { Node *n[MAXN]; uint32_t v[MAXN]; size_t k; };
static void ins(M &m, size_t at, Node *n, uint32_t v) { for (size_t i = m.k; i > at; i--) { m.n[i] = m.n[i - 1]; m.v[i] = m.v[i - 1]; } m.n[at] = n; m.v[at] = v; m.k++; }
static void del(M &m, size_t at) { for (size_t i = at + 1; i < m.k; i++) { m.n[i - 1] = m.n[i]; m.v[i - 1] = m.v[i]; } m.k--; }
template <class L> static void verify(L &l, M &m, bool ids = true) {
	vp_assert(l.GetSize() == m.k, "count differs");
	Node *n = l.First(), *p = NULL; size_t i;
	for (i = 0; i < m.k; i++, p = n, n = n->Next()) { vp_assert(n != NULL, "traversal is too short"); vp_assert((!ids || n == m.n[i]) && n->Value == m.v[i], "traversal differs"); if (!ids) m.n[i] = n; }
	vp_assert(n == NULL, "traversal is too long"); vp_assert(l.Last() == p, "last node differs");
}
static Node *freen[MAXN]; static uint32_t freev[MAXN]; static size_t nf;
static void assigned(Queue<uint32_t> &a, Queue<uint32_t> &b, M &ma, M &mb, unsigned how) {
	if (how == 0) { a = b; for (size_t i = 0; i < mb.k; i++) ma.v[i] = mb.v[i]; ma.k = mb.k; verify(a, ma, false); }
	else if (how == 1) { a = *&a; verify(a, ma); }
	else { Queue<uint32_t> c(a); M mc = ma; verify(c, mc, false); for (size_t i = 0; i < mc.k; i++) vp_assert(mc.n[i] != ma.n[i], "copy shares nodes"); if (mc.k) { c.First()->Value++; delete c.Shift(); } c.Push(1); verify(a, ma); vp_cover("copied"); }
}
static void assigned(QueueNoCopy<uint32_t> &, QueueNoCopy<uint32_t> &, M &, M &, unsigned) {}
template <class L> static void runq() {
	L a, b; M ma, mb; ma.k = mb.k = 0;
	size_t na = vp_choice(INIT + 1), nb = vp_choice(INIT2 + 1);
	for (size_t i = 0; i < na; i++) { uint32_t v = vp_u32(); Node *n = a.Push(v); ins(ma, ma.k, n, v); }
	for (size_t i = 0; i < nb; i++) { uint32_t v = vp_u32(); Node *n = b.Unshift(v); ins(mb, 0, n, v); }
	for (unsigned s = 0; s < STEPS; s++) {
		unsigned op = vp_choice(10); uint32_t v = vp_u32(); Node *n;
		if (op == 2 || op == 3) { if (!nf) vp_end(); n = freen[--nf]; v = freev[nf]; }
		switch (op) {
			case 0: n = a.Push(v); ins(ma, ma.k, n, v); break;
			case 1: n = a.Unshift(v); ins(ma, 0, n, v); break;
			case 2: vp_assert(a.Push(n) == n, "attach result"); ins(ma, ma.k, n, v); break;
			case 3: vp_assert(a.Unshift(n) == n, "attach result"); ins(ma, 0, n, v); break;
			case 4: n = a.Shift(); if (!ma.k) vp_assert(!n, "shift of an empty queue"); else { vp_assert(n == ma.n[0] && n->Next() == NULL && n->Value == ma.v[0], "shift delivers another node"); freen[nf] = n; freev[nf++] = ma.v[0]; del(ma, 0); vp_cover("shift"); } break;
			case 5: a.Empty(); ma.k = 0; break;
			case 6: a.DetachAllAndAppend(b); for (size_t j = 0; j < mb.k; j++) ins(ma, ma.k, mb.n[j], mb.v[j]); mb.k = 0; break;
			case 7: assigned(a, b, ma, mb, vp_choice(3)); break;
			case 8: { if (ma.k < 2) vp_end(); size_t j = vp_choice(ma.k - 1); vp_assert(b.Push(ma.n[j]) == NULL && b.Unshift(ma.n[j]) == NULL, "linked node accepted by another queue"); break; }
			default: { if (vp_choice(2)) { L &r = (a += v); vp_assert(&r == &a, "+= result"); } else { n = L::CreateNode(v); a += n; } ins(ma, ma.k, a.Last(), v); }
		}
		verify(a, ma); verify(b, mb);
	}
	for (size_t i = 0; i < nf; i++) delete freen[i];
}
extern "C" void vp_main() { if (vp_choice(2)) runq<Queue<uint32_t> >(); else runq<QueueNoCopy<uint32_t> >(); { Queue<uint32_t> o(5u); QueueNoCopy<uint32_t> p(6u); vp_assert(o.GetSize() == 1 && o.First()->Value == 5 && p.Last()->Value == 6, "value constructor"); } vp_assert(vp_heap_live() == 0, "nodes not freed exactly once"); }
