// Long lists: counts beyond a byte, traversal, copies, detaching; the values are arbitrary.
#include "vp.h"
#include <cstddef>
#include <cstdlib>
#include "templates/detachable_list.h"
using namespace CubicleSoft;
#define V(i) (base ^ (uint32_t)(i))
static uint32_t base;
template <class L> static void check(L &l, int lo, int hi) {
	vp_assert(l.GetSize() == (size_t)(hi - lo), "count differs"); ListNode<uint32_t> *n = l.First(); for (int i = lo; i < hi; i++, n = n->Next()) { vp_assert(n != NULL, "forward traversal is too short"); vp_assert(n->Value == V(i), "forward traversal differs"); } vp_assert(n == NULL, "forward traversal is too long");
	n = l.Last(); for (int i = hi; i-- > lo; n = n->Prev()) { vp_assert(n != NULL, "backward traversal is too short"); vp_assert(n->Value == V(i), "backward traversal differs"); } vp_assert(n == NULL, "backward traversal is too long");
}
extern "C" void vp_main() {
	base = vp_u32();
	{
		List<uint32_t> a, b; static const int his[] = { 200, 240, 280, 66000 }; int hi = his[vp_choice(4)], lo = -(int)vp_choice(3) * 30; for (int i = 0; i < hi; i++) a.Push(V(i)); for (int i = -1; i >= lo; i--) a.Unshift(V(i)); check(a, lo, hi);
		List<uint32_t> c(a); check(c, lo, hi); b.Push(9); b = a; check(b, lo, hi); for (int i = 0; i < 100; i++) { delete c.Shift(); delete c.Pop(); } check(c, lo + 100, hi - 100); for (int i = hi - 100; i < hi; i++) c.Push(V(i)); check(c, lo + 100, hi);
		List<uint32_t> d; for (int i = hi; i < hi + 90; i++) d.Push(V(i)); a.DetachAllAndAppend(d); check(a, lo, hi + 90); vp_assert(d.GetSize() == 0 && d.First() == NULL && d.Last() == NULL, "emptied list"); check(b, lo, hi); a.Empty(); check(a, 0, 0); a.Push(V(0)); check(a, 0, 1); vp_cover("long");
	}
	vp_assert(vp_heap_live() == 0, "nodes not freed exactly once");
}
