// Large ordered hash: growth through many table sizes, every key found, removals and re-insertions, (COPY) copies; the values are arbitrary, the keys are fixed.
#include "vp.h"
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include "templates/detachable_ordered_hash.h"
#include "templates/detachable_ordered_hash.cpp"
using namespace CubicleSoft;
static uint32_t base; static char kb[400];
#define V(i) (base ^ (uint32_t)(i))
static bool isstr(int i) { return i % 3 == 0; }
static size_t key(int i) { size_t l = 2 + (size_t)(i % 5) + (i == 30 ? 300 : 0); memset(kb, 'k', l); kb[0] = (char)(i & 127); kb[1] = (char)(i >> 7); return l; }
static int64_t ikey(int i) { return i % 2 ? (int64_t)i * 0x100000001LL : -(int64_t)i; }
template <class H> static OrderedHashNode<uint32_t> *look(H &h, int i) { if (isstr(i)) { size_t l = key(i); return h.Find(kb, l); } return h.Find(ikey(i)); }
template <class H> static OrderedHashNode<uint32_t> *put(H &h, int i) { if (isstr(i)) { size_t l = key(i); return h.Push(kb, l, V(i)); } return h.Push(ikey(i), V(i)); }
static bool in(int i, int gone) { return !gone || i % 4 != gone; }
template <class H> static void check(H &h, int n, int gone) {
	int cnt = 0; for (int i = 0; i < n; i++) { OrderedHashNode<uint32_t> *x = look(h, i); vp_assert((x != NULL) == in(i, gone), "key found that is not stored, or stored and not found"); if (x) { vp_assert(x->Value == V(i), "value differs"); cnt++; } } vp_assert(h.GetListSize() == (size_t)cnt, "count differs");
	OrderedHashNode<uint32_t> *x = h.FirstList(); for (int i = 0; i < n; i++) if (in(i, gone)) { vp_assert(x != NULL && x->Value == V(i), "forward order differs"); x = x->NextList(); } vp_assert(x == NULL, "forward traversal is too long");
	x = h.LastList(); for (int i = n; i-- > 0;) if (in(i, gone)) { vp_assert(x != NULL && x->Value == V(i), "backward order differs"); x = x->PrevList(); } vp_assert(x == NULL, "backward traversal is too long"); vp_assert(look(h, n) == NULL && look(h, n + 1) == NULL && look(h, n + 2) == NULL, "unknown key found");
}
extern "C" void vp_main() {
	base = vp_u32(); int n = vp_choice(2) ? N1 : N2; unsigned how = vp_choice(3);
	{
		OrderedHash<uint32_t> d, *hp; if (how == 0) hp = new OrderedHash<uint32_t>(); else if (how == 1) hp = new OrderedHash<uint32_t>((size_t)5); else hp = new OrderedHash<uint32_t>((size_t)3, 0x0706050403020100ULL, 0x0f0e0d0c0b0a0908ULL); OrderedHash<uint32_t> &h = *hp;
		for (int i = 0; i < n; i++) vp_assert(put(h, i) != NULL, "fresh key refused"); vp_assert(put(h, n / 2) == NULL && put(h, 0) == NULL && put(h, n - 1) == NULL, "second entry for a key"); check(h, n, 0);
#ifdef COPY
		d.Push(1, 2); OrderedHash<uint32_t> c(h); d = h; check(c, n, 0); check(d, n, 0); for (int i = 0; i < n; i++) if (!in(i, 1)) vp_assert(c.Remove(look(c, i)), "remove"); check(c, n, 1); check(h, n, 0); vp_assert(put(d, n) != NULL, "insert"); check(d, n + 1, 0); check(h, n, 0); vp_cover("large copy");
#else
		for (int i = 0; i < n; i++) if (!in(i, 1)) vp_assert(h.Remove(look(h, i)), "remove"); check(h, n, 1); for (int i = n; i < n + 20; i++) if (in(i, 1)) vp_assert(put(h, i) != NULL, "fresh key refused"); check(h, n + 20, 1); h.Empty(); check(h, 0, 0); put(h, 0); check(h, 1, 0); vp_cover("large");
#endif
		delete hp;
	}
	vp_assert(vp_heap_live() == 0, "nodes or keys not released exactly once");
}
