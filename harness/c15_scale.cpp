// Large packed hash: growth through many table sizes, compaction, every key found, (COPY) copies; the values are arbitrary, the keys are fixed.
#include "vp.h"
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include "templates/packed_ordered_hash.h"
#include "templates/packed_ordered_hash.cpp"
using namespace CubicleSoft;
typedef PackedOrderedHash<uint32_t> H; typedef PackedOrderedHashNode<uint32_t> Node;
static uint32_t base; static char kb[400];
#define V(i) (base ^ (uint32_t)(i))
static bool isstr(int i) { return i % 3 == 0; }
static size_t key(int i) { size_t l = 2 + (size_t)(i % 5) + (i == 30 ? 300 : 0); memset(kb, 'k', l); kb[0] = (char)(i & 127); kb[1] = (char)(i >> 7); return l; }
static int64_t ikey(int i) { return i % 2 ? (int64_t)i * 0x100000001LL : -(int64_t)i; }
static Node *look(H &h, int i) { if (isstr(i)) { size_t l = key(i); return h.Find(kb, l); } return h.Find(ikey(i)); }
static Node *put(H &h, int i) { if (isstr(i)) { size_t l = key(i); return h.Set(kb, l, V(i)); } return h.Set(ikey(i), V(i)); }
static bool drop(H &h, int i) { if (isstr(i)) { size_t l = key(i); return h.Unset(kb, l); } return h.Unset(ikey(i)); }
static bool in(int i, int gone) { return !gone || i % 4 != gone; }
static void check(H &h, int n, int gone) {
	int cnt = 0; for (int i = 0; i < n; i++) { Node *x = look(h, i); vp_assert((x != NULL) == in(i, gone), "key found that is not stored, or stored and not found"); if (x) { vp_assert(x->Value == V(i), "value differs"); cnt++; } } vp_assert(h.GetSize() == (size_t)cnt, "count differs");
	size_t p = h.GetNextPos(); Node *x; for (int i = 0; i < n; i++) if (in(i, gone)) { x = h.Next(p); vp_assert(x != NULL && x->Value == V(i), "forward order differs"); } vp_assert(h.Next(p) == NULL, "forward traversal is too long");
	p = h.GetNextPos(); for (int i = n; i-- > 0;) if (in(i, gone)) { x = h.Prev(p); vp_assert(x != NULL && x->Value == V(i), "backward order differs"); } vp_assert(h.Prev(p) == NULL, "backward traversal is too long"); vp_assert(look(h, n) == NULL && look(h, n + 1) == NULL && look(h, n + 2) == NULL, "unknown key found");
}
extern "C" void vp_main() {
	base = vp_u32(); int n = vp_choice(2) ? N1 : N2; unsigned how = vp_choice(3);
	{
		H d, *hp; if (how == 0) hp = new H(); else if (how == 1) hp = new H((size_t)4); else hp = new H((size_t)8, 0x0706050403020100ULL, 0x0f0e0d0c0b0a0908ULL); H &h = *hp;
		for (int i = 0; i < n; i++) put(h, i); put(h, n / 2); put(h, 0); check(h, n, 0);
#ifdef COPY
		d.Set(1, 2); H c(h); d = h; check(c, n, 0); check(d, n, 0); for (int i = 0; i < n; i++) if (!in(i, 1)) vp_assert(drop(c, i), "remove"); check(c, n, 1); check(h, n, 0); put(d, n); check(d, n + 1, 0); check(h, n, 0); H e(c); check(e, n, 1); e.Optimize(); check(e, n, 1); d = e; check(d, n, 1); vp_cover("large copy");
#else
		for (int i = 0; i < n; i++) if (!in(i, 1)) vp_assert(drop(h, i), "remove"); check(h, n, 1); vp_assert(!drop(h, 1), "removed twice"); if (vp_choice(2)) { vp_assert(h.Optimize(), "optimize"); check(h, n, 1); } for (int i = n; i < n + 80; i++) if (in(i, 1)) put(h, i); check(h, n + 80, 1); vp_cover("large");
#endif
		delete hp;
	}
	vp_assert(vp_heap_live() == 0, "nodes or keys not released exactly once");
}
