// Cache against a slot model: keys with arbitrary hashes, every history of STEPS operations; copies.
#include "vp.h"
#include <cstddef>
#include <cstdlib>
#include "templates/cache.h"
using namespace CubicleSoft;
static int live;
struct E { uint32_t *p; E() : p(new uint32_t(0)) { live++; } E(uint32_t v) : p(new uint32_t(v)) { live++; } E(const E &o) : p(new uint32_t(*o.p)) { live++; } ~E() { delete p; live--; } E &operator=(const E &o) { *p = *o.p; return *this; } bool operator==(const E &o) const { return *p == *o.p; } };
#define NK 3
static uint64_t h[NK]; static size_t P; static uint32_t keys[NK] = { 10, 0, 30 };
struct M { bool used[5]; unsigned k[5]; uint32_t v[5]; };
template <class C> static void verify(C &c, M &m) {
	vp_assert(c.GetSize() == P, "size");
	for (unsigned k = 0; k < NK; k++) {
		size_t s = h[k] % P; bool in = false; uint32_t val = 0;
		for (size_t i = 0; i < P; i++) if (s == i) { in = m.used[i] && m.k[i] == k; val = m.v[i]; }
		E r(0xDEAD); bool f = c.Find(r, h[k], E(keys[k]));
		vp_assert(f == in && c.Exists(h[k], E(keys[k])) == in, "lookup finds a key that is not stored, or misses one that is");
		if (f) { vp_assert(*r.p == val, "lookup returns another value"); vp_cover("hit"); }
	}
}
template <class C> static void step(C &c, M &m) {
	unsigned op = vp_choice(3), k = vp_choice(NK);
	size_t s = vp_concretize(h[k] % P);
	if (op == 0) { uint32_t v = vp_u32(); c.Insert(h[k], E(keys[k]), E(v)); m.used[s] = true; m.k[s] = k; m.v[s] = v; }
	else if (op == 1) { bool in = m.used[s] && m.k[s] == k; vp_assert(c.Remove(h[k], E(keys[k])) == in, "remove result"); if (in) m.used[s] = false; }
	else { c.Empty(); for (unsigned i = 0; i < 5; i++) m.used[i] = false; }
}
extern "C" void vp_main() {
	static const size_t sizes[] = { 1, 2, 3, 5 }; P = sizes[vp_choice(4)];
	for (unsigned k = 0; k < NK; k++) h[k] = vp_u64();
	{
		M m; for (unsigned i = 0; i < 5; i++) m.used[i] = false;
		if (vp_choice(2)) { CacheNoCopy<E, E> c(P); for (unsigned i = 0; i < STEPS; i++) step(c, m); verify(c, m); }
		else {
			Cache<E, E> c(P); for (unsigned i = 0; i < STEPS; i++) step(c, m);
			verify(c, m);
			M m2 = m; unsigned how = vp_choice(4);
			if (how == 0) { Cache<E, E> d(c); step(d, m2); verify(d, m2); }
			else { Cache<E, E> d(how == 1 ? P : P + 2); M t; for (unsigned i = 0; i < 5; i++) t.used[i] = false; if (how == 1) step(d, t); Cache<E, E> &r = (d = c); vp_assert(&r == &d, "assignment result"); if (how == 3) d = *&d; step(d, m2); verify(d, m2); vp_cover("assigned"); }
			verify(c, m);   // the source is unaffected
		}
	}
	vp_assert(live == 0 && vp_heap_live() == 0, "entries not released exactly once");
}
