// A larger cache: more slots than a byte counts, keys that share slots with full 64-bit hashes; the values are arbitrary.
#include "vp.h"
#include <cstddef>
#include <cstdlib>
#include "templates/cache.h"
using namespace CubicleSoft;
static uint32_t base; static size_t P;
#define V(i) (base ^ (uint32_t)(i))
static uint64_t hash(int i) { return (uint64_t)i * 0x9E3779B97F4A7C15ULL; }
static int last[400];
template <class C> static void check(C &c, int n) { for (int i = 0; i < n; i++) { uint32_t r = 0; bool want = last[hash(i) % P] == i; vp_assert(c.Find(r, hash(i), (uint32_t)i) == want && c.Exists(hash(i), (uint32_t)i) == want, "look-up finds a key that is not stored, or misses the latest of its slot"); if (want) vp_assert(r == V(i), "look-up returns another value"); } }
extern "C" void vp_main() {
	base = vp_u32(); static const size_t sz[] = { 97, 257, 300 }; P = sz[vp_choice(3)]; int n = 2 * (int)P;
	{
		Cache<uint32_t, uint32_t> c(P), d(vp_choice(2) ? 7 : P); vp_assert(c.GetSize() == P, "size"); for (size_t i = 0; i < P; i++) last[i] = -1; for (int i = 0; i < n; i++) { c.Insert(hash(i), (uint32_t)i, V(i)); last[hash(i) % P] = i; } check(c, n); d = c; check(d, n); Cache<uint32_t, uint32_t> e(c); check(e, n);
		for (int i = 0; i < n; i += 3) { bool w = last[hash(i) % P] == i; vp_assert(c.Remove(hash(i), (uint32_t)i) == w, "remove result"); } check(d, n); check(e, n); for (int i = 0; i < n; i += 3) if (last[hash(i) % P] == i) last[hash(i) % P] = -1; check(c, n); c.Empty(); for (size_t i = 0; i < P; i++) last[i] = -1; check(c, n); vp_cover("large");
	}
	vp_assert(vp_heap_live() == 0, "entries not released exactly once");
}
