// Thread-local allocator: every history of STEPS operations with every request size up to MAXN; blocks disjoint, large enough,
// contents kept (a watched byte at an arbitrary position stands for each of them), everything released exactly once.
#include "tls_common.h"
struct B { uint8_t *p; size_t n, j; uint8_t v; unsigned thr; };
static B b[STEPS + 1]; static size_t nb;
static void watch(B &x) { x.j = vp_range(0, MAXN - 1); vp_assume(x.j < x.n); x.v = vp_u8(); x.p[0] = vp_u8(); x.p[x.n - 1] = vp_u8(); x.p[x.j] = x.v; }
static size_t anysize() { return vp_range(0, MAXN); }
static void drop(size_t i) { b[i] = b[--nb]; }
static void verify() {
	for (size_t i = 0; i < nb; i++) {
		vp_assert(b[i].p[b[i].j] == b[i].v, "block content changed");
		for (size_t j = 0; j < i; j++) vp_assert(b[j].p + b[j].n <= b[i].p || b[i].p + b[i].n <= b[j].p, "two live blocks overlap");
	}
}
static size_t base;
static void account(TLS &t) { // every system block is in use or listed in a cache
	size_t c = 0; for (curthr = 0; curthr < 2; curthr++) { size_t cn, cs; for (size_t k = 0; t.GetBucketInfo(k, cn, cs); k++) c += cn; }
	curthr = 0; vp_assert(vp_heap_live() - base == nb + c, "a block is neither in use nor cached");
}
extern "C" void vp_main() {
	static const size_t bits[] = { 0, 4, 5, 15 }; size_t mb = bits[vp_choice(4)];
	{
		TLS t; void *q = t.malloc(8); vp_assert(q == NULL, "allocation without a thread cache succeeds"); { size_t cn, cs; vp_assert(!t.GetBucketInfo(0, cn, cs) && !t.ThreadEnd() && t.realloc(NULL, 8) == NULL && t.dup_malloc(NULL) == NULL, "use without a thread cache"); t.free(NULL); }
		vp_assert(t.ThreadInit(mb), "thread init"); curthr = 1; vp_assert(t.ThreadInit(mb), "thread init"); curthr = 0; base = vp_heap_live();
#ifdef FAIL
		vp_malloc_fail(1);
#endif
		for (unsigned s = 0; s < STEPS; s++) {
			unsigned op = vp_choice(4); size_t i = 0, n;
			if (op && !nb) vp_end(); if (op) { i = vp_choice(nb); curthr = b[i].thr; }
			switch (op) {
				case 0: { n = anysize(); curthr = THREADS ? vp_choice(2) : 0; B x; x.p = (uint8_t *)(vp_choice(2) ? t.malloc(n) : t.realloc(NULL, n)); if (vp_split(n == 0)) { vp_assert(x.p == NULL, "empty allocation"); vp_end(); }
#ifdef FAIL
					if (!x.p) { vp_cover("allocation failed"); break; }
#else
					vp_assert(x.p != NULL, "allocation fails");
#endif
					x.n = n; x.thr = curthr; watch(x); b[nb++] = x; break; }
				case 1: { n = anysize(); B &x = b[i]; uint8_t *r = (uint8_t *)(vp_choice(2) ? TLS::realloc((void *)&t, x.p, n) : t.realloc(x.p, n, false));
					if (vp_split(n == 0)) { vp_assert(r == NULL, "realloc to nothing"); drop(i); break; }
#ifdef FAIL
					if (!r) { vp_cover("reallocation failed"); break; }   // the old block must still be intact
#endif
					vp_assert(r != NULL, "reallocation fails"); x.p = r; if (vp_split(x.j < n)) { vp_assert(r[x.j] == x.v, "reallocation lost content"); vp_cover("realloc kept content"); } x.n = n; watch(x); break; }
				case 2: { uint8_t *d = (uint8_t *)t.dup_malloc(b[i].p, vp_choice(2));
#ifdef FAIL
					if (!d) { vp_cover("duplication failed"); break; }
#endif
					vp_assert(d != NULL, "duplication fails"); vp_assert(d[b[i].j] == b[i].v, "duplicate differs"); d[b[i].n - 1] = 0; ::free(d); drop(i); vp_cover("dup"); break; }
				default: if (vp_choice(2)) { TLS::AutoFree af(&t, b[i].p); } else { size_t h = vp_heap_live(); t.free(b[i].p, false); vp_assert(vp_heap_live() == h - 1, "uncached free does not return the memory"); } drop(i);
			}
			verify();
		}
		account(t); while (nb) { curthr = b[0].thr; t.free(b[0].p); drop(0); } account(t);
		for (curthr = 0; curthr < 2; curthr++) { size_t cn, cs, tot = 0; for (size_t k = 0; t.GetBucketInfo(k, cn, cs); k++) { tot++; vp_assert(cs >= cn * ((size_t)1 << k), "bucket statistics"); } vp_assert(tot == mb, "bucket statistics"); vp_assert(t.ThreadEnd() && !t.ThreadEnd(), "thread end"); }
	}
	vp_assert(vp_heap_live() == 0, "memory not released exactly once");
}
