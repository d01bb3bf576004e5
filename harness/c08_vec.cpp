// StaticVector / Static2DArray as values over an element type that counts and frees itself.
#include "vp.h"
#include <cstddef>
#include <cstdlib>
#include "templates/static_vector.h"
#include "templates/static_2d_array.h"
using namespace CubicleSoft;
static int live;
struct E {   // owns heap storage: a missed copy or destructor shows up as leak, double free or dangling value
	uint32_t *p; E() : p(new uint32_t(7)) { live++; } E(const E &o) : p(new uint32_t(*o.p)) { live++; } ~E() { delete p; live--; }
	E &operator=(const E &o) { *p = *o.p; return *this; } E &operator=(uint32_t v) { *p = v; return *this; }
	bool operator==(const E &o) const { return *p == *o.p; } uint32_t v() const { return *p; }
};
static uint32_t val(const E &e) { return e.v(); } static uint32_t val(uint32_t e) { return e; }
template <class T> static void vec() {
	size_t n = vp_choice(N + 1), m = vp_choice(N + 1); uint32_t a[N + 1], b[N + 1];
	{
		StaticVector<T> x(n), y(m);
		vp_assert(x.GetSize() == n && y.GetSize() == m, "size");
		for (size_t i = 0; i < n; i++) { a[i] = vp_u32(); x[i] = a[i]; }
		for (size_t i = 0; i < m; i++) { b[i] = vp_u32(); y[i] = b[i]; }
		for (size_t i = 0; i < n; i++) vp_assert(val(x[i]) == a[i] && val(x.RawData()[i]) == a[i], "element not independently stored");
		bool eq = n == m; for (size_t i = 0; i < n && eq; i++) eq = vp_split(a[i] == b[i]);
		vp_assert((x == y) == eq && (x != y) == !eq && (y == x) == eq, "equality");
		StaticVector<T> c(x); vp_assert(c == x && c.GetSize() == n, "copy differs");
		if (n) { uint32_t z = vp_u32(); size_t k = vp_choice(n); c[k] = z; vp_assert(val(x[k]) == a[k], "copy shares storage"); x[k] = a[k] + 1; vp_assert(val(c[k]) == z, "source shares storage"); x[k] = a[k]; }
		StaticVector<T> &r = (y = x); vp_assert(&r == &y && y == x && y.GetSize() == n, "assigned vector differs");
		for (size_t i = 0; i < n; i++) vp_assert(val(y[i]) == a[i], "assigned element differs");
		y = *&y; vp_assert(y == x, "self assignment");
		if (n) { size_t k = vp_choice(n); y[k] = a[k] + 5; vp_assert(val(x[k]) == a[k], "assigned vector shares storage"); vp_cover("vec"); }
		c = y; c = x; vp_assert(c == x, "repeated assignment");
	}
}
template <class T> static void arr() {
	size_t w = vp_choice(W + 1), h = vp_choice(W + 1), w2 = vp_choice(W + 1), h2 = vp_choice(W + 1); uint32_t a[W + 1][W + 1], b[W + 1][W + 1];
	{
		Static2DArray<T> x(w, h), y(w2, h2);
		vp_assert(x.GetWidth() == w && x.GetHeight() == h, "size");
		for (size_t i = 0; i < h; i++) for (size_t j = 0; j < w; j++) { a[i][j] = vp_u32(); x[i][j] = a[i][j]; }
		for (size_t i = 0; i < h2; i++) for (size_t j = 0; j < w2; j++) { b[i][j] = vp_u32(); y[i][j] = b[i][j]; }
		for (size_t i = 0; i < h; i++) for (size_t j = 0; j < w; j++) vp_assert(val(x[i][j]) == a[i][j] && val(x.RawData()[i][j]) == a[i][j], "element not independently stored");
		bool eq = w == w2 && h == h2; for (size_t i = 0; i < h && eq; i++) for (size_t j = 0; j < w && eq; j++) eq = vp_split(a[i][j] == b[i][j]);
		vp_assert((x == y) == eq && (x != y) == !eq, "equality");
		Static2DArray<T> c(x); vp_assert(c == x, "copy differs");
		for (size_t i = 0; i < h; i++) for (size_t j = 0; j < w; j++) { vp_assert(val(c[i][j]) == a[i][j], "copied element differs"); c[i][j] = a[i][j] + 1; vp_assert(val(x[i][j]) == a[i][j], "copy shares storage"); }
		Static2DArray<T> &r = (y = x); vp_assert(&r == &y && y.GetWidth() == w && y.GetHeight() == h && y == x, "assigned array differs");
		for (size_t i = 0; i < h; i++) for (size_t j = 0; j < w; j++) { vp_assert(val(y[i][j]) == a[i][j], "assigned element differs"); y[i][j] = a[i][j] + 3; vp_assert(val(x[i][j]) == a[i][j], "assigned array shares storage"); vp_cover("arr"); }
		y = *&y; y = x; vp_assert(y == x, "repeated assignment");
	}
}
extern "C" void vp_main() {
	switch (vp_choice(4)) { case 0: vec<E>(); break; case 1: vec<uint32_t>(); break; case 2: arr<E>(); break; default: arr<uint32_t>(); }
	vp_assert(live == 0 && vp_heap_live() == 0, "elements or storage not released exactly once");
}
