// Large vectors and arrays: every element, copies and equality, where sizes no longer fit a byte; the values are arbitrary.
#include "vp.h"
#include <cstddef>
#include <cstdlib>
#include "templates/static_vector.h"
#include "templates/static_2d_array.h"
using namespace CubicleSoft;
extern "C" void vp_main() {
	uint32_t base = vp_u32();
	if (vp_choice(2)) {
		unsigned big = vp_choice(11); size_t n = big == 10 ? 66000 : 250 + big; StaticVector<uint32_t> x(n); for (size_t i = 0; i < n; i++) x[i] = base ^ (uint32_t)(i * 7); StaticVector<uint32_t> c(x), y(3); y = x; vp_assert(c.GetSize() == n && y.GetSize() == n && c == x && y == x, "copy differs");
		for (size_t i = 0; i < n; i++) vp_assert(x[i] == (base ^ (uint32_t)(i * 7)) && c[i] == x[i] && y[i] == x[i], "element differs"); size_t k = vp_choice(2) ? n - 1 : n > 300 ? 65536 : vp_choice((unsigned)n); c[k]++; vp_assert(c != x && !(c == x) && y == x, "one different element goes unnoticed"); vp_cover("vector");
	} else {
		size_t w = vp_choice(2) ? 3 : 90, h = vp_choice(2) ? 2 : 88; Static2DArray<uint32_t> x(w, h); for (size_t i = 0; i < h; i++) for (size_t j = 0; j < w; j++) x[i][j] = base ^ (uint32_t)(i * 1000 + j); Static2DArray<uint32_t> c(x), y(1, 1); y = x; vp_assert(c == x && y == x && y.GetWidth() == w && y.GetHeight() == h, "copy differs");
		for (size_t i = 0; i < h; i++) for (size_t j = 0; j < w; j++) vp_assert(x[i][j] == (base ^ (uint32_t)(i * 1000 + j)) && c[i][j] == x[i][j] && y[i][j] == x[i][j], "element differs"); c[h - 1][w - 1]++; y[0][0]++; vp_assert(c != x && y != x && !(c == x) && !(y == x), "one different element goes unnoticed"); vp_cover("array");
	}
}
