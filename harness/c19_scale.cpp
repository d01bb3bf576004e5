// Long texts, patterns and replacements (beyond a byte, the growth step and a 16-bit word), an arbitrary element in one place.
typedef char T;
#include "ffr_common.h"
#include <cstring>
static Mgr mg; static bool fold2(const T &a, const T &b) { return a == b; }
static bool eqat(const T *a, const T *b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return false; return true; }
extern "C" void vp_main() {
	static const size_t N[] = { 1023, 1024, 1030, 5000, 66000 }, PL[] = { 1, 2, 255, 256, 300 }, RL[] = { 0, 1, 255, 256, 300, 1025 };
	size_t n = N[vp_choice(5)], l = PL[vp_choice(5)], rl = RL[vp_choice(6)]; if (n > 30000 && (l == 255 || rl == 255)) vp_end();
	T *t = new T[n], *p = new T[l], *rp = new T[rl ? rl : 1]; for (size_t i = 0; i < n; i++) t[i] = '.'; for (size_t i = 0; i < l; i++) p[i] = (T)('A' + i % 25); for (size_t i = 0; i < rl; i++) rp[i] = (T)(i * 3 + 1);
	size_t every = l + (l > 100 ? 37 : 97); for (size_t i = 5; i + l <= n; i += every) memcpy(t + i, p, l); if (vp_choice(2)) memcpy(t + n - l, p, l); size_t sy = vp_choice(2) ? 5 : n - 1; t[sy] = (T)vp_u8(); bool hit = vp_split(t[sy] == p[sy == 5 ? 0 : l - 1]); if (hit) t[sy] = p[sy == 5 ? 0 : l - 1]; else vp_cover("an arbitrary other element"); T *sent = t + sy; T keep = *sent;
	T *e = new T[n * 11 + n / every * rl + 2000]; size_t k = 0, cnt = 0; static const size_t lims[] = { ~(size_t)0, 3 }; size_t limit = lims[vp_choice(2)];
	for (size_t i = 0; i < n;) if (cnt < limit && n - i >= l && eqat(t + i, p, l)) { memcpy(e + k, rp, rl); k += rl; i += l; cnt++; } else e[k++] = t[i++];
	vp_assert(*sent == keep, "text"); T *r = NULL; size_t rs = 0, c; unsigned mode = vp_choice(4);
	if (mode == 0) { c = FastReplace<T>::ReplaceAll(r, rs, t, n, p, l, rp, rl, limit); vp_assert(vp_accessible(r, k + 1), "no room for a terminator"); }
	else if (mode == 1) { c = FastReplaceAllocCompare<T, Alloc, Eq>::ReplaceAll(r, rs, t, n, p, l, rp, rl, (Alloc *)&mg, fold2, limit); }
	else { size_t cap = mode == 2 ? k : k - k / 3; r = new T[cap]; rs = cap; c = FastReplace<T>::StaticReplaceAll(r, rs, t, n, p, l, rp, rl, limit); if (cap < k) { k = cap; vp_assert(c <= cnt, "number of replacements"); cnt = c; vp_cover("truncated"); } }
	vp_assert(c == cnt, "number of replacements"); vp_assert(rs == k, "result size differs"); vp_assert(eqat(r, e, k), "result differs from textbook replacement"); if (cnt > 2) vp_cover("replaced");
	if (mode == 1) Alloc::free(&mg, r); else if (mode == 0) delete[] (char *)r; else delete[] r;
	delete[] t; delete[] p; delete[] rp; delete[] e; vp_assert(vp_heap_live() == 0 && mg.live == 0, "storage not freed exactly once");
}
