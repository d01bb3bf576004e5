// Long texts in thread-local variables, in blocks the cache keeps and in blocks it does not: set, append, prepend, resize, replace, copy.
#include "tls_common.h"
typedef TLS::MixedVar V;
static char *m, *src; static size_t n;
static void same(V &v) { vp_assert(v.GetSize() == n, "length differs from the textbook string"); vp_assert(v.GetStr()[n] == 0, "text is not NUL terminated"); vp_assert(!memcmp(v.GetStr(), m, n), "text differs from the textbook string"); }
extern "C" void vp_main() {
	{
		TLS t; t.ThreadInit(vp_choice(2) ? 15 : 6); m = new char[200000]; src = new char[70000]; uint8_t base = vp_u8(); for (size_t i = 0; i < 70000; i++) src[i] = (char)(base ^ (i * 7 + i / 256));
		static const size_t L[] = { 1, 63, 64, 255, 256, 257, 1024, 4094, 4096, 16383, 32760, 65535, 65536, 66000 };
		{ V v(&t); size_t k = L[vp_choice(14)]; v.SetData(src, k); memcpy(m, src, k); n = k; same(v);
		k = L[vp_choice(14)];
		switch (vp_choice(6)) {
			case 0: v.AppendData(src, k); memcpy(m + n, src, k); n += k; vp_cover("appended"); break;
			case 1: v.PrependData(src, k); memmove(m + k, m, n); memcpy(m, src, k); n += k; vp_cover("prepended"); break;
			case 2: { size_t o = n; v.SetSize(k); vp_assert(v.GetSize() == k && v.GetStr()[k] == 0, "SetSize"); for (size_t i = o; i < k; i++) v.GetStr()[i] = m[i] = 'q'; n = k; vp_cover("resized"); break; }
			case 3: { V c(v), d; d = v; v.SetData(src, k); same(c); same(d); memcpy(m, src, k); n = k; vp_cover("copied"); break; }
			case 4: v.SetData(src, k); memcpy(m, src, k); n = k; break;
			default: { size_t a = n / 2; v.SetSize(a); vp_assume(base == 0); size_t o = 0, cnt = 0; for (size_t i = 0; i < a;) { if (i + 1 < a && src[i] == 7 && src[i + 1] == 14) { memcpy(m + o, "LONGER", 6); o += 6; i += 2; cnt++; } else m[o++] = src[i++]; } size_t c = v.ReplaceData("\x07\x0e", 2, "LONGER", 6); vp_assert(c == cnt, "number of replacements"); n = o; if (cnt > 10) vp_cover("replaced"); break; }
		}
		same(v); v.AppendChar('x'); m[n++] = 'x'; same(v); } delete[] m; delete[] src; t.ThreadEnd();
	}
	vp_assert(vp_heap_live() == 0, "memory not released exactly once");
}
