// LineInput over every file content of up to SIZE bytes, for size hints around the line lengths, with short reads and with and without an own allocator.
#include "fs_common.h"
#include "utf8/utf8_util.cpp"
#include "utf8/utf8_file_dir.cpp"
using namespace CubicleSoft::UTF8;
static size_t asked; static int blocks;
static void *re(void *m, void *p, size_t n) { vp_assert(m == &blocks, "manager"); if (!p) { blocks++; asked = n; return malloc(n); } char *r = (char *)malloc(n); vp_assert(n >= asked, "block shrinks"); memcpy(r, p, asked); free(p); asked = n; return r; }
extern "C" void vp_main() {
	size_t n = vp_choice(SIZE + 1); vf_make(0, "f", n); vp_sym_bytes(vf[0].data, n); uint8_t ref[SIZE + 1]; memcpy(ref, vf[0].data, n); size_t heap = vp_heap_live();
	{
		File f; vp_assert(!f.LineInput(), "line without a file"); bool ok = f.Open("f", O_RDONLY); vp_assert(ok, "open"); static const size_t hints[] = { HINTS }; size_t hint = hints[vp_choice(sizeof(hints) / sizeof(hints[0]))]; bool own = vp_choice(2); faults = FAULTS; fault_kinds = 6; size_t pos = 0;
		for (int line = 0; line <= SIZE + 1; line++) {
			bool at_end = pos == n; vp_assert(f.GetCurrPos() == pos, "position is not at the start of the next line");
			char *s = own ? f.LineInput(hint, &blocks, re) : f.LineInput(hint); vp_assert(s != NULL, "no line");
			size_t e = pos; while (e < n && !vp_split(ref[e] == '\n') && !vp_split(ref[e] == '\r')) e++;
			for (size_t i = pos; i < e; i++) vp_assert(s[i - pos] == (vp_split(ref[i] == 0) ? ' ' : (char)ref[i]), "line differs from the file");
			vp_assert(s[e - pos] == 0, "line is longer or shorter than in the file"); if (e < n) e += ref[e] == '\r' && e + 1 < n && vp_split(ref[e + 1] == '\n') ? 2 : 1; pos = e;
			if (own) { free(s); blocks--; } else delete[] s;
			if (at_end) { vp_assert(f.GetCurrPos() == n && f.GetMaxPos() == n, "end of file"); vp_cover("end"); break; }
		}
		vp_assert(f.GetCurrPos() == n, "lines end before the file does");
	}
	vp_assert(openfds == 0 && blocks == 0 && vp_heap_live() == heap, "storage not released");
}
