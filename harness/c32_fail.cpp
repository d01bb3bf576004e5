// LineInput when reading fails at any point, once or for good: the text returned is still text of the file at that place, nothing is skipped or invented.
#include "fs_common.h"
#include "utf8/utf8_util.cpp"
#include "utf8/utf8_file_dir.cpp"
using namespace CubicleSoft::UTF8;
extern "C" void vp_main() {
	size_t n = vp_choice(SIZE + 1); vf_make(0, "f", n); vp_sym_bytes(vf[0].data, n); uint8_t ref[SIZE + 1]; memcpy(ref, vf[0].data, n); size_t heap = vp_heap_live();
	{
		File f; bool ok = f.Open("f", O_RDONLY); vp_assert(ok, "open"); static const size_t hints[] = { HINTS }; size_t hint = hints[vp_choice(sizeof(hints) / sizeof(hints[0]))]; seek_sure = true; faults = vp_choice(2) ? 1 : 1000; fault_kinds = 1; size_t pos = 0;
		for (int line = 0; line < LINES; line++) {
			char *s = f.LineInput(hint); vp_assert(s != NULL, "no line"); size_t e = pos, l = strlen(s); while (e < n && !vp_split(ref[e] == '\n') && !vp_split(ref[e] == '\r')) e++;
			vp_assert(l <= e - pos, "line is longer than in the file"); for (size_t i = 0; i < l; i++) vp_assert(s[i] == (vp_split(ref[pos + i] == 0) ? ' ' : (char)ref[pos + i]), "line differs from the file"); delete[] s;
			size_t p = (size_t)f.GetCurrPos(); if (l < e - pos) { vp_assert(used_fault, "line is shorter than in the file"); vp_assert(p == pos + l, "text is skipped after a failing read"); vp_cover("line cut by a failing read"); }
			else { size_t q = e; if (e < n) q += ref[e] == '\r' && e + 1 < n && vp_split(ref[e + 1] == '\n') ? 2 : 1; vp_assert(p >= e && p <= q && (used_fault || p == q), "position after the line"); }
			pos = p;
		}
	}
	vp_assert(openfds == 0 && vp_heap_live() == heap, "storage not released");
}
