// LoadEntireFile: exactly the content, or failure with nothing kept, under up to FAULTS failing, interrupted or short calls.
#include "fs_common.h"
#include "utf8/utf8_util.cpp"
#include "utf8/utf8_file_dir.cpp"
using namespace CubicleSoft::UTF8;
static int mgr; static int blocks; static void *al(void *m, size_t n) { vp_assert(m == &mgr, "manager"); blocks++; return malloc(n); } static void fr(void *m, void *p) { vp_assert(m == &mgr, "manager"); blocks--; free(p); }
extern "C" void vp_main() {
	size_t n = vp_choice(SIZE + 1); vf_make(0, "f", n); vp_sym_bytes(vf[0].data, n); size_t heap = vp_heap_live(); unsigned nm = vp_choice(3); bool own = vp_choice(2); faults = FAULTS; char *r = (char *)&mgr; size_t got = 99;
	bool ok = own ? File::LoadEntireFile(nm == 0 ? "f" : nm == 1 ? "g" : "a|b", r, got, &mgr, al, fr) : File::LoadEntireFile(nm == 0 ? "f" : nm == 1 ? "g" : "a|b", r, got); vp_assert(openfds == 0, "file stays open");
	if (ok) { vp_assert(nm == 0 && got == n && r, "loaded size"); for (size_t i = 0; i < n; i++) vp_assert((uint8_t)r[i] == vf[0].data[i], "loaded content"); if (own) { vp_assert(blocks == 1, "blocks"); fr(&mgr, r); } else delete[] r; vp_cover("loaded"); }
	else { vp_assert(nm || used_fault, "fails without cause"); vp_assert(r == NULL && got == 0, "result of a failed load"); vp_cover("failed"); }
	vp_assert(blocks == 0 && vp_heap_live() == heap, "storage not released");
}
