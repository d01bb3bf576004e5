// Directory listings: every entry once and in the order delivered, complete names or a refused read, exactly one close.
#include "dir_common.h"
#include "utf8/utf8_util.cpp"
#include "utf8/utf8_file_dir.cpp"
using namespace CubicleSoft::UTF8;
extern "C" int vp_stub_unlink(const char *) { vp_assert(false, "deletes"); return -1; }
extern "C" int vp_stub_rmdir(const char *) { vp_assert(false, "deletes"); return -1; }
extern "C" void vp_main() {
	add(0, T_DIR, ""); int w = add(0, T_DIR, "w"), o = add(0, T_DIR, "o"); add(o, T_FILE, "oo"); int first = nnode;
	for (int i = 0; i < NE; i++) { if (vp_choice(4) == 3) break; int n = add(w, (int)vp_choice(2) ? T_FILE : T_DIR, ""); char *s = dn[n].name; dn[n].len = 1 + vp_choice(NLEN); vp_sym_bytes(s, dn[n].len); for (size_t k = 0; k < dn[n].len; k++) vp_assume(s[k] != 0 && s[k] != '/'); s[dn[n].len] = 0; }
	int ne = nnode - first, file = add(0, T_FILE, "f"); (void)file;
	{
		Dir d; int at = -1, list = 0;   // at: next entry of the open listing, list: which directory
		for (int st = 0; st < STEPS; st++) {
			unsigned op = vp_choice(3);
			if (op == 0) { unsigned k = vp_choice(4); bool ok = d.Open(k == 0 ? "." : k == 1 ? "/o" : k == 2 ? "/none" : "/f"); vp_assert(ok == (k < 2), "result of opening"); at = ok ? 0 : -1; list = (int)k; vp_assert(opendirs == (ok ? 1 : 0), "directories stay open"); }
			else if (op == 1) { bool ok = d.Close(); vp_assert(ok == (at >= 0), "result of closing"); at = -1; vp_assert(opendirs == 0, "directories stay open"); }
			else {
				size_t cap = vp_choice(NL + 1); char *b = (char *)malloc(cap); bool ok = d.Read(b, cap); if (at < 0) vp_assert(!ok, "reads a closed directory");
				else {
					int total = 2 + (list ? 1 : ne); if (at == total) { vp_assert(!ok && opendirs == 0, "end of the listing"); at = -1; vp_cover("end"); }
					else { const char *e = at == 0 ? "." : at == 1 ? ".." : list ? "oo" : dn[first + at - 2].name; size_t l = strlen(e); at++; vp_assert(ok == (l < cap), "result of reading an entry"); if (ok) { for (size_t i = 0; i <= l; i++) vp_assert(b[i] == e[i], "entry name differs"); vp_cover("entry"); } }
				}
				free(b);
			}
		}
	}
	vp_assert(opendirs == 0, "directories stay open");
}
