// Recursive removal of a tree with NE entries of any kind and arbitrary names of up to NLEN bytes: removes exactly the tree, never anything else.
#include "dir_common.h"
static int top, removed;
extern "C" int vp_stub_unlink(const char *p) { int i = resolve(p, false); if (i >= 0) vp_assert(inside(i, top) && i != top, "deletes something outside the tree"); if (fail(EACCES)) return -1; if (i < 0) return -1; if (dn[i].type == T_DIR) { errno = EISDIR; return -1; } dn[i].exists = false; removed++; return 0; }
extern "C" int vp_stub_rmdir(const char *p) { int i = resolve(p, false); if (i >= 0) vp_assert(inside(i, top), "deletes something outside the tree"); if (fail(EACCES)) return -1; if (i < 0) return -1; if (dn[i].type != T_DIR) { errno = ENOTDIR; return -1; } for (int j = 1; j < nnode; j++) if (dn[j].exists && dn[j].parent == i) { errno = ENOTEMPTY; return -1; } dn[i].exists = false; removed++; return 0; }
extern "C" int vp_stub_remove(const char *p) { int i = resolve(p, false); return i >= 0 && dn[i].type == T_DIR ? vp_stub_rmdir(p) : vp_stub_unlink(p); }
#include "utf8/utf8_util.cpp"
#include "utf8/utf8_file_dir.cpp"
using namespace CubicleSoft::UTF8;
extern "C" void vp_main() {
	add(0, T_DIR, ""); int w = add(0, T_DIR, "w"), o = add(0, T_DIR, "o"); add(o, T_FILE, "x"); int od = add(o, T_DIR, "d"); add(od, T_FILE, "z"); int near = add(w, T_FILE, "u"); (void)near;
	int tk = (int)vp_choice(3); top = add(w, tk == 0 ? T_DIR : tk == 1 ? T_LINK : T_FILE, "t", o); int first = nnode; bool plain = true;
	if (tk == 0) for (int i = 0; i < NE; i++) {
		unsigned kind = vp_choice(6); if (kind == 5) break; int par = top; if (i && vp_choice(2)) { par = nnode - 1; if (dn[par].type != T_DIR) vp_end(); }
		int n = add(par, kind < 2 ? T_DIR : kind == 2 ? T_FILE : T_LINK, "", kind == 3 ? o : kind == 4 ? top : -1); if (kind == 1) { add(n, T_FILE, "q"); add(n, T_LINK, "l", od); }
		size_t len = 1 + vp_choice(NLEN); char *s = dn[n].name; dn[n].len = len; vp_sym_bytes(s, len); s[len] = 0; for (size_t k = 0; k < len; k++) { vp_assume(s[k] != 0 && s[k] != '/'); if (!vp_split((s[k] >= 'a' && s[k] <= 'z') || s[k] == '.')) plain = false; } if (len == 1) vp_assume(s[0] != '.'); if (len == 2) vp_assume(!(s[0] == '.' && s[1] == '.'));
		for (int k = 1; k < n; k++) if (dn[k].parent == par && dn[k].len == len) { bool same = true; for (size_t x = 0; x < len; x++) same = same && dn[k].name[x] == s[x]; vp_assume(!same); }
	}
	int total = nnode; bool rec = vp_choice(2); faults = FAULTS; size_t heap = 0; (void)heap;
	bool ok = Dir::Rmdir(vp_choice(2) ? "t" : "/w/./t/", rec); vp_assert(opendirs == 0, "directories stay open");
	for (int i = 0; i < top; i++) vp_assert(dn[i].exists, "deletes something outside the tree"); vp_assert(ok == !dn[top].exists, "result of the removal");
	if (tk) vp_assert(!ok && !removed, "removes through a link or a file"); else if (!rec) { vp_assert(removed == (ok ? 1 : 0) && (used_error || ok == (total == first)), "plain removal"); if (!FAULTS) vp_cover("plain"); }
	else { if (ok) { for (int i = first; i < total; i++) vp_assert(!dn[i].exists, "entries left"); if (total - first >= NE) vp_cover("tree removed"); } else vp_assert(used_error || !plain, "removal fails without cause"); if (!plain) vp_cover("odd names"); }
}
