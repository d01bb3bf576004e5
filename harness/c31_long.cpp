// Removal of trees whose paths approach and exceed the internal limit: a path is handed to the system complete or not at all.
#define OWN_DIR
#include "dir_common.h"
static char base[8300]; static size_t L, lens[3]; static int levels; static struct dirent ent; static int at[4], removed;   // level i+1 is the only entry of level i; the last one is a file
static bool is_level(const char *p, size_t l, int level) {   // length, the end of the base and everything after it
	size_t n = L; for (int i = 0; i < level; i++) n += 1 + lens[i]; if (l != n) return false; if (!vp_split(p[0] == '/' && p[100] == '/' && p[L - 2] == base[L - 2] && p[L - 1] == base[L - 1])) return false;
	n = L; for (int i = 0; i < level; i++) { if (p[n++] != '/') return false; for (size_t k = 0; k < lens[i]; k++) if (p[n++] != 'b' + i) return false; } return true;
}
static int level_of(const char *p) { size_t l = strlen(p); for (int i = 0; i <= levels; i++) if (is_level(p, l, i)) return i; return -1; }
extern "C" int vp_stub_lstat(const char *p, struct stat *s) { int k = level_of(p); if (k < 0) { errno = ENOENT; return -1; } memset(s, 0, sizeof(*s)); s->st_mode = k == levels ? S_IFREG : S_IFDIR; return 0; }
extern "C" int vp_stub_stat(const char *p, struct stat *s) { return vp_stub_lstat(p, s); }
extern "C" DIR *vp_stub_opendir(const char *p) { int k = level_of(p); if (k < 0) { errno = ENOENT; return NULL; } if (k == levels) { errno = ENOTDIR; return NULL; } at[k] = 0; opendirs++; return (DIR *)&at[k]; }
extern "C" int vp_stub_closedir(DIR *) { opendirs--; return 0; }
extern "C" struct dirent *vp_stub_readdir(DIR *d) { int k = (int)((int *)d - at); if (at[k]++) return NULL; memset(ent.d_name, 'b' + k, lens[k]); ent.d_name[lens[k]] = 0; return &ent; }
extern "C" int vp_stub_unlink(const char *p) { int k = level_of(p); vp_assert(k == levels, "deletes another path"); removed++; return 0; }
extern "C" int vp_stub_rmdir(const char *p) { int k = level_of(p); vp_assert(k >= 0 && k < levels, "deletes another path"); if (k == 0) return removed == levels ? 0 : (errno = ENOTEMPTY, -1); if (removed == levels - k) { removed++; return 0; } errno = ENOTEMPTY; return -1; }
#include "utf8/utf8_util.cpp"
#include "utf8/utf8_file_dir.cpp"
using namespace CubicleSoft::UTF8;
extern "C" void vp_main() {
	static const size_t bl[] = { 8150, 8170, 8176, 8177, 8178, 8183, 8184, 8185, 8186, 8187, 8188, 8189, 8190, 8191, 8192 }; L = bl[vp_choice(15)]; memset(base, 'a', L); base[0] = '/'; for (size_t i = 100; i + 2 < L; i += 200) base[i] = '/'; base[L - 1] = (char)vp_range('b', 'z'); base[L] = 0; levels = 1 + (int)vp_choice(2); static const size_t ls[] = { 1, 2, 12 }; for (int i = 0; i < levels; i++) lens[i] = ls[vp_choice(3)];
	bool ok = Dir::Rmdir(base, true); vp_assert(opendirs == 0, "directories stay open"); if (ok) { vp_assert(removed == levels, "result of the removal"); vp_cover("removed"); } else vp_cover("kept");
}
