// Copying or moving a file onto itself (same name, or another name of the same file), and onto a destination in use, loses nothing.
#define CAPF 24600
#include "fs_common.h"
static bool unlinked;
extern "C" int vp_stub_rename(const char *a, const char *b) { if (fail(EACCES)) return -1; int i = vf_find(a), k = vf_find(b); if (i < 0 || !vf[i].exists) { errno = ENOENT; return -1; } if (i == k) return 0; errno = EXDEV; return -1; }
extern "C" int vp_stub_unlink(const char *p) { if (fail(EACCES)) return -1; unlinked = true; int i = vf_find(p); vp_assert(i == 0, "unlinks another file"); vf[0].exists = false; return 0; }
extern "C" int vp_stub_chown(const char *, uid_t, gid_t) { return 0; }
extern "C" int vp_stub_chmod(const char *, mode_t) { return 0; }
extern "C" int vp_stub_utime(const char *, const struct utimbuf *) { return 0; }
extern "C" int vp_stub_utimes(const char *, const struct timeval *) { return 0; }
#include "utf8/utf8_util.cpp"
#include "utf8/utf8_file_dir.cpp"
using namespace CubicleSoft::UTF8;
extern "C" void vp_main() {
	vf_make(0, "s", 5); vp_sym_bytes(vf[0].data, 5); uint8_t o[5]; memcpy(o, vf[0].data, 5); vf_alias = "l"; vf_make(1, "d", 2);
	unsigned k = vp_choice(3); bool move = vp_choice(2); const char *dst = k == 0 ? "s" : k == 1 ? "l" : "d"; File hold; if (k == 2) { bool c = hold.Open("d", O_RDONLY, File::ShareRead); vp_assert(c, "open"); }
	faults = FAULTS; bool ok = move ? File::Move("s", dst) : File::Copy("s", dst);
	vp_assert(vf[0].exists && !unlinked && vf[0].size == 5 && !memcmp(vf[0].data, o, 5), "the file is lost");
	if (k < 2) { if (!move) vp_assert(!ok, "copies a file onto itself"); vp_cover("same file"); } else { vp_assert(!ok && vf[1].size == 2, "overwrites a file that is locked"); vp_cover("locked"); }
}
