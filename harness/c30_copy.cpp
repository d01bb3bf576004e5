// Copy and move between files of lengths around the transfer size, onto missing, shorter, longer and identical destinations, under up to FAULTS failing, interrupted or short calls.
#define CAPF 24600
#include "fs_common.h"
static bool unlinked, crossdev;
static int look(const char *p) { return vf_find(p); }
extern "C" int vp_stub_rename(const char *a, const char *b) {
	if (fail(EACCES)) return -1; int i = look(a), k = look(b); if (i < 0 || !vf[i].exists) { errno = ENOENT; return -1; } vp_assert(k >= 0, "moves to another place"); if (crossdev) { errno = EXDEV; return -1; } if (i == k) return 0;
	uint8_t *t = vf[k].data; vf[k].data = vf[i].data; vf[i].data = t; vf[k].size = vf[i].size; vf[k].mode = vf[i].mode; vf[k].mtime = vf[i].mtime; vf[k].exists = true; vf[i].exists = false; return 0;
}
extern "C" int vp_stub_unlink(const char *p) { if (fail(EACCES)) return -1; int i = look(p); if (i < 0 || !vf[i].exists) { errno = ENOENT; return -1; } vf[i].exists = false; unlinked = true; return 0; }
extern "C" int vp_stub_remove(const char *p) { return vp_stub_unlink(p); }
static bool no_own, no_mod, no_tim; // the system refused that change
extern "C" int vp_stub_chown(const char *p, uid_t u, gid_t g) { if (fail(EPERM)) { no_own = true; return -1; } int i = look(p); vp_assert(i == 1, "changes the owner of another file"); vf[i].uid = u; vf[i].gid = g; return 0; }
extern "C" int vp_stub_chmod(const char *p, mode_t m) { if (fail(EPERM)) { no_mod = true; return -1; } int i = look(p); vp_assert(i == 1, "changes the mode of another file"); vf[i].mode = (vf[i].mode & ~07777) | (m & 07777); return 0; }
extern "C" int vp_stub_fchown(int fd, uid_t u, gid_t g) { VFd *d = vf_fd(fd, "fd"); if (fail(EPERM)) { no_own = true; return -1; } vf[d->f].uid = u; vf[d->f].gid = g; return 0; }
extern "C" int vp_stub_fchmod(int fd, mode_t m) { VFd *d = vf_fd(fd, "fd"); if (fail(EPERM)) { no_mod = true; return -1; } vf[d->f].mode = (vf[d->f].mode & ~07777) | (m & 07777); return 0; }
extern "C" int vp_stub_utime(const char *p, const struct utimbuf *t) { if (fail(EPERM)) { no_tim = true; return -1; } int i = look(p); vp_assert(i == 1, "changes the times of another file"); vf[i].mtime = t->modtime; vf[i].atime = t->actime; return 0; }
extern "C" int vp_stub_utimes(const char *p, const struct timeval *t) { if (fail(EPERM)) { no_tim = true; return -1; } int i = look(p); vp_assert(i == 1, "changes the times of another file"); vf[i].mtime = t[1].tv_sec; vf[i].atime = t[0].tv_sec; return 0; }
#include "utf8/utf8_util.cpp"
#include "utf8/utf8_file_dir.cpp"
using namespace CubicleSoft::UTF8;
static uint8_t orig[CAPF]; static size_t osize;
static bool is_orig(int i) { if (!vf[i].exists || vf[i].size != osize) return false; return osize == 0 || memcmp(vf[i].data, orig, osize) == 0; }
extern "C" void vp_main() {
	static const size_t ss[] = { 0, 1, 8191, 8192, 8193, 16384, 16390 }; osize = ss[vp_choice(NSIZE)]; vf_make(0, "s", osize); for (size_t i = 0; i < osize; i++) vf[0].data[i] = (uint8_t)(i * 7 + (i >> 8)); for (size_t i = 0; i < osize; i += (osize > 4096 ? 4096 : 1)) vf[0].data[i] = vp_u8(); if (osize > 1) vf[0].data[osize - 1] = vp_u8(); memcpy(orig, vf[0].data, osize); vf[0].mode = 0100640; vf[0].mtime = 5000; vf[0].uid = 7; vf[0].gid = 8;
	vf[1].name = "d"; vf[1].data = (uint8_t *)malloc(CAPF); unsigned dk = vp_choice(4); static const size_t ds[] = { 0, 3, 16395 }; if (dk < 3) { vf_make(1, "d", ds[dk]); memset(vf[1].data, 0xEE, ds[dk]); }
	bool move = vp_choice(2); crossdev = !move || vp_choice(2); faults = FAULTS; bool dir = false; if (dk == 0 && vp_choice(2)) { dir = true; vf[0].mode = 0040755; }
	bool ok = move ? File::Move("s", "d") : File::Copy("s", "d"); faults = 0;
	vp_assert(openfds == 0 && !vf[0].exlock && !vf[0].shlock, "files stay open");
	if (dir) { if (!move || crossdev) vp_assert(!ok && !unlinked, "copies something that is not a file"); return; }
	if (ok) { vp_assert(is_orig(1), "success is reported but the destination differs from the source"); vp_cover("success"); if (!move || crossdev) { vp_assert(no_mod || (vf[1].mode & 0777) == 0640, "mode of the copy"); vp_assert(no_own || (vf[1].uid == 7 && vf[1].gid == 8), "owner of the copy"); vp_assert(no_tim || used_error || vf[1].mtime == 5000, "time of the copy"); } }
	else { vp_assert(used_error, "fails without cause"); if (FAULTS) vp_cover("failure reported"); }
	if (!move) vp_assert(is_orig(0), "copying changes the source"); else if (!is_orig(0)) { vp_assert(is_orig(1), "moving lost the data"); vp_assert(ok, "moved, but failure is reported"); }
	if (move && ok && !used_error) vp_assert(!vf[0].exists, "moving leaves the source");
}
