// Operations on metadata: exactly one change, to exactly the named file, with exactly the values given; nothing for refused names and unknown users.
#include "vp.h"
#include "u8ref.h"
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <pwd.h>
#include <grp.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
enum { NONE, CHMOD, CHOWN, UNLINK, SYMLINK, UTIMES };
static int changes, kind, r; static char seen[NF + 4], seen2[NF + 4]; static unsigned s_mode, s_uid, s_gid; static uint64_t t_sec[2], t_usec[2]; static uint64_t st_a, st_m, st_an, st_mn; static bool statbad; static int stats, lstats; static unsigned mark;
static char ref[NF + 4]; static size_t n; static struct passwd pw; static struct group gr; static bool known; static const char *who; static int uask, gask;
static int rec(int k, const char *p) { changes++; kind = k; vp_assert(strlen(p) < sizeof(seen), "path"); strcpy(seen, p); if (r) errno = EACCES; return r; }
extern "C" int vp_stub_chmod(const char *p, mode_t m) { s_mode = m; return rec(CHMOD, p); }
extern "C" int vp_stub_chown(const char *p, uid_t u, gid_t g) { s_uid = u; s_gid = g; return rec(CHOWN, p); }
extern "C" int vp_stub_unlink(const char *p) { return rec(UNLINK, p); }
extern "C" int vp_stub_remove(const char *p) { return rec(UNLINK, p); }
extern "C" int vp_stub_symlink(const char *t, const char *p) { strcpy(seen2, t); return rec(SYMLINK, p); }
extern "C" int vp_stub_utimes(const char *p, const struct timeval *t) { for (int i = 0; i < 2; i++) { t_sec[i] = (uint64_t)t[i].tv_sec; t_usec[i] = (uint64_t)t[i].tv_usec; } return rec(UTIMES, p); }
extern "C" int vp_stub_utimensat(int d, const char *p, const struct timespec *t, int f) { vp_assert(d == AT_FDCWD && !f, "another directory"); for (int i = 0; i < 2; i++) { if (t[i].tv_nsec == UTIME_OMIT) { t_sec[i] = i ? st_m : st_a; t_usec[i] = 0; } else { t_sec[i] = (uint64_t)t[i].tv_sec; t_usec[i] = (uint64_t)t[i].tv_nsec / 1000; } } return rec(UTIMES, p); }
static void path(const char *p) { vp_assert(strlen(p) == n && !memcmp(p, ref, n), "asks about another file"); }
static int dostat(const char *p, struct stat *s, unsigned m) { path(p); if (statbad) { errno = ENOENT; return -1; } memset(s, 0, sizeof(*s)); s->st_mode = m; s->st_size = mark; s->st_atime = (time_t)st_a; s->st_mtime = (time_t)st_m; s->st_atim.tv_nsec = (long)st_an; s->st_mtim.tv_nsec = (long)st_mn; return 0; }
extern "C" int vp_stub_stat(const char *p, struct stat *s) { stats++; return dostat(p, s, S_IFREG); }
extern "C" int vp_stub_lstat(const char *p, struct stat *s) { lstats++; return dostat(p, s, S_IFLNK); }
extern "C" struct passwd *vp_stub_getpwnam(const char *w) { vp_assert(w == who || !strcmp(w, who), "another name"); uask++; return known ? &pw : NULL; }
extern "C" struct group *vp_stub_getgrnam(const char *w) { vp_assert(w == who || !strcmp(w, who), "another name"); gask++; return known ? &gr : NULL; }
#include "utf8/utf8_util.cpp"
#include "utf8/utf8_file_dir.cpp"
using namespace CubicleSoft::UTF8;
extern "C" void vp_main() {
	char s[NF + 1]; n = vp_choice(NF + 1); vp_sym_bytes(s, n); for (size_t i = 0; i < n; i++) vp_assume(s[i] != 0); s[n] = 0; unsigned what = vp_choice(8);
	bool good = n > 0; uint32_t c; for (size_t i = 0; i < n && good;) { unsigned k = r_dec8((const uint8_t *)s, i, n, &c); if (!k || !vp_split(r_valid(c)) || (!i && vp_split(r_comb(c))) || r_len8(c) != k) { good = false; break; } if (k == 1 && vp_split(c < 0x20 || c == 0x7F || c == '*' || c == '?' || c == '"' || c == '<' || c == '>' || c == '|')) good = false; i += k; }
	for (size_t i = 0; i < n; i++) ref[i] = vp_split(s[i] == '\\') ? '/' : s[i]; ref[n] = 0; r = vp_choice(2) ? 0 : -1; bool ok, want = good && !r; int wk = NONE;
	unsigned mode = vp_u32() & 07777; pw.pw_uid = vp_u32(); pw.pw_gid = vp_u32(); gr.gr_gid = vp_u32(); known = vp_choice(2); who = vp_choice(2) ? "u" : "group"; statbad = vp_choice(2); st_a = vp_sym(40); st_m = vp_sym(40); st_an = vp_range(0, 999999999); st_mn = vp_range(0, 999999999); mark = vp_u32() >> 1;
	if (what == 0) { ok = File::Chmod(s, (int)mode); wk = CHMOD; if (ok) vp_assert(s_mode == mode, "permissions"); }
	else if (what == 1) { ok = File::Chown(s, who); wk = CHOWN; want = want && known; if (ok) { vp_assert(s_uid == pw.pw_uid && s_gid == (unsigned)-1, "owner"); vp_assert(uask, "user"); } }
	else if (what == 2) { ok = File::Chgrp(s, who); wk = CHOWN; want = want && known; if (ok) vp_assert(s_uid == (unsigned)-1 && s_gid == gr.gr_gid && gask, "group"); }
	else if (what == 3) { ok = File::Delete(s); wk = UNLINK; }
	else if (what == 4) { bool l = vp_choice(2); File::FileStat fs; memset(&fs, 0, sizeof(fs)); ok = l ? File::Stat(fs, s, true) : File::Stat(fs, s); want = good && !statbad; if (ok) { vp_assert(S_ISLNK(fs.st_mode) == l && fs.st_size == (off_t)mark && fs.st_mtime == (time_t)st_m, "status"); } }
	else if (what == 5) { ok = File::Exists(s); want = good && !statbad; }
	else if (what == 6) { if (!n) vp_end(); ok = File::Symlink(s, "to/it"); memcpy(ref, s, n); wk = SYMLINK; want = !r; vp_assert(!strcmp(seen2, "to/it"), "target of the link"); good = true; }
	else {
		uint64_t a = vp_u64(), m = vp_u64(), cr = vp_u64(); bool ha = vp_choice(2), hm = vp_choice(2); ok = File::SetFileTimes(s, vp_choice(2) ? &cr : NULL, ha ? &a : NULL, hm ? &m : NULL); wk = UTIMES; if (statbad && (!good || r || !ha || !hm)) want = false; else if (statbad) want = ok;
		if (ok) { if (ha) vp_assert(t_sec[0] == a / 1000000 && t_usec[0] == a % 1000000, "access time"); else vp_assert(t_sec[0] == st_a && t_usec[0] <= st_an / 1000, "access time is changed"); if (hm) vp_assert(t_sec[1] == m / 1000000 && t_usec[1] == m % 1000000, "update time"); else vp_assert(t_sec[1] == st_m && t_usec[1] <= st_mn / 1000, "update time is changed"); }
	}
	vp_assert(ok == want, "result"); if (!good) vp_assert(!changes, "changes something although the name is refused");
	if (ok && wk) { vp_assert(changes == 1 && kind == wk, "number of changes"); vp_assert(strlen(seen) == n && !memcmp(seen, ref, n), "changes another file"); vp_cover("changed"); } else if (wk) { for (int k = 0; k < 1; k++) if (changes) vp_assert(kind == wk && strlen(seen) == n && !memcmp(seen, ref, n), "changes another file"); }
}
