// Names as long as the limit allows: taken whole or refused, never cut or overrunning the internal copy, in every operation that takes a name.
#include "vp.h"
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <pwd.h>
#include <grp.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/file.h>
#include <unistd.h>
#include <utime.h>
#include <dirent.h>
static char big[8300]; static size_t n; static int calls;
static int rec(const char *p) { calls++; vp_assert(p[0] == 'd' || (strlen(p) == n && p[n - 1] == 'z' && p[0] == 'a'), "a long name is cut"); errno = ENOENT; return -1; }
extern "C" int vp_stub_chmod(const char *p, mode_t) { return rec(p); }
extern "C" int vp_stub_chown(const char *p, uid_t, gid_t) { return rec(p); }
extern "C" int vp_stub_unlink(const char *p) { return rec(p); }
extern "C" int vp_stub_remove(const char *p) { return rec(p); }
extern "C" int vp_stub_utimes(const char *p, const struct timeval *) { return rec(p); }
extern "C" int vp_stub_utimensat(int, const char *p, const struct timespec *, int) { return rec(p); }
extern "C" int vp_stub_stat(const char *p, struct stat *) { return rec(p); }
extern "C" int vp_stub_lstat(const char *p, struct stat *) { return rec(p); }
extern "C" int vp_stub_open(const char *p, int, ...) { return rec(p); }
extern "C" int vp_stub_open64(const char *p, int, ...) { return rec(p); }
extern "C" int vp_stub_rename(const char *a, const char *b) { rec(a); return rec(b); }
static struct passwd pw; static struct group gr;
extern "C" struct passwd *vp_stub_getpwnam(const char *) { return &pw; }
extern "C" struct group *vp_stub_getgrnam(const char *) { return &gr; }
#include "utf8/utf8_util.cpp"
#include "utf8/utf8_file_dir.cpp"
#ifdef WHAT
#define COV (void)0
#else
#define COV vp_cover("a long name is valid")
#endif
using namespace CubicleSoft::UTF8;
extern "C" void vp_main() {
	n = 8189 + vp_choice(5); memset(big, 'b', n); big[0] = 'a'; big[n - 1] = 'z'; big[n] = 0; 
#ifdef WHAT
	static const unsigned w[] = { WHAT }; unsigned what = w[vp_choice(sizeof(w) / sizeof(w[0]))];
#else
	unsigned what = vp_choice(12);
#endif
	 bool ok = false; File f; File::FileStat st; uint64_t t = 5;
	switch (what) {
	case 0: ok = File::Chmod(big, 0644); break; case 1: ok = File::Chown(big, "u"); break; case 2: ok = File::Chgrp(big, "g"); break; case 3: ok = File::Delete(big); break; case 4: ok = File::Stat(st, big, vp_choice(2)); break; case 5: ok = File::SetFileTimes(big, NULL, &t, &t); break; case 6: ok = f.Open(big, O_RDONLY); break;
	case 7: ok = File::Copy(big, "d"); break; case 8: ok = File::Copy("d", big); break; case 9: ok = File::Move(big, "d"); break; case 10: ok = File::Move("d", big); break; case 11: ok = File::IsValidFilenameFormat(big); if (ok) { vp_assert(n < 8192, "a name over the limit is accepted"); COV; } return;
	}
	vp_assert(!ok, "success although the system refused"); if (n > 8191) vp_assert(calls == 0, "a name over the limit is used"); if (calls) vp_cover("a long name is used whole");
}
