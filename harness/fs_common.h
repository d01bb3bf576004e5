// Contracts of the POSIX file calls: a small set of regular files in memory. Up to `faults` calls fail, are interrupted or transfer less than asked.
#pragma once
#include "vp.h"
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <utime.h>
#ifndef CAPF
#define CAPF 24
#endif
#ifdef FSCOVER
#define FSCOV vp_cover
#else
#define FSCOV(x) (void)0
#endif
#define NFILE 4
#define NFD 6
struct VFile { bool exists; const char *name; size_t size; unsigned mode, uid, gid; long mtime, atime; int exlock, shlock; uint8_t *data; };
struct VFd { bool open; int f; size_t off; int flags; int lock; };
static VFile vf[NFILE]; static VFd vfd[NFD]; static int openfds, faults, badfaults; static int fault_kinds = 7;   // 1 error, 2 interruption, 4 short transfer
static bool used_fault, used_error, seek_sure;   // seek_sure: seeking never fails
static const char *vf_alias;   // another name of file 0
static int vf_find(const char *p) { if (vf_alias && !strcmp(vf_alias, p)) return 0; for (int i = 0; i < NFILE; i++) if (vf[i].name && !strcmp(vf[i].name, p)) return i; return -1; }
static bool fail(int e) { if (faults > 0 && (fault_kinds & 1) && vp_choice(2)) { faults--; used_fault = used_error = true; errno = e; FSCOV("a system call fails"); return true; } return false; }
static void vf_make(int i, const char *name, size_t size) { vf[i].name = name; vf[i].exists = true; vf[i].size = size; vf[i].mode = 0100644; if (!vf[i].data) vf[i].data = (uint8_t *)malloc(CAPF); }
static VFd *vf_fd(int fd, const char *msg) { bool ok = fd >= 3 && fd < 3 + NFD && vfd[fd - 3].open; vp_assert_(ok, msg); return &vfd[fd - 3]; }
extern "C" int vp_stub_open(const char *p, int flags, ...) {
	va_list ap; va_start(ap, flags); unsigned mode = (flags & O_CREAT) ? va_arg(ap, unsigned) : 0; va_end(ap);
	int i = vf_find(p); if (fail(EACCES)) return -1; if (i < 0) { errno = ENOENT; return -1; }
	if (!vf[i].exists) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } vf_make(i, vf[i].name, 0); vf[i].mode = 0100000 | (mode & 07777); }
	else { if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; } if (flags & O_TRUNC) vf[i].size = 0; }
	int k = 0; while (k < NFD && vfd[k].open) k++; vp_assert(k < NFD, "descriptors are leaked"); vfd[k].open = true; vfd[k].f = i; vfd[k].off = 0; vfd[k].flags = flags; vfd[k].lock = 0; openfds++; return 3 + k;
}
extern "C" int vp_stub_open64(const char *p, int flags, unsigned mode) { return vp_stub_open(p, flags, mode); }
static void unlockfd(VFd *d) { if (d->lock == 2) vf[d->f].exlock--; if (d->lock == 1) vf[d->f].shlock--; d->lock = 0; }
extern "C" int vp_stub_close(int fd) { VFd *d = vf_fd(fd, "closes a descriptor it does not own"); unlockfd(d); d->open = false; openfds--; return 0; }
extern "C" int vp_stub_flock(int fd, int op) {
	VFd *d = vf_fd(fd, "locks a descriptor it does not own"); if (fail(EWOULDBLOCK)) return -1; unlockfd(d); VFile &f = vf[d->f];
	if (op & LOCK_UN) return 0;
	if (op & LOCK_EX) { if (f.exlock || f.shlock) { vp_assert(op & LOCK_NB, "waits for ever for a lock"); errno = EWOULDBLOCK; return -1; } f.exlock++; d->lock = 2; }
	else { if (f.exlock) { vp_assert(op & LOCK_NB, "waits for ever for a lock"); errno = EWOULDBLOCK; return -1; } f.shlock++; d->lock = 1; }
	return 0;
}
extern "C" off_t vp_stub_lseek(int fd, off_t o, int wh) {
	VFd *d = vf_fd(fd, "seeks on a descriptor it does not own"); if (!seek_sure && fail(EIO)) return -1; off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)d->off : (off_t)vf[d->f].size;
	off_t r = base + o; if (!vp_split(r >= 0 && r <= CAPF)) { if (vp_split(r < 0)) { errno = EINVAL; return -1; } vp_assert(false, "seeks beyond the end of the file"); }
	d->off = (size_t)vp_concretize((uint64_t)r); return r;
}
extern "C" off_t vp_stub_lseek64(int fd, off_t o, int wh) { return vp_stub_lseek(fd, o, wh); }
static size_t partial(size_t n) { if (n > 1 && faults > 0 && (fault_kinds & 4) && vp_choice(2)) { faults--; used_fault = true; size_t k = 1 + vp_choice(n - 1 > 3 ? 3 : (unsigned)(n - 1)); FSCOV("a short transfer"); return k == 3 ? n - 1 : k; } return n; }
static bool intr() { if (faults > 0 && (fault_kinds & 2) && vp_choice(2)) { faults--; used_fault = true; errno = EINTR; FSCOV("an interrupted call"); return true; } return false; }
extern "C" ssize_t vp_stub_read(int fd, void *b, size_t n) {
	VFd *d = vf_fd(fd, "reads a descriptor it does not own"); if ((d->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; } if (intr()) return -1; if (fail(EIO)) return -1;
	size_t av = d->off < vf[d->f].size ? vf[d->f].size - d->off : 0; n = (size_t)vp_concretize(n > av ? av : n); if (n) vp_assert(vp_accessible(b, n), "reads into memory outside the buffer"); n = partial(n); memcpy(b, vf[d->f].data + d->off, n); d->off += n; return (ssize_t)n;
}
extern "C" ssize_t vp_stub_write(int fd, const void *b, size_t n) {
	VFd *d = vf_fd(fd, "writes a descriptor it does not own"); if ((d->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; } vp_assert(vp_accessible(b, n), "writes memory outside the buffer"); if (intr()) return -1; if (fail(ENOSPC)) return -1;
	n = partial(n); VFile &f = vf[d->f]; if (d->flags & O_APPEND) d->off = f.size; vp_assert(d->off <= CAPF && n <= CAPF - d->off, "writes far more than was asked"); if (d->off > f.size) memset(f.data + f.size, 0, d->off - f.size);
	memcpy(f.data + d->off, b, n); d->off += n; if (d->off > f.size) f.size = d->off; return (ssize_t)n;
}
extern "C" int vp_stub_ftruncate(int fd, off_t n) { VFd *d = vf_fd(fd, "truncates a descriptor it does not own"); if (fail(EIO)) return -1; VFile &f = vf[d->f]; vp_assert(n >= 0 && n <= CAPF, "truncates to a wrong size"); if ((size_t)n > f.size) memset(f.data + f.size, 0, (size_t)n - f.size); f.size = (size_t)n; return 0; }
extern "C" int vp_stub_truncate(const char *p, off_t n) { if (fail(EIO)) return -1; int i = vf_find(p); if (i < 0 || !vf[i].exists) { errno = ENOENT; return -1; } VFile &f = vf[i]; vp_assert(n >= 0 && n <= CAPF, "truncates to a wrong size"); if ((size_t)n > f.size) memset(f.data + f.size, 0, (size_t)n - f.size); f.size = (size_t)n; return 0; }
static void fill(struct stat *s, int i) { memset(s, 0, sizeof(*s)); s->st_size = (off_t)vf[i].size; s->st_mode = vf[i].mode; s->st_uid = vf[i].uid; s->st_gid = vf[i].gid; s->st_ino = 100 + i; s->st_dev = 7; s->st_nlink = 1; s->st_mtim.tv_sec = vf[i].mtime; s->st_atim.tv_sec = vf[i].atime; }
extern "C" int vp_stub_fstat(int fd, struct stat *s) { VFd *d = vf_fd(fd, "queries a descriptor it does not own"); if (fail(EIO)) return -1; fill(s, d->f); return 0; }
extern "C" int vp_stub_stat(const char *p, struct stat *s) { if (fail(EIO)) return -1; int i = vf_find(p); if (i < 0 || !vf[i].exists) { errno = ENOENT; return -1; } fill(s, i); return 0; }
extern "C" int vp_stub_lstat(const char *p, struct stat *s) { return vp_stub_stat(p, s); }
extern "C" int vp_stub_fstat64(int fd, struct stat *s) { return vp_stub_fstat(fd, s); }
extern "C" int vp_stub_stat64(const char *p, struct stat *s) { return vp_stub_stat(p, s); }
extern "C" int vp_stub_access(const char *p, int) { if (fail(EIO)) return -1; int i = vf_find(p); if (i < 0 || !vf[i].exists) { errno = ENOENT; return -1; } return 0; }
extern "C" void vp_stub_sync() {}
extern "C" int vp_stub_fsync(int fd) { vf_fd(fd, "flushes a descriptor it does not own"); return 0; }
extern "C" int vp_stub_fdatasync(int fd) { vf_fd(fd, "flushes a descriptor it does not own"); return 0; }
