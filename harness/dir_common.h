// Contracts of the POSIX directory calls over a small tree of directories, files and symbolic links.
#pragma once
#include "vp.h"
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
enum { T_DIR, T_FILE, T_LINK };
#define NNODE 24
#define NL 6
struct DNode { bool exists; int parent, type, target; char name[NL]; size_t len; };
static DNode dn[NNODE]; static int nnode; static int opendirs, faults; static bool used_error; static char cwdname[16] = "/w";
static bool fail(int e) { if (faults > 0 && vp_choice(2)) { faults--; used_error = true; errno = e; return true; } return false; }
static int add(int parent, int type, const char *name, int target = -1) { DNode &d = dn[nnode]; d.exists = true; d.parent = parent; d.type = type; d.target = target; d.len = strlen(name); strcpy(d.name, name); return nnode++; }
static bool named(int i, const char *s, size_t n) { if (dn[i].len != n) return false; for (size_t k = 0; k < n; k++) if (!vp_split(dn[i].name[k] == s[k])) return false; return true; }
static int resolve(const char *p, bool follow, int depth = 0) {   // physical resolution, as the kernel does
	if (p[0] != '/') { errno = ENOENT; return -1; } int cur = 0; size_t i = 0;
	for (;;) {
		while (p[i] == '/') i++; if (!p[i]) return cur; size_t e = i; while (p[e] && p[e] != '/') e++;
		if (dn[cur].type != T_DIR) { errno = ENOTDIR; return -1; } size_t l = e - i;
		if (l == 1 && vp_split(p[i] == '.')) { i = e; continue; } if (l == 2 && vp_split(p[i] == '.' && p[i + 1] == '.')) { cur = dn[cur].parent; i = e; continue; }
		int k = -1; for (int j = 1; j < nnode; j++) if (dn[j].exists && dn[j].parent == cur && named(j, p + i, l)) k = j; if (k < 0) { errno = ENOENT; return -1; }
		if (dn[k].type == T_LINK && (follow || p[e])) { k = dn[k].target; if (k < 0 || !dn[k].exists) { errno = ENOENT; return -1; } }
		cur = k; i = e;
	}
}
static void fillst(struct stat *s, int i) { memset(s, 0, sizeof(*s)); s->st_mode = dn[i].type == T_DIR ? S_IFDIR | 0755 : dn[i].type == T_FILE ? S_IFREG | 0644 : S_IFLNK | 0777; s->st_ino = i + 1; s->st_dev = 1; }
#ifndef OWN_DIR
extern "C" int vp_stub_lstat(const char *p, struct stat *s) { if (fail(EACCES)) return -1; int i = resolve(p, false); if (i < 0) return -1; fillst(s, i); return 0; }
extern "C" int vp_stub_stat(const char *p, struct stat *s) { if (fail(EACCES)) return -1; int i = resolve(p, true); if (i < 0) return -1; fillst(s, i); return 0; }
struct VDir { bool open; int n, at; int node[NNODE]; struct dirent *ent; };
static VDir vd[8];
extern "C" DIR *vp_stub_opendir(const char *p) {
	if (fail(EACCES)) return NULL; int i = resolve(p, true); if (i < 0) return NULL; if (dn[i].type != T_DIR) { errno = ENOTDIR; return NULL; } int k = 0; while (k < 8 && vd[k].open) k++; vp_assert(k < 8, "directories stay open"); VDir &d = vd[k]; d.open = true; d.at = 0; d.n = 0; d.node[d.n++] = -1; d.node[d.n++] = -2;
	for (int j = 1; j < nnode; j++) if (dn[j].exists && dn[j].parent == i) d.node[d.n++] = j; if (!d.ent) d.ent = (struct dirent *)calloc(1, sizeof(struct dirent)); opendirs++; return (DIR *)&d;
}
extern "C" int vp_stub_closedir(DIR *p) { VDir *d = (VDir *)p; vp_assert(d->open, "closes a directory twice"); d->open = false; opendirs--; return 0; }
extern "C" struct dirent *vp_stub_readdir(DIR *p) { VDir *d = (VDir *)p; vp_assert(d->open, "reads a closed directory"); if (fail(EIO)) return NULL; if (d->at == d->n) return NULL; int i = d->node[d->at++]; if (i == -1) strcpy(d->ent->d_name, "."); else if (i == -2) strcpy(d->ent->d_name, ".."); else strcpy(d->ent->d_name, dn[i].name); d->ent->d_type = i < 0 ? DT_DIR : dn[i].type == T_DIR ? DT_DIR : dn[i].type == T_FILE ? DT_REG : DT_LNK; return d->ent; }
extern "C" struct dirent *vp_stub_readdir64(DIR *p) { return vp_stub_readdir(p); }
#endif
extern "C" char *vp_stub_getcwd(char *b, size_t n) { if (strlen(cwdname) + 1 > n) { errno = ERANGE; return NULL; } strcpy(b, cwdname); return b; }
static bool inside(int i, int top) { for (int k = 0; k < NNODE && i > 0; k++) { if (i == top) return true; i = dn[i].parent; } return false; }
