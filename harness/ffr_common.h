#pragma once
#include "vp.h"
#include <cstddef>
#include <cstdlib>
#include "templates/fast_find_replace.h"
using namespace CubicleSoft;
struct Mgr { size_t live, total; };
struct Alloc { // allocator with the interface the templates expect
	static void *malloc(void *m, size_t n) { ((Mgr *)m)->live++; ((Mgr *)m)->total++; return ::malloc(n); }
	static void *realloc(void *m, void *p, size_t n) { if (!p) ((Mgr *)m)->live++; return ::realloc(p, n); }
	static void free(void *m, void *p) { if (p) { ((Mgr *)m)->live--; ::free(p); } }
};
typedef bool (*Eq)(const T &, const T &);
static bool fold(const T &a, const T &b) { return (a | 0x20) == (b | 0x20); }
static bool eqx(bool f, T a, T b) { return f ? fold(a, b) : a == b; }
static bool at(const T *t, size_t i, const T *p, size_t l, bool f) { bool r = true; for (size_t k = 0; k < l; k++) r &= eqx(f, t[i + k], p[k]); return r; }
static T sym() { return (T)vp_sym(8 * sizeof(T)); }
