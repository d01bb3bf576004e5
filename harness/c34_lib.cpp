// Every history of STEPS calls through the loader templates: the named function of the named library, once, with the arguments given, or nothing and failure.
#include "vp.h"
#include <cstddef>
#include <cstring>
#include <cstdint>
static int handles[2]; static int open_n[2], close_n[2]; static bool present[2], exported[2][3]; static int once_open[2];
static bool inonce; static int target = -1, targetlib, calls; static uint64_t a0; static uint8_t a1; static const char *a2; static uint64_t rv;
static void called(int lib, int fn) { vp_assert(lib == targetlib && fn == target, "another function is called"); vp_assert(open_n[lib] > close_n[lib], "called after the library was closed"); calls++; }
struct Pair { uint64_t x, y, z; };
template<int L> static uint64_t f_ret(uint64_t x, uint8_t y, const char *z) { called(L, 0); vp_assert(x == a0 && y == a1 && z == a2, "arguments of the call"); return rv; }
template<int L> static void f_void(uint8_t y, uint64_t x) { called(L, 1); vp_assert(x == a0 && y == a1, "arguments of the call"); }
template<int L> static int8_t f_pair(Pair p, int8_t q) { called(L, 2); vp_assert(p.x == a0 && p.y == rv && p.z == a1 && q == (int8_t)a1, "arguments of the call"); return (int8_t)rv; }
extern "C" void *vp_stub_dlopen(const char *f, int flags) { (void)flags; int k = f && !strcmp(f, "liba") ? 0 : f && !strcmp(f, "libb") ? 1 : -1; vp_assert(k >= 0, "opens another library"); if (!present[k]) return NULL; open_n[k]++; if (inonce) once_open[k]++; return &handles[k]; }
extern "C" int vp_stub_dlclose(void *h) { int k = (int)((int *)h - handles); vp_assert(k >= 0 && k < 2 && open_n[k] > close_n[k], "closes what is not open"); close_n[k]++; return 0; }
extern "C" void *vp_stub_dlsym(void *h, const char *n) {
	int k = (int)((int *)h - handles); vp_assert(k >= 0 && k < 2 && open_n[k] > close_n[k], "looks up in what is not open"); int f = !strcmp(n, "ret") ? 0 : !strcmp(n, "none") ? 1 : !strcmp(n, "pair") ? 2 : -1; vp_assert(f >= 0, "looks up another name"); if (!exported[k][f]) return NULL;
	if (f == 0) return k ? (void *)f_ret<1> : (void *)f_ret<0>; if (f == 1) return k ? (void *)f_void<1> : (void *)f_void<0>; return k ? (void *)f_pair<1> : (void *)f_pair<0>;
}
extern "C" char *vp_stub_dlerror(void) { return NULL; }
#include "templates/shared_lib.h"
using namespace CubicleSoft::SharedLib;
static const char *libs[] = { "liba", "libb" }, *fns[] = { "ret", "none", "pair" };
extern "C" void vp_main() {
	for (int i = 0; i < 2; i++) { present[i] = vp_choice(2); for (int f = 0; f < 3; f++) exported[i][f] = true; } if (vp_choice(2)) exported[vp_choice(2)][vp_choice(3)] = false;
	{
		ModuleUtil ma(libs[0]), mb(libs[1]); ModuleUtil *m[2] = { &ma, &mb }; FunctionUtil u00(*m[0], fns[0]), u01(*m[0], fns[1]), u02(*m[0], fns[2]), u10(*m[1], fns[0]), u11(*m[1], fns[1]), u12(*m[1], fns[2]); FunctionUtil *u[2][3] = { { &u00, &u01, &u02 }, { &u10, &u11, &u12 } };
		for (int s = 0; s < STEPS; s++) {
			targetlib = (int)vp_choice(2); target = (int)vp_choice(3); inonce = vp_choice(2); calls = 0; a0 = vp_u64(); a1 = vp_u8(); rv = vp_u64(); a2 = libs[vp_choice(2)]; uint64_t mark = vp_u64(), r = mark; int8_t r8 = (int8_t)mark; bool ok; Pair p = { a0, rv, a1 }; FunctionUtil &f = *u[targetlib][target];
			if (target == 0) ok = inonce ? CallOnce(libs[targetlib], fns[0], r, a0, a1, a2) : Call(f, r, a0, a1, a2);
			else if (target == 1) ok = inonce ? CallOnceVoid(libs[targetlib], fns[1], a1, a0) : CallVoid(f, a1, a0);
			else ok = inonce ? CallOnce(libs[targetlib], fns[2], r8, p, (int8_t)a1) : Call(f, r8, p, (int8_t)a1);
			bool can = present[targetlib] && exported[targetlib][target]; vp_assert(ok == can, "result of the call"); vp_assert(calls == (can ? 1 : 0), "number of calls");
			if (target == 0) vp_assert(r == (can ? rv : mark), "returned value"); if (target == 2) vp_assert(r8 == (int8_t)(can ? rv : mark), "returned value"); if (!inonce) { vp_assert(f.GetFuncPtr() == NULL || can, "function address"); } if (can) vp_cover("called"); else vp_cover("refused");
		}
		for (int k = 0; k < 2; k++) vp_assert(close_n[k] == 0, "library is closed while in use");
	}
	for (int k = 0; k < 2; k++) vp_assert(close_n[k] == open_n[k] - once_open[k], "library is not closed exactly once");
}
