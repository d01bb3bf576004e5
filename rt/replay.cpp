// Native replay runtime: feeds the solver's values to the same harness compiled by the native compiler.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <ucontext.h>
#include <new>
#include <vector>
static std::vector<uint64_t> vals; static size_t pos; static int mfail, fillpat = -1; static size_t live;
static uint64_t nextv() { if (pos >= vals.size()) { fprintf(stderr, "REPLAY-END: values exhausted\n"); fflush(0); _exit(0); } return vals[pos++]; }
struct Th { ucontext_t c; int st; uint64_t chan; void (*fn)(void *); void *arg; };
static std::vector<Th *> th; static int cur; static int preempt, maxPreempt; static std::vector<std::pair<uintptr_t, size_t>> shared;
static void sw(int to) { if (to == cur) return; int o = cur; cur = to; swapcontext(&th[o]->c, &th[to]->c); }
static void pickNext() {
	int n = 0, last = -1; for (size_t i = 0; i < th.size(); i++) if (th[i]->st == 0) { n++; last = i; }
	if (!n) for (size_t i = 0; i < th.size(); i++) if (th[i]->st == 1 && th[i]->chan == ~0ULL - 1) { th[i]->st = 0; n = 1; last = i; break; }
	if (!n) { fprintf(stderr, "REPLAY-VIOLATION: deadlock, every thread is blocked\n"); fflush(0); _exit(77); }
	if (n > 1) last = (int)nextv();
	sw(last);
}
static void yieldPoint() {
	if (preempt >= maxPreempt) return; int n = 0; for (auto *t : th) if (t->st == 0) n++; if (n < 2) return;
	int to = (int)nextv(); if (to != cur) { preempt++; sw(to); }
}
static void wakeCh(uint64_t c) { for (auto *t : th) if (t->st == 1 && t->chan == c) t->st = 0; }
static void entry() { th[cur]->fn(th[cur]->arg); th[cur]->st = 2; wakeCh(~0ULL); pickNext(); abort(); }
extern "C" void *__asan_region_is_poisoned(void *, size_t) __attribute__((weak));
extern "C" {
	void vp_main();
	uint64_t vp_sym(unsigned) { return nextv(); }
	void vp_sym_bytes(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)nextv(); }
	unsigned vp_choice(unsigned) { return (unsigned)nextv(); }
	uint64_t vp_concretize(uint64_t x) { return x; }
	void vp_assume_(int c) { if (!c) { fprintf(stderr, "REPLAY-END: assumption false\n"); fflush(0); _exit(0); } }
	void vp_assert_(int c, const char *m) { if (!c) { fprintf(stderr, "REPLAY-VIOLATION: %s\n", m); fflush(0); _exit(77); } }
	void vp_cover(const char *) {}
	size_t vp_heap_live() { return live; }
	void vp_note(const char *n, uint64_t v) { fprintf(stderr, "note %s=%llu\n", n, (unsigned long long)v); }
	void vp_end() { fprintf(stderr, "REPLAY-END: end of path\n"); fflush(0); _exit(0); }
	void vp_malloc_fail(int n) { mfail = n; }
	int vp_accessible(const void *p, size_t n) { return __asan_region_is_poisoned ? __asan_region_is_poisoned((void *)p, n) == nullptr : 1; }
	void vp_uninit(void *p, size_t n) { if (fillpat >= 0) memset(p, fillpat, n); }
	int vp_spawn(void (*fn)(void *), void *arg) { Th *t = new Th; memset((void *)t, 0, sizeof(*t)); t->fn = fn; t->arg = arg; getcontext(&t->c); size_t ss = 1 << 20; t->c.uc_stack.ss_sp = malloc(ss); t->c.uc_stack.ss_size = ss; t->c.uc_link = 0; makecontext(&t->c, entry, 0); th.push_back(t); return th.size() - 1; }
	void vp_yield() { yieldPoint(); }
	void vp_resched() { pickNext(); }
	void vp_block(uint64_t c) { th[cur]->st = 1; th[cur]->chan = c; pickNext(); }
	void vp_wake(uint64_t c) { wakeCh(c); }
	int vp_tid() { return cur; }
	int vp_all_done() { for (size_t i = 0; i < th.size(); i++) if ((int)i != cur && th[i]->st != 2) return 0; return 1; }
	int vp_nblocked() { int n = 0; for (size_t i = 0; i < th.size(); i++) if ((int)i != cur && th[i]->st == 1) n++; return n; }
	void vp_share(void *p, size_t n) { shared.push_back({ (uintptr_t)p, n }); }
	void vp_preempt(int n) { maxPreempt = preempt + n; }
	// allocation (the harness object's calls are renamed to these)
	static void fill(void *p, size_t n) { if (p && fillpat >= 0) memset(p, fillpat, n); }
	void *vprt_malloc(size_t n) { if (mfail > 0 && nextv()) { mfail--; return 0; } if (n > (1UL << 28)) return 0; void *p = malloc(n); if (p) live++; fill(p, n); return p; }
	void *vprt_calloc(size_t a, size_t b) { if (mfail > 0 && nextv()) { mfail--; return 0; } void *p = calloc(a, b); if (p) live++; return p; }
	void *vprt_realloc(void *q, size_t n) { if (mfail > 0 && nextv()) { mfail--; return 0; } if (n > (1UL << 28)) return 0; void *p = realloc(q, n); if (p && !q) live++; return p; }
	void vprt_free(void *p) { if (p) live--; free(p); }
	void *vprt__Znwm(size_t n) { void *p = ::operator new(n); live++; fill(p, n); return p; }
	void *vprt__Znam(size_t n) { void *p = ::operator new[](n); live++; fill(p, n); return p; }
	void *vprt__ZnwmRKSt9nothrow_t(size_t n, void *) { return vprt__Znwm(n); }
	void *vprt__ZnamRKSt9nothrow_t(size_t n, void *) { return vprt__Znam(n); }
	void vprt__ZdlPv(void *p) { if (p) live--; ::operator delete(p); }
	void vprt__ZdlPvm(void *p, size_t) { if (p) live--; ::operator delete(p); }
	void vprt__ZdaPv(void *p) { if (p) live--; ::operator delete[](p); }
	void vprt__ZdaPvm(void *p, size_t) { if (p) live--; ::operator delete[](p); }
	static void acc(void *p) { if (!maxPreempt || preempt >= maxPreempt) return; for (auto &r : shared) if ((uintptr_t)p - r.first < r.second) { yieldPoint(); return; } }
#define T(n) void __tsan_read##n(void *p) { acc(p); } void __tsan_write##n(void *p) { acc(p); } void __tsan_unaligned_read##n(void *p) { acc(p); } void __tsan_unaligned_write##n(void *p) { acc(p); } void __tsan_read_write##n(void *p) { acc(p); } void __tsan_unaligned_read_write##n(void *p) { acc(p); }
#ifdef VP_TSAN
	T(1) T(2) T(4) T(8) T(16)
	void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
	void __tsan_vptr_read(void **) {} void __tsan_vptr_update(void **, void *) {}
	void __tsan_read_range(void *, size_t) {} void __tsan_write_range(void *, size_t) {}
	void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
	void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }
	void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
#endif
}
int main(int argc, char **argv) {
	FILE *f = fopen(argv[1], "r"); if (!f) return 3; unsigned long long v; while (fscanf(f, "%llu", &v) == 1) vals.push_back(v); fclose(f);
	if (getenv("VP_FILL")) fillpat = atoi(getenv("VP_FILL"));
	th.push_back(new Th()); cur = 0; alarm(20);
	vp_main(); fprintf(stderr, "REPLAY-END: completed without violation\n"); return 0;
}
