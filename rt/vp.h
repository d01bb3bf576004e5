// Harness interface: symbolic under symex, replayed natively with the solver's values.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
	uint64_t vp_sym(unsigned bits);                 // arbitrary value of that many bits
	void vp_sym_bytes(void *p, size_t n);           // arbitrary bytes
	unsigned vp_choice(unsigned n);                 // arbitrary 0..n-1, case split
	uint64_t vp_concretize(uint64_t x);             // case split on every feasible value
	void vp_assume_(int c);
	void vp_assert_(int c, const char *msg);
	void vp_cover(const char *name);                // reachability witness
	size_t vp_heap_live();                          // live heap blocks
	void vp_note(const char *name, uint64_t v);
	void vp_end() __attribute__((noreturn));
	void vp_malloc_fail(int n);                     // up to n of the following malloc/realloc calls may return NULL
	int vp_accessible(const void *p, size_t n);
	void vp_uninit(void *p, size_t n);              // mark bytes as uninitialised
	// threads
	int vp_spawn(void (*fn)(void *), void *arg);
	void vp_yield();
	void vp_resched();                              // any runnable thread may continue (no preemption charged)
	void vp_block(uint64_t chan);
	void vp_wake(uint64_t chan);
	int vp_tid();
	int vp_all_done();
	int vp_nblocked();
	void vp_share(void *p, size_t n);
	void vp_preempt(int n);
}
#define VP_JOIN (~0ULL)
#define VP_IDLE (~0ULL - 1)
#define vp_assume(c) vp_assume_(!!(c))
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#define vp_assert(c, msg) vp_assert_(!!(c), msg " [line " VP_STR(__LINE__) "]")
static inline uint8_t vp_u8() { return (uint8_t)vp_sym(8); }
static inline uint16_t vp_u16() { return (uint16_t)vp_sym(16); }
static inline uint32_t vp_u32() { return (uint32_t)vp_sym(32); }
static inline uint64_t vp_u64() { return vp_sym(64); }
static inline uint64_t vp_range(uint64_t lo, uint64_t hi) { uint64_t v = vp_sym(64); vp_assume(v >= lo && v <= hi); return v; }
// case split on a condition now, so that later code sees it decided
static inline bool vp_split(bool c) { return vp_concretize(c) != 0; }
