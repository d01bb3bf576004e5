// Named shared memory and a named semaphore opened and closed by THREADS threads in every interleaving within PRE preemptions.
#include "sync_common.h"
#include "sync/sync_util.cpp"
#include "sync/sync_semaphore.cpp"
#include "sync/sync_sharedmem.cpp"
using namespace CubicleSoft;
#define SZ 12
static unsigned clk; static int open_, closing; static int opening, firsts, gens, holders; static unsigned changes; static char *data;
static void useshm() {
	Sync::SharedMem *m = new Sync::SharedMem; bool others = open_ > 0; unsigned ch = changes; bool alone = !open_ && !opening && !closing; opening++; changes++; unsigned ch2 = changes; int op0 = open_;
	bool ok = m->Create("mem", SZ); opening--; changes++; vp_assert(ok, "create"); vp_assert(m->GetSize() == SZ && vp_accessible(m->RawData(), SZ), "memory is smaller than requested"); vp_assert(in_shm(m->RawData()), "not shared");
	bool quiet = changes == ch2 + 1;   // nobody else opened or closed meanwhile
	if (alone && quiet) { vp_assert(m->First(), "nobody is told to initialise"); for (int i = 0; i < SZ; i++) vp_assert(m->RawData()[i] == 0, "fresh memory is not empty"); vp_cover("first"); }
	if (op0 && quiet) { vp_assert(!m->First(), "a second opener is told to initialise"); vp_assert(m->RawData() == data, "equal names do not share memory"); vp_cover("joined"); }
	open_++; if (m->First()) firsts++; data = m->RawData();
	char v = (char)vp_u8(); m->RawData()[SZ - 1] = v; m->RawData()[0] = v;
	vp_yield();
	if (vp_choice(2)) { open_--; closing++; changes++; delete m; closing--; changes++; } 
}
static void usesem() {
	Sync::Semaphore *s = new Sync::Semaphore; bool ok = s->Create("sem", 1); vp_assert(ok, "create");
	ok = s->Lock(0) || s->Lock(5); if (ok) { vp_assert(holders == 0, "two holders: the object was initialised twice"); holders++; vp_yield(); holders--; s->Unlock(); } else vp_cover("busy"); delete s;
}
static void body(void *) { for (int i = 0; i < OPS; i++) { if (KIND) usesem(); else useshm(); } }
extern "C" void vp_main() {
#ifdef PRIOR
	if (KIND) { Sync::Semaphore s; bool c = s.Create("sem", 1); vp_assert(c, "create"); if (vp_choice(2)) s.Lock(0); } else { Sync::SharedMem s; bool c = s.Create("mem", SZ); vp_assert(c && s.First(), "create"); for (int i = 0; i < SZ; i++) s.RawData()[i] = (char)vp_u8(); }
#endif
	for (size_t i = 0; i < THREADS; i++) vp_spawn(body, NULL);
	vp_preempt(PRE); vp_block(VP_IDLE); vp_preempt(0);
	vp_assert(vp_all_done(), "an opener waits for ever"); if (!KIND) vp_assert(firsts >= 1, "nobody is told to initialise"); 
	vp_assert(maps == open_ && openfds == 0 && mask == 022, "resources not released");
}
