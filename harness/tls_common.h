#pragma once
#include "vp.h"
#include <cstddef>
#include <cstdlib>
#include "sync/sync_tls.cpp"
using namespace CubicleSoft;
// thread-specific values: the contract of the pthread functions, keys 1..4, one slot per (key, simulated thread)
static void *slot[5][2]; static bool used[5]; static unsigned curthr;
extern "C" int vp_stub_pthread_key_create(pthread_key_t *k, void (*)(void *)) { for (unsigned i = 1; i < 5; i++) if (!used[i]) { used[i] = true; slot[i][0] = slot[i][1] = NULL; *k = i; return 0; } return 11; }
extern "C" int vp_stub_pthread_key_delete(pthread_key_t k) { vp_assert(k < 5 && used[k], "deleted key is not a live one"); used[k] = false; return 0; }
extern "C" int vp_stub_pthread_setspecific(pthread_key_t k, const void *v) { vp_assert(k < 5 && used[k], "key is not a live one"); slot[k][curthr] = (void *)v; return 0; }
extern "C" void *vp_stub_pthread_getspecific(pthread_key_t k) { vp_assert(k < 5 && used[k], "key is not a live one"); return slot[k][curthr]; }
typedef Sync::TLS TLS;
