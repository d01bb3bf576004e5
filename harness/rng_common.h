#pragma once
#include "vp.h"
#include <cstddef>
#include <cstring>
#include "security/security_csprng.cpp"
using namespace CubicleSoft;
// the system source: descriptors 7.. opened, closed once; read() is defined by each harness
static int openfd = -1, opens, closes; static char opened[3][16]; static int openmask;
extern "C" int vp_stub_open(const char *p, int, ...) { strncpy(opened[opens], p, 15); bool ok = openmask >> opens & 1; opens++; if (!ok) { errno = ENOENT; return -1; } openfd = 6 + opens; return openfd; }
extern "C" int vp_stub_close(int fd) { if (fd < 0) { errno = EBADF; return -1; } vp_assert(fd == openfd, "closes a descriptor it does not own"); openfd = -1; closes++; return 0; }
