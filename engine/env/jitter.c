// Preloaded when a counterexample is replayed that needs a particular schedule: threads are put off at random.
#define _GNU_SOURCE
#include <stddef.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
extern void *__libc_malloc(size_t);
static _Thread_local unsigned x;
extern void __libc_free(void *);
static void jitter(void) { if (!x) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); x = (t.tv_nsec * 2654435761u) ^ ((unsigned)syscall(SYS_gettid) * 40503u) | 1; } x ^= x << 13; x ^= x >> 17; x ^= x << 5; if (x % 40 == 0) usleep(x / 64 % (x & 4096 ? 20000 : 1500)); }
void *malloc(size_t n) { jitter(); return __libc_malloc(n); }
void free(void *p) { jitter(); __libc_free(p); }
