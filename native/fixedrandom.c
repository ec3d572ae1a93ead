/* Stand-in for the system's random numbers, put before the example programs only: every request gets the stream
   that VH_RANDOM names, from its start. */
#define _GNU_SOURCE
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <dlfcn.h>

static uint64_t mix(uint64_t z) {
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static void fill(unsigned char *p, size_t n) {
    const char *log = getenv("VH_RANDOM_LOG");
    if (log) {
        int f = open(log, O_WRONLY | O_CREAT | O_APPEND, 0600);
        if (f >= 0) { dprintf(f, "%zu\n", n); close(f); }
    }
    const char *s = getenv("VH_RANDOM");
    uint64_t k = s ? strtoull(s, 0, 10) : 0;
    for (size_t i = 0; i < n; i++) {
        if (i % 8 == 0) k += 0x9e3779b97f4a7c15ULL;
        p[i] = (unsigned char)(mix(k) >> (8 * (i % 8)));
    }
}
ssize_t getrandom(void *p, size_t n, unsigned int flags) { (void)flags; fill(p, n); return (ssize_t)n; }
int getentropy(void *p, size_t n) { fill(p, n); return 0; }

long syscall(long no, ...) {
    static long (*real)(long, ...);
    va_list a;
    long v[6];
    va_start(a, no);
    for (int i = 0; i < 6; i++) v[i] = va_arg(a, long);
    va_end(a);
    if (no == SYS_getrandom) { fill((void *)v[0], (size_t)v[1]); return v[1]; }
    if (!real) real = (long (*)(long, ...))dlsym(RTLD_NEXT, "syscall");
    return real(no, v[0], v[1], v[2], v[3], v[4], v[5]);
}
