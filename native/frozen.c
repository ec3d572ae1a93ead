/* Put before the monitor of first decks: every process has the same clock, process number and thread numbers, so that
   only real randomness can make its decks differ from those of another process. */
#define _GNU_SOURCE
#include <stdarg.h>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

int clock_gettime(clockid_t c, struct timespec *t) { (void)c; if (t) { t->tv_sec = 1700000000; t->tv_nsec = 123456789; } return 0; }
int gettimeofday(struct timeval *t, void *z) { (void)z; if (t) { t->tv_sec = 1700000000; t->tv_usec = 123456; } return 0; }
time_t time(time_t *t) { if (t) *t = 1700000000; return 1700000000; }
pid_t getpid(void) { return 4711; }
pid_t getppid(void) { return 4710; }
pid_t gettid(void) { return 4711; }
