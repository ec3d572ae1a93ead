/* Put before a program: writes the name of every environment variable asked for to the file named by VH_ENVLOG, and of every
   file that it opens or looks for, as "file:NAME". */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <dirent.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

static void note(const char *n) {
    extern char **environ;
    const char *to = 0;
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, "VH_ENVLOG=", 10)) to = *e + 10;
    if (!to) return;
    int f = syscall(SYS_openat, AT_FDCWD, to, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
    if (f < 0) return;
    char b[300];
    size_t k = strlen(n);
    if (k > 298) k = 298;
    memcpy(b, n, k);
    b[k] = '\n';
    if (write(f, b, k + 1) < 0) {}
    close(f);
}
char *getenv(const char *n) {
    static char *(*real)(const char *);
    if (!real) real = (char *(*)(const char *))dlsym(RTLD_NEXT, "getenv");
    note(n);
    return real(n);
}
char *secure_getenv(const char *n) {
    static char *(*real)(const char *);
    if (!real) real = (char *(*)(const char *))dlsym(RTLD_NEXT, "secure_getenv");
    note(n);
    return real(n);
}

static void file(const char *n) {
    if (!n || !*n || !strncmp(n, "/proc/", 6) || !strncmp(n, "/sys/", 5) || !strncmp(n, "/dev/", 5)) return;
    char b[300] = "file:";
    strncat(b, n, 290);
    note(b);
}
#define REAL(name, type) static __typeof__((type)0) real; if (!real) real = (type)dlsym(RTLD_NEXT, #name)
#define OPEN(name) \
    int name(const char *p, int fl, ...) { \
        va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); \
        REAL(name, int (*)(const char *, int, ...)); file(p); return real(p, fl, m); }
#define OPENAT(name) \
    int name(int d, const char *p, int fl, ...) { \
        va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); \
        REAL(name, int (*)(int, const char *, int, ...)); file(p); return real(d, p, fl, m); }
OPEN(open)
OPEN(open64)
OPENAT(openat)
OPENAT(openat64)
int access(const char *p, int m) { REAL(access, int (*)(const char *, int)); file(p); return real(p, m); }
int stat64(const char *p, struct stat64 *s) { REAL(stat64, int (*)(const char *, struct stat64 *)); file(p); return real(p, s); }
int lstat64(const char *p, struct stat64 *s) { REAL(lstat64, int (*)(const char *, struct stat64 *)); file(p); return real(p, s); }
int statx(int d, const char *p, int fl, unsigned m, struct statx *s) { REAL(statx, int (*)(int, const char *, int, unsigned, struct statx *)); file(p); return real(d, p, fl, m, s); }
DIR *opendir(const char *p) { REAL(opendir, DIR *(*)(const char *)); file(p); return real(p); }
ssize_t readlink(const char *p, char *b, size_t n) { REAL(readlink, ssize_t (*)(const char *, char *, size_t)); file(p); return real(p, b, n); }
