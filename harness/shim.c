// Preloaded into the program under test: gives regular files listed in VERIF_SHIM_CONF the size ioctls of a block
// device, logs how files are opened and what is written to, and bounds time and memory.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

static struct { unsigned long ino; unsigned bs; int err64, errbs; } dev[256];
static int devs;
static int log_fd = -1;

__attribute__((constructor)) static void start(void) {
    const char *l = getenv("VERIF_SHIM_LOG"), *c = getenv("VERIF_SHIM_CONF");
    if (l) log_fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_APPEND | O_CLOEXEC, 0);
    if (log_fd >= 0) {
        int n = syscall(SYS_dup3, log_fd, 900, O_CLOEXEC);
        if (n >= 0) { syscall(SYS_close, log_fd); log_fd = n; }
        syscall(SYS_write, log_fd, "start\n", 6);
    }
    if (c) {
        char *s = strdup(c), *p = s;
        while (devs < 256 && sscanf(p, "%lu,%u,%d,%d", &dev[devs].ino, &dev[devs].bs, &dev[devs].err64, &dev[devs].errbs) == 4) {
            devs++;
            p = strchr(p, ';');
            if (!p) break;
            p++;
        }
        free(s);
    }
    unsetenv("LD_PRELOAD");
    struct rlimit t = {30, 31}, m = {4UL << 30, 4UL << 30};
    setrlimit(RLIMIT_CPU, &t);
    setrlimit(RLIMIT_AS, &m);
    alarm(120);
}

static void note(const char *what, long v, const char *path) {
    if (log_fd < 0) return;
    char b[9000];
    int n = snprintf(b, 80, "%s %ld ", what, v);
    for (const char *p = path; p && *p && n < 8990; p++) n += snprintf(b + n, 3, "%02x", (unsigned char)*p);
    b[n++] = '\n';
    syscall(SYS_write, log_fd, b, n);
}

static int do_open(int at, const char *path, int flags, mode_t mode) {
    note("open", flags, path);
    int r = syscall(SYS_openat, at, path, flags, mode);
    return r;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int at, const char *p, int flags, ...) { MODE return do_open(at, p, flags, mode); }
int openat64(int at, const char *p, int flags, ...) { MODE return do_open(at, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

#define NEXT(name) static __typeof__(&name) real; if (!real) real = dlsym(RTLD_NEXT, #name)
ssize_t write(int fd, const void *b, size_t n) { if (fd > 2) note("write", fd, ""); return syscall(SYS_write, fd, b, n); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { note("write", fd, ""); return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { note("write", fd, ""); return syscall(SYS_pwrite64, fd, b, n, o); }
int ftruncate64(int fd, off64_t o) { note("write", fd, ""); return syscall(SYS_ftruncate, fd, o); }
int ftruncate(int fd, off_t o) { note("write", fd, ""); return syscall(SYS_ftruncate, fd, o); }

int ioctl(int fd, unsigned long req, ...) {
    va_list a;
    va_start(a, req);
    void *arg = va_arg(a, void *);
    va_end(a);
    struct stat st;
    // as the kernel does, only the low 32 bits count
    unsigned r = (unsigned)req;
    if ((r >> 8 & 0xff) == 0x12 && syscall(SYS_fstat, fd, &st) == 0 && S_ISREG(st.st_mode)) {
        for (int i = 0; i < devs; i++) {
            if (dev[i].ino != st.st_ino) continue;
            switch (r) {
            case 0x80081272: // BLKGETSIZE64
                if (dev[i].err64) { errno = dev[i].err64; return -1; }
                *(uint64_t *)arg = st.st_size;
                return 0;
            case 0x127b: // BLKPBSZGET
                if (dev[i].errbs) { errno = dev[i].errbs; return -1; }
                *(unsigned *)arg = dev[i].bs;
                return 0;
            case 0x1268: // BLKSSZGET
                if (dev[i].errbs) { errno = dev[i].errbs; return -1; }
                *(int *)arg = 512;
                return 0;
            case 0x1260: // BLKGETSIZE
                if (dev[i].err64) { errno = dev[i].err64; return -1; }
                *(unsigned long *)arg = st.st_size / 512;
                return 0;
            case 0x125e: // BLKROGET
                *(int *)arg = 0;
                return 0;
            default:
                // anything else on a device may change it
                note("write", fd, "");
                errno = ENOTTY;
                return -1;
            }
        }
    }
    return syscall(SYS_ioctl, fd, req, arg);
}
