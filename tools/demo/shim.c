/* LD_PRELOAD shim: logs file system calls below SHIM_ROOT to SHIM_LOG and applies one fault.
   SHIM_FAULT=action:call:substring:nth   action = kill (SIGKILL this process) | eio | enospc | sleepN (ms) ; nth counts from 1 over all
   processes (counter file SHIM_LOG.cnt) */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

static int hit(const char *call, const char *path)
{
    const char *root = getenv("SHIM_ROOT"), *log = getenv("SHIM_LOG"), *f = getenv("SHIM_FAULT");
    if (!root || !path || strncmp(path, root, strlen(root)) != 0) return 0;
    int e = errno, rc = 0;
    if (log) {
        char b[4300]; int n = snprintf(b, sizeof b, "%d %s %s\n", (int)getpid(), call, path);
        int fd = (int)syscall(SYS_open, log, O_WRONLY | O_CREAT | O_APPEND, 0600);
        if (fd >= 0) { syscall(SYS_write, fd, b, n); syscall(SYS_close, fd); }
    }
    if (f && log) {
        char act[32], c[32], sub[512]; int nth = 1;
        if (sscanf(f, "%31[^:]:%31[^:]:%511[^:]:%d", act, c, sub, &nth) >= 3 && !strcmp(c, call) && strstr(path, sub)) {
            char cf[600]; snprintf(cf, sizeof cf, "%s.cnt", log);
            int fd = (int)syscall(SYS_open, cf, O_RDWR | O_CREAT, 0600); int cnt = 0; flock(fd, LOCK_EX);
            char nb[16] = {0}; syscall(SYS_read, fd, nb, 15); cnt = atoi(nb) + 1; snprintf(nb, sizeof nb, "%d", cnt);
            lseek(fd, 0, SEEK_SET); syscall(SYS_write, fd, nb, strlen(nb)); syscall(SYS_close, fd);
            if (cnt == nth) {
                if (!strcmp(act, "kill")) kill(getpid(), SIGKILL);
                else if (!strcmp(act, "eio")) rc = EIO;
                else if (!strcmp(act, "enospc")) rc = ENOSPC;
                else if (!strncmp(act, "sleep", 5)) usleep((useconds_t)atoi(act + 5) * 1000);
            }
        }
    }
    errno = e;
    return rc;
}
static const char *fdp(int fd, char *b) { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, b, 4095); if (n < 0) return NULL; b[n] = 0; return b; }
#define REAL(n) ((__typeof__(&n))dlsym(RTLD_NEXT, #n))
int rename(const char *a, const char *b) { int e = hit("rename", b); if (e) { errno = e; return -1; } return REAL(rename)(a, b); }
int unlink(const char *a) { int e = hit("unlink", a); if (e) { errno = e; return -1; } return REAL(unlink)(a); }
int rmdir(const char *a) { int e = hit("rmdir", a); if (e) { errno = e; return -1; } return REAL(rmdir)(a); }
int mkdir(const char *a, mode_t m) { int e = hit("mkdir", a); if (e) { errno = e; return -1; } return REAL(mkdir)(a, m); }
int fsync(int fd) { char b[4096]; int e = hit("fsync", fdp(fd, b)); if (e) { errno = e; return -1; } return REAL(fsync)(fd); }
int ftruncate(int fd, off_t o) { char b[4096]; int e = hit("ftruncate", fdp(fd, b)); if (e) { errno = e; return -1; } return REAL(ftruncate)(fd, o); }
ssize_t write(int fd, const void *d, size_t n) { char b[4096]; int e = hit("write", fdp(fd, b)); if (e) { errno = e; return -1; } return REAL(write)(fd, d, n); }
ssize_t read(int fd, void *d, size_t n) { char b[4096]; int e = hit("read", fdp(fd, b)); if (e) { errno = e; return -1; } return REAL(read)(fd, d, n); }
int link(const char *a, const char *b) { int e = hit("link", b); if (e) { errno = e; return -1; } return REAL(link)(a, b); }
int symlink(const char *a, const char *b) { int e = hit("symlink", b); if (e) { errno = e; return -1; } return REAL(symlink)(a, b); }
int open(const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
    int e = hit(fl & O_CREAT ? "creat" : "open", p); if (e) { errno = e; return -1; } return REAL(open)(p, fl, m); }
int open64(const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
    int e = hit(fl & O_CREAT ? "creat" : "open", p); if (e) { errno = e; return -1; } return REAL(open)(p, fl, m); }
