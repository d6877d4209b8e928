// Linked into a program: fails the MC_K-th file call (or, with MC_ALL, that and every later one) with errno MC_E, and appends
// the name of each failed call to the file MC_LOG.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

static int n;

static int fail(const char *name) {
    const char *k = getenv("MC_K");
    if (!k) return 0;
    n++;
    int at = atoi(k);
    if (n != at && !(n > at && getenv("MC_ALL"))) return 0;
    const char *log = getenv("MC_LOG");
    if (log) {
        long fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_CREAT | O_APPEND, 0600);
        syscall(SYS_write, fd, name, strlen(name));
        syscall(SYS_write, fd, "\n", 1);
        syscall(SYS_close, fd);
    }
    errno = atoi(getenv("MC_E"));
    return 1;
}

int open(const char *p, int f, ...) { return fail("open") ? -1 : (int)syscall(SYS_openat, AT_FDCWD, p, f, 0644); }
int open64(const char *p, int f, ...) { return fail("open") ? -1 : (int)syscall(SYS_openat, AT_FDCWD, p, f, 0644); }
int openat(int d, const char *p, int f, ...) { return fail("openat") ? -1 : (int)syscall(SYS_openat, d, p, f, 0644); }
off_t lseek(int d, off_t o, int w) { return fail("lseek") ? -1 : syscall(SYS_lseek, d, o, w); }
off_t lseek64(int d, off_t o, int w) { return fail("lseek") ? -1 : syscall(SYS_lseek, d, o, w); }
ssize_t read(int d, void *b, size_t s) { return fail("read") ? -1 : syscall(SYS_read, d, b, s); }
ssize_t pread(int d, void *b, size_t s, off_t o) { return fail("pread") ? -1 : syscall(SYS_pread64, d, b, s, o); }
ssize_t pread64(int d, void *b, size_t s, off_t o) { return fail("pread") ? -1 : syscall(SYS_pread64, d, b, s, o); }
int fstat(int d, struct stat *s) { return fail("fstat") ? -1 : (int)syscall(SYS_fstat, d, s); }
