/* The environment of the command line tool, under control: the n-th read of its input or the n-th
 * write of its output can be given a deviating answer. MC_DEV is a list like "r0=s1,w1=i,r2=e"
 *   s<k> transfer at most k bytes, i interrupted (EINTR), e input/output error, z end of file
 * Every deviation that was actually taken is appended to the file MC_LOG. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static int reads, writes;
static ssize_t (*rread)(int, void *, size_t);
static ssize_t (*rwrite)(int, const void *, size_t);
static ssize_t (*rwritev)(int, const struct iovec *, int);

static void init(void) {
    if (!rread) {
        rread = dlsym(RTLD_NEXT, "read");
        rwrite = dlsym(RTLD_NEXT, "write");
        rwritev = dlsym(RTLD_NEXT, "writev");
    }
}

static int input(int fd) {
    const char *f = getenv("MC_INPUT");
    if (fd == 0) return 1;
    if (!f || fd < 3) return 0;
    struct stat a, b;
    return fstat(fd, &a) == 0 && stat(f, &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev;
}

/* the deviation for this point, or 0 */
static char dev(char what, int n, size_t *k) {
    const char *d = getenv("MC_DEV");
    char key[32];
    int len = snprintf(key, sizeof key, "%c%d=", what, n);
    for (const char *p = d; p && *p;) {
        if (!strncmp(p, key, len)) {
            char c = p[len];
            *k = c == 's' ? strtoul(p + len + 1, 0, 10) : 0;
            const char *log = getenv("MC_LOG");
            if (log) {
                int fd = open(log, O_WRONLY | O_CREAT | O_APPEND, 0600);
                if (fd >= 0) {
                    char line[64];
                    int m = snprintf(line, sizeof line, "%c%d=%c\n", what, n, c);
                    if (rwrite(fd, line, m) < 0) { }
                    close(fd);
                }
            }
            return c;
        }
        p = strchr(p, ',');
        if (p) p++;
    }
    return 0;
}

ssize_t read(int fd, void *b, size_t n) {
    init();
    if (!input(fd)) return rread(fd, b, n);
    size_t k;
    switch (dev('r', reads++, &k)) {
    case 's': return rread(fd, b, k < n ? k : n);
    case 'i': errno = EINTR; return -1;
    case 'e': errno = EIO; return -1;
    case 'z': return 0;
    }
    return rread(fd, b, n);
}

ssize_t write(int fd, const void *b, size_t n) {
    init();
    if (fd != 1) return rwrite(fd, b, n);
    size_t k;
    switch (dev('w', writes++, &k)) {
    case 's': return rwrite(fd, b, k < n ? k : n);
    case 'i': errno = EINTR; return -1;
    case 'e': errno = ENOSPC; return -1;
    }
    return rwrite(fd, b, n);
}

ssize_t writev(int fd, const struct iovec *v, int c) {
    init();
    if (fd != 1) return rwritev(fd, v, c);
    size_t k;
    switch (dev('w', writes++, &k)) {
    case 's': return c > 0 ? rwrite(fd, v[0].iov_base, k < v[0].iov_len ? k : v[0].iov_len) : 0;
    case 'i': errno = EINTR; return -1;
    case 'e': errno = ENOSPC; return -1;
    }
    return rwritev(fd, v, c);
}
