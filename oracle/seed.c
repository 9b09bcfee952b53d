// Fixed random bytes, as the symbolic executor gives, so that hash seeds replay; and the schedules of
// partial and interrupted reads and writes that engine/src/env.rs follows.
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static unsigned long io[2];
// -1 for an interruption
static ssize_t schedule(int k, size_t n) {
    const char *s = getenv(k ? "SX_WRITES" : "SX_READS");
    if (!s || !*s)
        return (ssize_t)n;
    char c = s[io[k]++ % strlen(s)];
    size_t m = c == 'K' ? 4096 : (size_t)(c - '0');
    if (c == 'i') {
        errno = EINTR;
        return -1;
    }
    return c == '0' || n < m ? (ssize_t)n : (ssize_t)m;
}
ssize_t read(int fd, void *p, size_t n) {
    ssize_t k = schedule(0, n);
    return k < 0 ? -1 : syscall(SYS_read, fd, p, k);
}
ssize_t write(int fd, const void *p, size_t n) {
    ssize_t k = schedule(1, n);
    return k < 0 ? -1 : syscall(SYS_write, fd, p, k);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    size_t all = 0, t = 0;
    for (int i = 0; i < c; i++)
        all += v[i].iov_len;
    ssize_t k = schedule(1, all);
    if (k < 0)
        return -1;
    for (int i = 0; i < c && t < (size_t)k; i++) {
        size_t m = v[i].iov_len < (size_t)k - t ? v[i].iov_len : (size_t)k - t;
        ssize_t w = syscall(SYS_write, fd, v[i].iov_base, m);
        if (w < 0)
            return t ? (ssize_t)t : -1;
        t += (size_t)w;
        if ((size_t)w < m)
            break;
    }
    return (ssize_t)t;
}
unsigned char sx_byte(unsigned long seed, unsigned long i) {
    return (unsigned char)(17 + 31 * i + seed * (i * i * 7 + 101 * i + 13));
}
ssize_t getrandom(void *p, size_t n, unsigned flags) {
    const char *s = getenv("SX_SEED");
    unsigned long seed = s ? strtoul(s, 0, 10) : 0;
    for (size_t i = 0; i < n; i++)
        ((unsigned char *)p)[i] = sx_byte(seed, i);
    (void)flags;
    return (ssize_t)n;
}
