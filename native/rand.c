/* randombytes() against a scripted device (linked with --wrap) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "randombytes.h"
static long cases, fails, calls;
static unsigned long long delivered, L;
static int fdval = 7, fdopen_, openfail, script[64], slen, spos, big, quiet;
static uint8_t *base; static char ctxs[300];
static uint64_t rs = 88172645463325252ULL;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static uint8_t S(uint64_t k) { uint64_t z = k * 0x9E3779B97F4A7C15ULL + 77; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ULL; return (z >> 56) | 1; }
static void fail(const char *t, const char *m, unsigned long long a, unsigned long long b)
{ if (fails++ < 20) printf("FAIL %s %s (%llu, %llu) %s\n", t, m, a, b, ctxs); fflush(stdout); }
static void tick(void) { if (++calls > 200000) { fail("giveup", "does not come back although the device delivers", calls, delivered); printf("DONE %ld\n", cases); fflush(stdout); _exit(1); } }
static int do_open(const char *p)
{
    tick();
    if (strcmp(p, "/dev/urandom") && strcmp(p, "/dev/random")) fail("device", p, 0, 0);
    if (openfail > 0) { openfail--; errno = openfail % 2 ? EMFILE : EINTR; return -1; }
    fdopen_ = 1; return fdval;
}
int __wrap_open(const char *p, int fl, ...) { return do_open(p); }
int __wrap_open64(const char *p, int fl, ...) { return do_open(p); }
int __wrap_close(int f) { fdopen_ = 0; return 0; }
unsigned __wrap_sleep(unsigned s) { tick(); return 0; }
int __wrap_usleep(unsigned s) { tick(); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { tick(); return 0; }
ssize_t __wrap_read(int fd, void *buf, size_t n)
{
    tick();
    if (!fdopen_ || fd != fdval) { fail("device", "read from a descriptor that is not the device", fd, fdval); errno = EBADF; return -1; }
    if (n == 0) return 0;
    if (big && ((uint8_t *)buf < base || (uint8_t *)buf + n > base + L)) fail("outside", "read request outside the buffer", (uint8_t *)buf - base, n);
    int op = spos < slen ? script[spos++] : 4;
    size_t k;
    switch (op) {
    case 0: errno = EINTR; return -1;
    case 1: errno = EIO; return -1;
    case 2: return 0;
    case 3: k = 1; break;
    case 5: k = n > 1 ? n - 1 : 1; break;
    case 6: k = 1 + rnd() % n; break;
    case 7: errno = EAGAIN; return -1;
    default: k = n;
    }
    if (big) { if ((uint8_t *)buf != base + delivered) fail("fill", "read does not continue where the last one ended", (uint8_t *)buf - base, delivered); }
    else for (size_t i = 0; i < k; i++) ((uint8_t *)buf)[i] = S(delivered + i);
    delivered += k;
    return k;
}
static void one(unsigned long long n)
{
    L = n; delivered = 0; spos = 0; calls = 0; cases++;
    uint8_t *m = malloc(n + 128); memset(m, 0, n + 128); base = m + 64; big = 0;
    memset(m, 0xA6, 64); memset(m + 64 + n, 0xA6, 64); memset(m + 64, 0xA6, n);
    { char *q = ctxs; q += sprintf(q, "len=%llu reads=", n); for (int i = 0; i < slen; i++) q += sprintf(q, "%d", script[i]); }
    randombytes(base, n);
    for (int i = 0; i < 64; i++) if (m[i] != 0xA6 || m[64 + n + i] != 0xA6) { fail("outside", "byte outside the request written", i, n); break; }
    if (delivered < n) fail("fill", "returns before the request is filled", delivered, n);
    else if (delivered == n) for (unsigned long long i = 0; i < n; i++) if (m[64 + i] != S(i)) { fail("fill", "byte is not the one read from the device", i, n); break; }
    free(m);
}
static void bigone(unsigned long long n)
{
    L = n; delivered = 0; spos = 0; calls = 0; big = 1; cases++;
    base = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) return;
    sprintf(ctxs, "len=%llu", n);
    randombytes(base, n);
    if (delivered != n) fail("fill", "request not filled exactly", delivered, n);
    munmap(base, n); big = 0;
}
static void sub(int of, int fdv, unsigned long long n, int sc)
{
    fflush(stdout); cases++;
    pid_t p = fork();
    if (!p) {
        openfail = of; fdval = fdv; slen = 0;
        if (sc >= 0) { script[0] = sc; slen = 1; }
        long f0 = fails; one(n); one(n + 3);
        fflush(stdout); _exit(fails != f0);
    }
    int st; waitpid(p, &st, 0);
    if (st) { fails++; if (!WIFEXITED(st)) printf("FAIL crash first call: open fails %d times, descriptor %d, length %llu: status %d\n", of, fdv, n, st); }
}
int main(int c, char **v)
{
    rs ^= strtoull(v[1], 0, 0) * 0x9E3779B97F4A7C15ULL; double budget = c > 2 ? atof(v[2]) : 1;
    static const unsigned long long ln[] = {0, 1, 2, 3, 17, 96, 1000, 1048575, 1048576, 1048577, 2097152, 3145729};
    int fds[] = {0, 3, 7, 255, 1023};
    for (int of = 0; of < 5; of++) for (int i = 0; i < 5; i++) for (int sc = -1; sc < 8; sc++) sub(of, fds[i], i == 4 ? 1048577 : 96, sc);
    sub(40, 5, 10, 0);
    int depth = budget > 10 ? 6 : 4, tot = 1;
    for (int d = 0; d <= depth; d++, tot *= 8) for (int e = 0; e < tot; e++) {
        slen = d; for (int i = 0, x = e; i < d; i++, x /= 8) script[i] = x % 8;
        one(5); if (d <= 3) { one(0); one(1); one(96); }
        if (d <= 2) for (unsigned i = 6; i < sizeof ln / sizeof *ln; i++) one(ln[i]);
        if (fails > 20) goto end;
    }
    /* long runs of errors, and of one-byte reads */
    for (int op = 0; op < 8; op++) { slen = 64; for (int i = 0; i < 64; i++) script[i] = op; one(100); one(1048577); }
    time_t t0 = time(0);
    do { slen = 20; for (int i = 0; i < 20; i++) script[i] = rnd() % 8; one(rnd() % 3 ? rnd() % 300 : 1048576 - 20 + rnd() % 40); } while (time(0) - t0 < budget && fails < 20);
    slen = 0;
    bigone(0x7fffffffULL); bigone(0x80000000ULL); bigone(0x80000001ULL); bigone(0xffffffffULL); bigone(0x100000000ULL); bigone(0x100000005ULL); bigone(0x180000003ULL); bigone(0x200000001ULL);
end:
    printf("DONE %ld\n", cases);
    return fails != 0;
}
