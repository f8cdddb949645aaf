/* Fault injection into ui/sign.c: every file operation fails in turn.  The
   signer is replaced by a recording stand-in; files live in a scratch
   directory that is removed at the end. */
#define main tool_main
#include "ui/sign.c"
#undef main
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
static uint64_t rs = 88172645463325252ULL;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ULL; }
void randombytes(unsigned char *x, unsigned long long n) { while (n--) *x++ = (unsigned char)(rnd() >> 24); }
FILE *__real_fopen(const char *, const char *); size_t __real_fread(void *, size_t, size_t, FILE *); size_t __real_fwrite(const void *, size_t, size_t, FILE *);
int __real_fseek(FILE *, long, int); long __real_ftell(FILE *); int __real_fflush(FILE *); int __real_fclose(FILE *); void *__real_malloc(size_t);
static int fails; static long cases; static char ctxs[300];
static struct { int ops, tried, failed, failed_before_out, sig, ret, bad_order, bad_key, bad_msg, fired; char what[40]; } *S;
static int in_tool, failat, kind, signret; static char dir[200], kf[260], mf[260];
static uint8_t *K0, *K1; static size_t kz; static uint8_t *M; static size_t ml, sigb, skb, pkb; static unsigned long long smz;
static FILE *fk;
static void fail(const char *tag, const char *msg) { if (fails++ < 6) { printf("FAIL %s %s (%s) %s\n", tag, msg, S->what, ctxs); fflush(stdout); } }
static int hit(const char *w)
{
    if (!in_tool) return 0;
    if (++S->ops != failat) return 0;
    snprintf(S->what, sizeof S->what, "operation %d: %s fails", failat, w); S->fired = 1;
    return 1;
}
static void failed(void) { S->failed = 1; if (!S->tried) S->failed_before_out = 1; }
FILE *__wrap_fopen(const char *p, const char *m) { if (hit("fopen")) { failed(); return 0; } FILE *f = __real_fopen(p, m); if (in_tool && !strcmp(p, kf)) fk = f; return f; }
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f)
{
    if (hit("fread") && s * n) { failed(); if (kind == 0) return 0; size_t k = kind == 1 ? n - 1 : n / 2; return __real_fread(b, s, k, f); }
    return __real_fread(b, s, n, f);
}
static int key_on_disk(void)
{
    uint8_t *b = __real_malloc(kz + 10); int d = open(kf, O_RDONLY); ssize_t r = read(d, b, kz + 10); close(d);
    int ok = r == (ssize_t)kz && !memcmp(b, K1, kz); free(b); return ok;
}
size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f)
{
    if (!in_tool || f == stderr) return __real_fwrite(b, s, n, f);
    int h = hit(f == stdout ? "fwrite of the signature" : "fwrite of the key");
    if (f == stdout) {
        S->tried = 1;
        if (!key_on_disk()) S->bad_order = 1;
        if (!h) S->sig += (int)(s * n); else { failed(); S->sig += (int)(kind ? s * n / 2 : 0); }
    } else if (h) failed();
    if (h) { size_t k = kind == 0 ? 0 : kind == 1 ? n - 1 : n / 2; if (k) __real_fwrite(b, s, k, f); return k; }
    return __real_fwrite(b, s, n, f);
}
int __wrap_fseek(FILE *f, long o, int w) { if (hit("fseek")) { failed(); return -1; } return __real_fseek(f, o, w); }
long __wrap_ftell(FILE *f) { if (hit("ftell")) { failed(); return -1; } return __real_ftell(f); }
int __wrap_fflush(FILE *f) { if (in_tool && hit(f == stdout ? "fflush of the output" : "fflush")) { failed(); return EOF; } return __real_fflush(f); }
static int flushed;
int __wrap_fclose(FILE *f) { return __real_fclose(f); }
void *__wrap_malloc(size_t n) { if (hit("malloc")) { if (n) failed(); return 0; } return __real_malloc(n); }
#ifdef XMSSMT
int __wrap_xmssmt_sign
#else
int __wrap_xmss_sign
#endif
(unsigned char *sk, unsigned char *sm, unsigned long long *smlen, const unsigned char *m, unsigned long long mlen)
{
    if (memcmp(sk, K0 + 4 + pkb, 4 + skb)) S->bad_key = 1;
    if (mlen != ml || (ml && memcmp(m, M, ml))) S->bad_msg = 1;
    memcpy(sk, K1 + 4 + pkb, 4 + skb);
    if (signret) return signret;
    memset(sm, 0x5a, sigb); if (mlen) memcpy(sm + sigb, m, mlen);
    *smlen = sigb + mlen; return 0;
}
static void put(const char *p, const uint8_t *b, size_t n) { int d = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (write(d, b, n) != (ssize_t)n) exit(3); close(d); }
static int get(const char *p, uint8_t *b, size_t n) { int d = open(p, O_RDONLY); ssize_t r = read(d, b, n); close(d); return (int)r; }
static void run(int at, int k, int sr, int trunc)
{
    char of[300], *av[] = {"sign", kf, mf, 0};
    snprintf(of, sizeof of, "%s/out", dir);
    put(kf, K0, trunc ? (size_t)trunc : kz); put(mf, M, ml);
    memset(S, 0, sizeof *S); failat = at; kind = k; signret = sr;
    fflush(stdout);
    pid_t p = fork();
    if (!p) {
        int d = open(of, O_RDWR | O_CREAT | O_TRUNC, 0600), e = open("/dev/null", O_WRONLY);
        dup2(d, 1); dup2(e, 2); in_tool = 1;
        int r = tool_main(3, av);
        in_tool = 0; exit(r);
    }
    int st; waitpid(p, &st, 0); cases++;
    if (!WIFEXITED(st)) { fail("crash", "the tool crashed"); return; }
    int rv = WEXITSTATUS(st);
    uint8_t *o = malloc(sigb + ml + 100), *kb = malloc(kz + 100); int on = get(of, o, sigb + ml + 100), kn = get(kf, kb, kz + 100);
    if (S->bad_order) fail("order", "signature written before the key was stored");
    if (S->failed && rv == 0) fail("exit", "exit status 0 after a failed operation");
    if (S->failed_before_out && on > 0) fail("output", "output after a failed operation");
    if ((sr || trunc) && rv == 0) fail("exit", "exit status 0 although signing was not possible");
    if ((sr || trunc) && on > 0) fail("output", "output although signing was refused");
    if (rv == 0 && (on != (int)(sigb + ml) || memcmp(o + sigb, M, ml))) fail("output", "exit status 0 without the complete signed message");
    if (!S->failed && !sr && !trunc && rv) fail("exit", "nonzero exit status without a failure");
    if (!S->failed && !trunc && (kn != (int)kz || memcmp(kb, K1, kz))) fail("store", "the key file does not hold the key left by the signer");
    if (S->bad_key || S->bad_msg) { if (rv == 0 || on > 0 || (kn >= 4 && memcmp(kb, K0, kn < (int)kz ? kn : kz))) fail("store", "signed with something that was not read from the files"); }
    if (kn != (int)(trunc ? (size_t)trunc : kz) || memcmp(kb, K0, 4 + pkb < (size_t)kn ? 4 + pkb : (size_t)kn) || (kn >= (int)(8 + pkb) && memcmp(kb + 4 + pkb, K0 + 4 + pkb, 4))) fail("store", "public key or OID in the key file changed");
    free(o); free(kb);
}
int main(int c, char **v)
{
    uint32_t oids[] = {1, 2, 7, 10, 0x10}; xmss_params q;
    if (c < 4) return 2;
    rs ^= strtoull(v[1], 0, 0) * 0x9E3779B97F4A7C15ULL + atoi(v[2]) * 77777; for (int i = 0; i < 8; i++) rnd();
    S = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    strcpy(dir, "/tmp/vxtool.XXXXXX"); if (!mkdtemp(dir)) return 2;
    snprintf(kf, sizeof kf, "%s/key", dir); snprintf(mf, sizeof mf, "%s/msg", dir);
    for (int r = 0; r < atoi(v[3]); r++) {
        uint32_t oid = oids[rnd() % 5], oid2 = rnd() % 4 ? oid : oids[rnd() % 5];
        if (XMSS_PARSE_OID(&q, oid)) continue;
        pkb = q.pk_bytes;
        if (XMSS_PARSE_OID(&q, oid2)) continue;
        skb = q.sk_bytes; sigb = q.sig_bytes; kz = 8 + pkb + skb + (rnd() % 4 == 0 ? 13 : 0);
        K0 = malloc(kz); K1 = malloc(kz); randombytes(K0, kz); memcpy(K1, K0, kz);
        for (int i = 0; i < 4; i++) { K0[i] = K1[i] = oid >> (24 - 8 * i); K0[4 + pkb + i] = K1[4 + pkb + i] = oid2 >> (24 - 8 * i); }
        randombytes(K1 + 8 + pkb, skb);
        ml = r % 3 == 0 ? 0 : rnd() % 5000; M = malloc(ml + 1); randombytes(M, ml + 1);
        sprintf(ctxs, "oid=%#x/%#x mlen=%zu", oid, oid2, ml);
        run(0, 0, 0, 0); run(0, 0, -2, 0); run(0, 0, -1, 0);
        int nops = 0; run(0, 0, 0, 0); nops = S->ops;
        for (int at = 1; at <= nops + 2; at++) for (int k = 0; k < 3; k++) run(at, k, 0, 0);
        for (int at = 1; at <= nops + 2; at++) run(at, 0, -2, 0);
        size_t cut[] = {1, 3, 4, 4 + pkb, 6 + pkb, 8 + pkb, 9 + pkb, 8 + pkb + skb / 2, 8 + pkb + skb - 1};
        for (unsigned i = 0; i < sizeof cut / sizeof *cut; i++) run(0, 0, 0, (int)cut[i]);
        free(K0); free(K1); free(M);
    }
    char of[300]; snprintf(of, sizeof of, "%s/out", dir); unlink(of); unlink(kf); unlink(mf); rmdir(dir);
    printf("DONE %ld\n", cases);
    return fails != 0;
}
