/* Equal inputs give equal outputs: whatever ran before, in whatever order,
   and whatever runs at the same time on other keys and buffers.
   conc seq SEED SECONDS | conc thr SEED SECONDS */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <time.h>
#include <unistd.h>
#include <sys/wait.h>
#include <pthread.h>
#include "params.h"
#include "xmss_core.h"
#include "xmss.h"

static __thread uint64_t rs;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ULL; }
static void fillr(uint8_t *p, size_t n) { while (n--) *p++ = (uint8_t)(rnd() >> 24); }
static __thread const uint8_t *stream;
void randombytes(unsigned char *x, unsigned long long n) { memcpy(x, stream, n); stream += n; }
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void tobe(uint8_t *p, unsigned k, uint64_t v) { while (k--) { p[k] = (uint8_t)v; v >>= 8; } }
static uint64_t fnv(uint64_t h, const void *q, size_t n) { const uint8_t *p = q; while (n--) h = (h ^ *p++) * 1099511628211ULL; return h; }

/* configuration: f n w H d k, or an OID of the multi-tree family */
typedef struct { unsigned oid, f, n, w, H, d, k, pad; } cfg;
static const cfg CF[] = {
#ifdef FAST
    {0, 0, 32, 16, 6, 2, 0, 32}, {0, 0, 24, 16, 6, 1, 2, 4}, {0, 2, 32, 16, 6, 2, 0, 32}, {0, 1, 32, 16, 9, 3, 0, 32}, {0, 0, 64, 16, 6, 2, 1, 64}, {0, 2, 24, 16, 5, 1, 1, 4}, {0, 0, 32, 4, 6, 2, 0, 32}, {0x22, 0, 0, 0, 0, 0, 0, 0}, {0x02, 0, 0, 0, 0, 0, 0, 0},
#else
    {0, 0, 32, 16, 4, 2, 0, 32}, {0, 0, 24, 16, 4, 1, 0, 4}, {0, 2, 32, 16, 6, 3, 0, 32}, {0, 1, 32, 16, 4, 2, 0, 32}, {0, 0, 64, 16, 4, 2, 0, 64}, {0, 2, 24, 16, 4, 1, 0, 4}, {0, 0, 32, 4, 4, 2, 0, 32}, {0, 0, 32, 256, 4, 2, 0, 32}, {0x22, 0, 0, 0, 0, 0, 0, 0}, {0x02, 0, 0, 0, 0, 0, 0, 0},
#endif
};
#define NCF (int)(sizeof CF / sizeof *CF)
#define STEPS 4
/* a job is a key and what is done with it; steps can be interleaved with other jobs */
typedef struct { int c, id; unsigned share; xmss_params q; uint8_t seeds[192]; uint64_t rs; uint8_t *pk, *sk; size_t pko, sko; uint64_t dig[STEPS]; int mt; uint8_t *buf[8]; int nb; } job;
static int setup(job *j)
{
    const cfg *c = &CF[j->c]; memset(&j->q, 0, sizeof j->q);
    if (c->oid) { j->mt = 1; return xmssmt_parse_oid(&j->q, c->oid); }
    j->q.func = c->f; j->q.n = c->n; j->q.wots_w = c->w; j->q.full_height = c->H; j->q.d = c->d; j->q.bds_k = c->k; j->q.padding_len = c->pad; j->mt = c->d > 1;
    return xmss_xmssmt_initialize_params(&j->q);
}
static void dirty(unsigned n) { volatile uint8_t b[4096]; uint8_t v = (uint8_t)rnd(); for (unsigned i = 0; i < sizeof b; i++) b[i] = v; if (n) dirty(n - 1); __asm__ volatile("" :: "r"(b) : "memory"); }
/* buffers of arbitrary alignment with arbitrary content */
static uint8_t *get(size_t n, size_t *off) { *off = rnd() % 16; uint8_t *p = malloc(n + 64); fillr(p, n + 64); return p + *off; }
static void jinit(job *j, uint64_t seed, int c, unsigned share)
{
    memset(j, 0, sizeof *j); j->c = c; j->share = share;
    rs = seed * 0x9E3779B97F4A7C15ULL + 12345; for (int i = 0; i < 8; i++) rnd();
    uint8_t base[192]; fillr(base, 192); memcpy(j->seeds, base, 192);
    setup(j);
    unsigned n = j->q.n;
    /* keys that agree in all but one of the three seeds, or in all but one byte */
    if (share & 4) { unsigned at[3] = {0, 1, 2}; unsigned s = at[share & 3 ? (share & 3) - 1 : 0]; j->seeds[s * n + n - 1] ^= 0x40; }
    else if (share & 3) { uint8_t o[64]; fillr(o, 64); for (unsigned k = 0; k < share; k++) fillr(o, 64); memcpy(j->seeds + ((share & 3) - 1) * n, o, n); }
}
static void step(job *j, int s)
{
    unsigned n = j->q.n; uint64_t h = 14695981039346656037ULL; size_t o1, o2, o3; unsigned O = CF[j->c].oid ? 4 : 0;
    unsigned long long sl = 0, ol = 0; int r;
    if (s == 0) {
        j->pk = get(2 * n + 4, &j->pko); j->sk = get(j->q.sk_bytes + 4, &j->sko); stream = j->seeds;
        dirty(4);
        r = O ? xmssmt_keypair(j->pk, j->sk, CF[j->c].oid) : j->mt ? xmssmt_core_keypair(&j->q, j->pk, j->sk) : xmss_core_keypair(&j->q, j->pk, j->sk);
        h = fnv(h, &r, sizeof r); h = fnv(h, j->pk, O + 2 * n); h = fnv(h, j->sk, O + j->q.sk_bytes);
#ifndef FAST
        if (j->share & 8) tobe(j->sk + O, j->q.index_bytes, (1ULL << j->q.full_height) / 2 - 2);
#endif
        j->dig[s] = h; return;
    }
    size_t ml = (size_t)(s == 2 ? 0 : (j->c * 37 + s * 101) % 300);
    uint8_t *m = get(ml, &o1), *sm = get(j->q.sig_bytes + ml, &o2), *o = get(j->q.sig_bytes + ml, &o3);
    for (size_t i = 0; i < ml; i++) m[i] = (uint8_t)(i * 7 + s + j->c);
    dirty(s);
    r = O ? xmssmt_sign(j->sk, sm, &sl, m, ml) : j->mt ? xmssmt_core_sign(&j->q, j->sk, sm, &sl, m, ml) : xmss_core_sign(&j->q, j->sk, sm, &sl, m, ml);
    h = fnv(h, &r, sizeof r); h = fnv(h, &sl, sizeof sl); h = fnv(h, j->sk, O + j->q.sk_bytes);
    if (!r) h = fnv(h, sm, j->q.sig_bytes + ml);
    for (int k = 0; k < 3; k++) {
        size_t len = j->q.sig_bytes + ml; uint8_t *g = sm + (k == 1 ? j->q.sig_bytes / 2 : j->q.sig_bytes - 1);
        if (r) break;
        if (k) *g ^= 0x10;
        dirty(7 - s);
        int v = O ? xmssmt_sign_open(o, &ol, sm, len, j->pk) : j->mt ? xmssmt_core_sign_open(&j->q, o, &ol, sm, len, j->pk) : xmss_core_sign_open(&j->q, o, &ol, sm, len, j->pk);
        h = fnv(h, &v, sizeof v); h = fnv(h, &ol, sizeof ol); h = fnv(h, o, ol < len ? ol : len);
        if (k) *g ^= 0x10;
    }
    h = fnv(h, m, ml); h = fnv(h, j->pk, O + 2 * n);
    free(m - o1); free(sm - o2); free(o - o3);
    j->dig[s] = h;
}
static void done(job *j) { free(j->pk - j->pko); free(j->sk - j->sko); }
static int fails; static long cases;
static void fail(const char *t, const char *w, const job *j, int s) { if (fails++ < 6) { printf("FAIL %s %s: configuration %d sharing %u step %d\n", t, w, j->c, j->share, s); fflush(stdout); } }
static void cmp(const job *a, const job *b, const char *w) { cases++; for (int s = 0; s < STEPS; s++) if (a->dig[s] != b->dig[s]) { fail("hidden", w, b, s); return; } }
#define MAXJ 64
/* each job alone in a process of its own */
static void fresh(job *j, uint64_t seed)
{
    int p[2]; if (pipe(p)) exit(2);
    fflush(stdout);
    pid_t c = fork();
    if (!c) { rs ^= seed; for (int s = 0; s < STEPS; s++) { rs = seed + s; step(j, s); } if (write(p[1], j->dig, sizeof j->dig) < 0) _exit(3); _exit(0); }
    close(p[1]);
    size_t k = 0; ssize_t r; while (k < sizeof j->dig && (r = read(p[0], (char *)j->dig + k, sizeof j->dig - k)) > 0) k += r;
    close(p[0]); int st; waitpid(c, &st, 0);
    if (k < sizeof j->dig) { fail("hidden", "a fresh process ends abnormally", j, st); }
}
static job J0[MAXJ];
static int mkjobs(job *J, uint64_t seed)
{
    static const unsigned sh[] = {0, 0, 1, 2, 3, 5, 6, 7, 8}; int k = 0;
    for (int c = 0; c < NCF; c++) for (int i = 0; i < (int)(sizeof sh / sizeof *sh) && k < MAXJ; i++) {
        if (CF[c].oid && i > 0) continue;
        if (c > 0 && i > 1 && i != 2 + (int)((seed + c) % 7)) continue;
        if (c > 2 && i == 1) continue;
        jinit(&J[k], seed, c, sh[i]); J[k].id = k; k++;
    }
    return k;
}
static void order(int *o, int n) { for (int i = 0; i < n; i++) o[i] = i; for (int i = n - 1; i > 0; i--) { int j = rnd() % (i + 1), t = o[i]; o[i] = o[j]; o[j] = t; } }
struct targ { job *J; int n, me, nt; uint64_t seed; double end; job bad; int bads; long cases; pthread_barrier_t *b; };
static void *thr(void *v)
{
    struct targ *a = v; rs = a->seed + a->me * 977 + 5; int round = 0;
    pthread_barrier_wait(a->b);
    do for (int i = (a->me + round) % a->nt; i < a->n; i += a->nt) {
        job j = a->J[i]; j.pk = j.sk = 0; memset(j.dig, 0, sizeof j.dig);
        for (int s = 0; s < STEPS; s++) step(&j, s);
        a->cases++;
        if (memcmp(j.dig, a->J[i].dig, sizeof j.dig)) { a->bad = j; a->bads++; }
        done(&j);
        if (now() > a->end && round) break;
    } while (round++ < 1 || now() < a->end);
    return 0;
}
int main(int c, char **v)
{
    if (c < 4) return 2;
    uint64_t seed = strtoull(v[2], 0, 0); double end = now() + atof(v[3]);
    static job J[MAXJ]; int n = mkjobs(J0, seed);
    if (!strcmp(v[1], "seq")) {
        for (int i = 0; i < n; i++) fresh(&J0[i], seed * 31 + i);
        int round = 0;
        do {
            int at[MAXJ] = {0}, left = n * STEPS; mkjobs(J, seed); rs = seed * 77 + round;
            for (int i = 0; i < 8; i++) rnd();
            if (round & 1) { int o[MAXJ]; order(o, n); for (int i = 0; i < n; i++) for (int s = 0; s < STEPS; s++) step(&J[o[i]], s); }
            else while (left) { int i = rnd() % n; if (at[i] == STEPS) continue; step(&J[i], at[i]++); left--; }
            for (int i = 0; i < n; i++) { cmp(&J0[i], &J[i], round & 1 ? "other result after other operations" : "other result when interleaved with other keys"); done(&J[i]); }
        } while (round++ < 1 || now() < end);
    } else {
        int nt = 6; pthread_t t[8]; struct targ a[8]; pthread_barrier_t b; pthread_barrier_init(&b, 0, nt);
        for (int i = 0; i < n; i++) { rs = seed + i; for (int s = 0; s < STEPS; s++) step(&J0[i], s); done(&J0[i]); }
        for (int i = 0; i < nt; i++) { a[i] = (struct targ){.J = J0, .n = n, .me = i, .nt = nt, .seed = seed, .end = end, .b = &b}; pthread_create(&t[i], 0, thr, &a[i]); }
        for (int i = 0; i < nt; i++) { pthread_join(t[i], 0); cases += a[i].cases; if (a[i].bads) fail("hidden", "other result when run at the same time as other operations", &a[i].bad, a[i].bads); }
    }
    printf("DONE %ld\n", cases);
    return fails != 0;
}
