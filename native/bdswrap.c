/* C15: the real xmss_core_fast.c with its (static) state (de)serialisation made
   callable.  The text under proof is the included file. */
#include "xmss_core_fast.c"

/* one state's contents to or from a flat record `v` */
static unsigned char *vx_put(unsigned char *region, unsigned char *v, unsigned long z) { memcpy(region, v, z); return v + z; }
static unsigned char *vx_get(unsigned char *region, unsigned char *v, unsigned long z) { memcpy(v, region, z); return v + z; }

/* in: contents for every part of every state and the one-time signatures;
   out: what reloading from the secret key alone gives */
void vx_roundtrip(const xmss_params *params, unsigned char *sk, unsigned char *in, unsigned char *out,
                  const unsigned char *hs, const unsigned long *nexts, const unsigned char *usage, const unsigned char *compl_, const unsigned int *offs, const unsigned int *leaves,
                  unsigned char *hs2, unsigned long *nexts2, unsigned char *usage2, unsigned char *compl2, unsigned int *offs2, unsigned int *leaves2)
{
    unsigned int T = params->tree_height, K = params->bds_k, n = params->n, S = 2*params->d - 1, i, j;
    bds_state a[S], b[S];
    treehash_inst ta[S * (T - K)], tb[S * (T - K)];
    unsigned char *wa = NULL, *wb = NULL;
    for (i = 0; i < S; i++) { a[i].treehash = ta + i * (T - K); b[i].treehash = tb + i * (T - K); }
    if (params->d > 1) xmssmt_deserialize_state(params, a, &wa, sk); else xmss_deserialize_state(params, a, sk);
    for (i = 0; i < S; i++) {
        in = vx_put(a[i].stack, in, (T + 1) * n);
        in = vx_put(a[i].stacklevels, in, T + 1);
        in = vx_put(a[i].auth, in, T * n);
        in = vx_put(a[i].keep, in, (T >> 1) * n);
        in = vx_put(a[i].retain, in, ((1 << K) - K - 1) * n);
        for (j = 0; j < T - K; j++) {
            in = vx_put(a[i].treehash[j].node, in, n);
            a[i].treehash[j].h = hs[i * (T - K) + j];
            a[i].treehash[j].next_idx = nexts[i * (T - K) + j];
            a[i].treehash[j].stackusage = usage[i * (T - K) + j];
            a[i].treehash[j].completed = compl_[i * (T - K) + j];
        }
        a[i].stackoffset = offs[i];
        a[i].next_leaf = leaves[i];
    }
    if (params->d > 1) in = vx_put(wa, in, (params->d - 1) * params->wots_sig_bytes);
    if (params->d > 1) xmssmt_serialize_state(params, sk, a); else xmss_serialize_state(params, sk, a);
    if (params->d > 1) xmssmt_deserialize_state(params, b, &wb, sk); else xmss_deserialize_state(params, b, sk);
    for (i = 0; i < S; i++) {
        out = vx_get(b[i].stack, out, (T + 1) * n);
        out = vx_get(b[i].stacklevels, out, T + 1);
        out = vx_get(b[i].auth, out, T * n);
        out = vx_get(b[i].keep, out, (T >> 1) * n);
        out = vx_get(b[i].retain, out, ((1 << K) - K - 1) * n);
        for (j = 0; j < T - K; j++) {
            out = vx_get(b[i].treehash[j].node, out, n);
            hs2[i * (T - K) + j] = b[i].treehash[j].h;
            nexts2[i * (T - K) + j] = b[i].treehash[j].next_idx;
            usage2[i * (T - K) + j] = b[i].treehash[j].stackusage;
            compl2[i * (T - K) + j] = b[i].treehash[j].completed;
        }
        offs2[i] = b[i].stackoffset;
        leaves2[i] = b[i].next_leaf;
    }
    if (params->d > 1) vx_get(wb, out, (params->d - 1) * params->wots_sig_bytes);
}

#ifdef VX_MAIN
/* concrete runs: n H d k seed count */
#include <stdio.h>
#include <stdlib.h>
static unsigned long long rs = 88172645463325252ULL;
static unsigned long long rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ULL; }
void randombytes(unsigned char *x, unsigned long long k) { while (k--) *x++ = rnd() >> 20; }
static void *fill(unsigned long z) { unsigned char *p = malloc(z ? z : 1); for (unsigned long i = 0; i < z; i++) p[i] = rnd() >> 20; return p; }
int main(int c, char **v)
{
    xmss_params p; memset(&p, 0, sizeof p);
    unsigned n = atoi(v[1]), H = atoi(v[2]), d = atoi(v[3]), K = atoi(v[4]), count = atoi(v[6]); long cases = 0; int fails = 0;
    rs ^= strtoull(v[5], 0, 0) * 0x9E3779B97F4A7C15ULL;
    p.func = 0; p.n = n; p.padding_len = n == 24 ? 4 : n; p.wots_w = 16; p.full_height = H; p.d = d; p.bds_k = K;
    if (xmss_xmssmt_initialize_params(&p)) { printf("FAIL params initialisation fails\nDONE 0\n"); return 1; }
    unsigned T = H / d, S = 2 * d - 1, I = S * (T - K), i, q;
    unsigned long R = S * ((T + 1) * n + T + 1 + T * n + (T >> 1) * n + ((1 << K) - K - 1) * n + (T - K) * n) + (d - 1) * p.wots_sig_bytes, pre = p.index_bytes + 4 * n;
    if (p.sk_bytes != pre + R + S * 8 + I * 7) { printf("FAIL layout the secret key length is %llu, the state needs %lu\n", (unsigned long long)p.sk_bytes, pre + R + S * 8 + I * 7); fails++; }
    for (q = 0; q < count && fails < 4; q++, cases++) {
        unsigned char *g = fill(p.sk_bytes + 128), *sk = g + 64, *in = fill(R), *out = fill(R), *g0 = malloc(p.sk_bytes + 128);
        unsigned char *h = fill(I), *us = fill(I), *co = fill(I), *h2 = fill(I), *us2 = fill(I), *co2 = fill(I);
        unsigned long *nx = malloc(8 * I + 8), *nx2 = malloc(8 * I + 8); unsigned *of = malloc(4 * S), *le = malloc(4 * S), *of2 = malloc(4 * S), *le2 = malloc(4 * S);
        memcpy(g0, g, p.sk_bytes + 128);
        for (i = 0; i < I; i++) { h[i] %= T; us[i] %= T + 1; co[i] &= 1; nx[i] = rnd() % ((1UL << T) + (q & 1)); }
        for (i = 0; i < S; i++) { of[i] = rnd() % (T + 2); le[i] = q % 3 == 0 ? 1U << T : rnd() % (1U << T); }
        vx_roundtrip(&p, sk, in, out, h, nx, us, co, of, le, h2, nx2, us2, co2, of2, le2);
        const char *e = 0;
        if (memcmp(in, out, R)) e = "nodes, levels or one-time signatures";
        else if (memcmp(h, h2, I) || memcmp(us, us2, I) || memcmp(co, co2, I) || memcmp(nx, nx2, 8 * I)) e = "a treehash instance";
        else if (memcmp(of, of2, 4 * S) || memcmp(le, le2, 4 * S)) e = "stack offset or next leaf";
        if (e) { printf("FAIL state %s not the same after storing and loading the state (n=%u H=%u d=%u k=%u)\n", e, n, H, d, K); fails++; }
        if (memcmp(sk, g0 + 64, pre)) { printf("FAIL state index, seeds or root change (n=%u H=%u d=%u k=%u)\n", n, H, d, K); fails++; }
        if (memcmp(g, g0, 64) || memcmp(sk + p.sk_bytes, g0 + 64 + p.sk_bytes, 64)) { printf("FAIL state write outside the secret key (n=%u H=%u d=%u k=%u)\n", n, H, d, K); fails++; }
        void *fr[] = {g, in, out, g0, h, us, co, h2, us2, co2, nx, nx2, of, le, of2, le2};
        for (i = 0; i < sizeof fr / sizeof *fr; i++) free(fr[i]);
    }
    printf("DONE %ld\n", cases); return fails != 0;
}
#endif
