/* The traversal of the fast signer with the hash functions replaced by labels:
   a leaf is the label (layer, tree, 0, index), hashing the labels of two
   siblings with the right address gives the label of their parent, anything
   else a bad label.  What the real code of xmss_core_fast.c then puts into a
   signature names the node it would be for every seed.
     life n H d k steps seed     from key generation (steps 0: to exhaustion and beyond)
     jump n H d seed first count [steps]   from states constructed at deep indices */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "params.h"
#include "xmss_core.h"
#define U uint64_t
static U rs = 88172645463325252ULL;
static U rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ULL; }
typedef struct __attribute__((packed)) { uint8_t type, layer, h, bad; uint32_t idx; U tree; U x; } lab;
static int fails; static long cases; static char ctxs[200]; static long leaves;
static void fail(const char *tag, const char *msg, U idx, long a) { if (fails++ < 6) { printf("FAIL %s %s (index %llu, %ld) %s\n", tag, msg, (unsigned long long)idx, a, ctxs); fflush(stdout); } }
static xmss_params p; static unsigned n, H, D, T, K; static uint8_t SEED[64], PRF[64], PUB[64];
static void put(uint8_t *o, int type, int layer, U tree, int h, uint32_t idx, int bad)
{ lab l; memset(&l, 0, sizeof l); l.type = type; l.layer = layer; l.h = h; l.bad = bad; l.idx = idx; l.tree = tree; memset(o, 0, n); memcpy(o, &l, sizeof l); }
static void node(uint8_t *o, int layer, U tree, int h, uint32_t idx) { put(o, 1, layer, tree, h, idx, 0); }
static U tr(const uint32_t *a) { return (U)a[1] << 32 | a[2]; }
static int rnum;
void randombytes(unsigned char *x, unsigned long long k) { while (k--) { int q = rnum++; *x++ = q < (int)n ? SEED[q] : q < (int)(2 * n) ? PRF[q - n] : q < (int)(3 * n) ? PUB[q - 2 * n] : 0xEE; } }
int __wrap_prf(const xmss_params *q, unsigned char *o, const unsigned char *in, const unsigned char *key)
{ U v = 0; int bad = memcmp(key, PRF, n) != 0; for (int i = 0; i < 24; i++) bad |= in[i]; for (int i = 24; i < 32; i++) v = v << 8 | in[i]; put(o, 7, 0, v, 0, 0, bad); return 0; }
static uint8_t ROOT[64];
int __wrap_hash_message(const xmss_params *q, unsigned char *o, const unsigned char *R, const unsigned char *root, unsigned long long idx, unsigned char *m, unsigned long long ml)
{ uint8_t w[64]; put(w, 7, 0, idx, 0, 0, 0); put(o, 9, 0, idx, 0, (uint32_t)ml, memcmp(R, w, n) || memcmp(root, ROOT, n) || memcmp(m + q->padding_len + 3 * n, "hello", ml)); return 0; }
void __wrap_gen_leaf_wots(const xmss_params *q, unsigned char *leaf, const unsigned char *s, const unsigned char *ps, uint32_t lt[8], uint32_t ot[8])
{
    leaves++;
    put(leaf, 1, lt[0], tr(lt), 0, lt[4], lt[3] != 1 || ot[3] != 0 || lt[4] != ot[4] || memcmp(lt, ot, 12) || lt[4] >> T || memcmp(s, SEED, n) || memcmp(ps, PUB, n));
}
int __wrap_thash_h(const xmss_params *q, unsigned char *out, const unsigned char *in, const unsigned char *ps, uint32_t a[8])
{
    lab l, r; memcpy(&l, in, sizeof l); memcpy(&r, in + n, sizeof r);
    int ok = l.type == 1 && r.type == 1 && !l.bad && !r.bad && l.layer == r.layer && l.tree == r.tree && l.h == r.h && l.idx + 1 == r.idx && !(l.idx & 1)
             && a[0] == l.layer && tr(a) == l.tree && a[3] == 2 && a[5] == l.h && a[6] == l.idx >> 1 && !memcmp(ps, PUB, n);
    put(out, 1, a[0], tr(a), a[5] + 1, a[6], !ok); return 0;
}
void __wrap_wots_sign(const xmss_params *q, unsigned char *sig, const unsigned char *msg, const unsigned char *s, const unsigned char *ps, uint32_t a[8])
{
    uint8_t b[128]; memcpy(b, msg, n); put(b + n, 3, a[0], tr(a), a[3], a[4], memcmp(s, SEED, n) || memcmp(ps, PUB, n));
    for (unsigned i = 0; i < q->wots_sig_bytes; i++) sig[i] = i < 2 * n ? b[i] : (uint8_t)(i * 7 + b[n + 1] * 31 + b[n + 4] + b[8]);
}
static void want_wots(uint8_t *o, int layer, U tree, uint32_t leaf, const uint8_t *msg)
{ uint32_t a[8] = {layer, tree >> 32, (uint32_t)tree, 0, leaf, 0, 0, 0}; __wrap_wots_sign(&p, o, msg, SEED, PUB, a); }
static uint8_t *sk, *sm, *pk, *w, G[64];
#define GZ 64
static uint8_t *gal(size_t z)
{
#ifdef __SANITIZE_ADDRESS__
    uint8_t *q = malloc(z);
#else
    uint8_t *q = malloc(z + 2 * GZ); memset(q, 0xC3, GZ); memset(q + GZ + z, 0xC3, GZ); q += GZ;
#endif
    for (size_t i = 0; i < z; i++) q[i] = (uint8_t)(rnd() >> 20);
    return q;
}
static int gbad(uint8_t *q, size_t z)
{
#ifndef __SANITIZE_ADDRESS__
    for (int i = 0; i < GZ; i++) if (q[-1 - i] != 0xC3 || q[z + i] != 0xC3) return 1;
#endif
    return 0;
}
static int setup(int argc, char **v)
{
    n = atoi(v[2]); H = atoi(v[3]); D = atoi(v[4]);
    memset(&p, 0, sizeof p); p.func = 0; p.n = n; p.padding_len = n == 24 ? 4 : n; p.wots_w = 16; p.full_height = H; p.d = D; p.bds_k = K;
    if (xmss_xmssmt_initialize_params(&p)) { fail("params", "initialisation fails", 0, 0); return 1; }
    T = H / D;
    if (p.tree_height != T || p.n != n || p.d != D) { fail("params", "derived parameters", 0, 0); return 1; }
    for (unsigned i = 0; i < n; i++) { SEED[i] = rnd() >> 20; PRF[i] = rnd() >> 20; PUB[i] = rnd() >> 20; }
    sk = gal(p.sk_bytes); pk = gal(p.pk_bytes); sm = gal(p.sig_bytes + 5); w = malloc(p.wots_sig_bytes);
    node(ROOT, D - 1, 0, T, 0);
    sprintf(ctxs, "n=%u H=%u d=%u k=%u", n, H, D, K);
    return 0;
}
static int core_sign(unsigned long long *sl, const char *m, unsigned ml) { return D == 1 ? xmss_core_sign(&p, sk, sm, sl, (const uint8_t *)m, ml) : xmssmt_core_sign(&p, sk, sm, sl, (const uint8_t *)m, ml); }
static U ridx(const uint8_t *q) { U x = 0; for (unsigned i = 0; i < p.index_bytes; i++) x = x << 8 | q[i]; return x; }
/* one signature at the index in sk; checks everything observable */
static int step(U i, int last)
{
    unsigned long long sl = 77; unsigned ml = i % 6; uint8_t b[128];
    if (ridx(sk) != i) { fail("index", "secret key index", i, (long)ridx(sk)); return 1; }
    int r = core_sign(&sl, "hello", ml); cases++;
    if (r) { fail("refuse", "signing fails", i, r); return 1; }
    if (sl != p.sig_bytes + ml) fail("sig", "reported length", i, (long)sl);
    if (ridx(sm) != i) fail("sig", "index in the signature", i, (long)ridx(sm));
    uint8_t *q = sm + p.index_bytes;
    put(b, 7, 0, i, 0, 0, 0); if (memcmp(q, b, n)) fail("sig", "randomiser", i, 0);
    q += n;
    put(b, 9, 0, i, 0, ml, 0);
    U t = i;
    for (unsigned L = 0; L < D; L++) {
        uint32_t leaf = t & (((U)1 << T) - 1); t >>= T;
        want_wots(w, L, t, leaf, b);
        if (memcmp(q, w, p.wots_sig_bytes)) { lab x; memcpy(&x, q + n, sizeof x); fail("sig", memcmp(q, w, n) ? "one-time signature of a wrong value" : "one-time signature by a wrong key", i, L); }
        q += p.wots_sig_bytes;
        for (unsigned k = 0; k < T; k++, q += n) { node(b, L, t, k, (leaf >> k) ^ 1); if (memcmp(q, b, n)) fail("sig", "authentication path node", i, L * 100 + k); }
        node(b, L, t, T, 0);
    }
    if (memcmp(q, "hello", ml)) fail("sig", "message", i, 0);
    if (last) {
        int bad = 0; for (unsigned k = 0; k < p.sk_bytes; k++) bad |= sk[k] != (k < p.index_bytes ? 255 : 0);
        if (bad) fail("erase", "secret key not erased after the last signature", i, 0);
    } else {
        uint8_t *s = sk + p.index_bytes;
        if (ridx(sk) != i + 1) fail("index", "index not advanced by one", i, (long)ridx(sk));
        if (memcmp(s, SEED, n) || memcmp(s + n, PRF, n) || memcmp(s + 2 * n, ROOT, n) || memcmp(s + 3 * n, PUB, n)) fail("seedskept", "seeds or root in the secret key change", i, 0);
    }
    if (gbad(sk, p.sk_bytes) || gbad(sm, p.sig_bytes + ml > p.sig_bytes + 5 ? 0 : p.sig_bytes + 5)) { fail("skmem", "write outside the key or signature buffer", i, 0); return 1; }
    return fails > 20;
}
static int exhausted(U i)
{
    unsigned long long sl = 77;
    int r = core_sign(&sl, "hello", 5); cases++;
    int bad = 0; for (unsigned k = 0; k < p.sk_bytes; k++) bad |= sk[k] != (k < p.index_bytes ? 255 : 0);
    if (r != -2) fail("refuse", "exhausted key signs", i, r);
    if (bad) fail("erase", "exhausted key not erased", i, 0);
    return 0;
}
static U usable(void) { U l = ((U)1 << (H - 1)) * 2; return H == 8 * p.index_bytes ? l - 1 : l; }   /* number of usable indices */
static int life(U steps)
{
    rnum = 0;
    int r = D == 1 ? xmss_core_keypair(&p, pk, sk) : xmssmt_core_keypair(&p, pk, sk);
    if (r) { fail("keygen", "key generation fails", 0, r); return 0; }
    if (rnum != (int)(3 * n)) fail("seeds", "not 3n random bytes requested", 0, rnum);
    uint8_t *s = sk + p.index_bytes;
    if (memcmp(pk, ROOT, n) || memcmp(pk + n, PUB, n)) fail("root", "public key", 0, 0);
    if (ridx(sk) || memcmp(s, SEED, n) || memcmp(s + n, PRF, n) || memcmp(s + 2 * n, ROOT, n) || memcmp(s + 3 * n, PUB, n)) fail("layout", "secret key after key generation", 0, 0);
    if (gbad(sk, p.sk_bytes) || gbad(pk, p.pk_bytes)) fail("keymem", "write outside the key", 0, 0);
    U max = usable(), tot = steps && steps < max ? steps : max;
    for (U i = 0; i < tot; i++) if (step(i, i + 1 == max && H != 8 * p.index_bytes)) return 0;
    if (tot == max) { exhausted(max); exhausted(max + 1); }
    return 0;
}
/* ---- constructed states */
static void wr(uint8_t **q, unsigned z, U v) { for (unsigned i = 0; i < z; i++) (*q)[i] = (uint8_t)(v >> (8 * (z - 1 - i))); *q += z; }
/* tree `t` of layer L with its authentication path for `leaf` and every treehash instance completed */
static void cur(uint8_t **q, unsigned L, U t, uint32_t leaf)
{
    uint8_t *b = *q;
    node(b, L, t, T, 0); b += (T + 1) * n;                     /* stack: left over from building the tree */
    wr(&b, 4, t ? 1 : 0); b[0] = T; b += T + 1;
    for (unsigned k = 0; k < T; k++, b += n) node(b, L, t, k, (leaf >> k) ^ 1);
    for (unsigned k = 0; k < T >> 1; k++, b += n) for (unsigned e = 2 * k; e < 2 * k + 2; e++) if (((leaf >> e) & 3) == 1) node(b, L, t, e, leaf >> e);
    for (unsigned k = 0; k < T - K; k++) {
        U M = (((U)leaf >> (k + 1)) + 1) << (k + 1);
        wr(&b, 1, k); wr(&b, 4, 0); wr(&b, 1, 0); wr(&b, 1, 1);
        if (M < (U)1 << T) node(b, L, t, k, (uint32_t)(M >> k) + 1);
        b += n;
    }
    b += ((1 << K) - K - 1) * n;
    wr(&b, 4, t ? (U)1 << T : 0); *q = b;
}
/* tree `t` of layer L under construction, `done` leaves processed */
static void next(uint8_t **q, unsigned L, U t, uint32_t done)
{
    uint8_t *b = *q, *st = b; unsigned so = 0; uint8_t *lv = b + (T + 1) * n + 4;
    for (int k = T; k >= 0; k--) if ((done >> k) & 1) { node(st + so * n, L, t, k, (done >> k) - 1); lv[so++] = k; }
    b += (T + 1) * n; wr(&b, 4, so); b += T + 1;
    for (unsigned k = 0; k < T; k++, b += n) if (done >= (U)2 << k) node(b, L, t, k, 1);
    b += (T >> 1) * n;
    for (unsigned k = 0; k < T - K; k++) {
        wr(&b, 1, 0xA5); wr(&b, 4, rnd()); wr(&b, 1, 0x5A); wr(&b, 1, 0x77);
        if (k < T - 1 && done >= (U)4 << k) node(b, L, t, k, 3);
        b += n;
    }
    b += ((1 << K) - K - 1) * n;
    wr(&b, 4, done); *q = b;
}
static U blk(void) { return (T + 1) * n + 4 + T + 1 + T * n + (T >> 1) * n + (T - K) * (7 + n) + ((1 << K) - K - 1) * n + 4; }
/* real: a secret key whose NEXT trees and signatures from layer `from` on are taken over */
static void construct(U idx, const uint8_t *real, unsigned from)
{
    uint8_t *q = sk; unsigned L; uint8_t b[64];
    for (unsigned i = 0; i < p.sk_bytes; i++) sk[i] = (uint8_t)(rnd() >> 20);
    wr(&q, p.index_bytes, idx);
    memcpy(q, SEED, n); memcpy(q + n, PRF, n); memcpy(q + 2 * n, ROOT, n); memcpy(q + 3 * n, PUB, n); q += 4 * n;
    for (L = 0; L < D; L++) cur(&q, L, idx >> ((L + 1) * T), (idx >> (L * T)) & (((U)1 << T) - 1));
    for (L = 0; L + 1 < D; L++) {
        U t = (idx >> ((L + 1) * T)) + 1;
        int exists = t < (U)1 << (H - (L + 1) * T - 1) << 1;
        if (real && L >= from) { memcpy(q, real + (q - sk), blk()); q += blk(); continue; }
        next(&q, L, t, !exists ? 0 : L == 0 ? (uint32_t)(idx & (((U)1 << T) - 1)) : (uint32_t)1 << T);
    }
    for (L = 0; L + 1 < D; L++, q += p.wots_sig_bytes) { if (real && L >= from) { memcpy(q, real + (q - sk), p.wots_sig_bytes); continue; } U t = idx >> ((L + 1) * T); node(b, L, t, T, 0); want_wots(q, L + 1, t >> T, t & (((U)1 << T) - 1), b); }
    if (q != sk + p.sk_bytes) fail("layout", "the secret key has not the length of the state", idx, (long)(q - sk));
}
static int run(U idx, U steps, const uint8_t *real, unsigned from)
{
    sprintf(ctxs, "n=%u H=%u d=%u k=%u from=%llu%s", n, H, D, K, (unsigned long long)idx, real ? " spliced" : "");
    construct(idx, real, from);
    U max = usable();
    for (U i = idx; i < idx + steps && i < max; i++) { if (step(i, i + 1 == max && H != 8 * p.index_bytes)) return 1; if (i + 1 == max) { exhausted(max); exhausted(max + 1); } }
    return fails != 0;
}
/* case c: a boundary of layer b+1 (its leaf takes every value), upper digits random or extreme */
static void jump(unsigned c, U steps)
{
    U one = (U)1 << T, mx = one - 1, idx = 0;
    unsigned b = c % (D - 1), r = c / (D - 1);
    for (unsigned L = 1; L < D; L++) {
        U dg;
        if (L <= b) dg = mx;
        else if (L == b + 1) dg = r < one ? (r * 2654435761u + c) & mx : rnd() & mx;
        else dg = r % 5 == 0 ? 0 : r % 5 == 1 ? mx : rnd() & mx;
        if (L == 1 && dg < 6) dg += 6;
        if (r == 0 && L > b) dg = mx - (L == b + 1 && b);        /* towards the very end */
        if (r == 1 && L > b) dg = mx;
        idx |= dg << (L * T);
    }
    if (steps < one) idx |= one - steps / 2;
    if (run(idx, steps, 0, 0)) return;
    U end = ridx(sk), max = usable();
    if (end >= max || steps < one) return;
    uint8_t *real = malloc(p.sk_bytes); memcpy(real, sk, p.sk_bytes);
    /* every NEXT tree built meanwhile must serve when its turn comes: the layers below are moved to their end */
    for (unsigned j = 1; j + 1 < D; j++) {
        U i2 = end >> ((j + 1) * T) << ((j + 1) * T);
        for (unsigned L = 1; L <= j; L++) i2 |= mx << (L * T);
        if (i2 <= end || (end & (((U)1 << ((j + 1) * T)) - 1)) < one * (3 + 3 * j)) continue;   /* not enough signatures since that tree began */
        if (run(i2 | (one > 64 ? one - 40 : 0), one > 64 ? 50 : one + 20, real, j)) break;
    }
    free(real);
}
int main(int c, char **v)
{
    if (c < 7) return 2;
    if (!strcmp(v[1], "life")) { K = atoi(v[5]); rs ^= strtoull(v[7], 0, 0) * 0x9E3779B97F4A7C15ULL; for (int i = 0; i < 9; i++) rnd(); if (!setup(c, v)) life(strtoull(v[6], 0, 0)); }
    else {
        K = 0; rs ^= strtoull(v[5], 0, 0) * 0x9E3779B97F4A7C15ULL; for (int i = 0; i < 9; i++) rnd();
        if (!setup(c, v)) { unsigned f = atoi(v[6]), k = atoi(v[7]); U s = c > 8 ? strtoull(v[8], 0, 0) : 0; for (unsigned i = f; i < f + k && fails < 6; i++) jump(i, s ? s : ((U)1 << T) * (T > 5 ? 6 : 4 + 3 * D)); }
    }
    if (!leaves) { printf("NOTE not applicable: gen_leaf_wots is not called\nDONE 0\n"); return 0; }
    printf("DONE %ld\n", cases);
    return fails != 0;
}
