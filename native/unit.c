/* Concrete differential runs of /repo's internal functions against oracle.c. */
#include "oracle.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <time.h>
#include "params.h"
#include "hash.h"
#include "wots.h"
#include "hash_address.h"
#include "utils.h"
#include "fips202.h"
#include "xmss_commons.h"
static uint64_t rs = 88172645463325252ULL;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ULL; }
static void fillr(uint8_t *p, size_t n) { while (n--) *p++ = (uint8_t)(rnd() >> 24); }
void randombytes(unsigned char *x, unsigned long long n) { fillr(x, n); }
static int fails; static long cases; static char ctxs[300];
static void fail(const char *tag, const char *msg, long long a, long long b)
{ if (fails++ < 6) { printf("FAIL %s %s [%lld %lld] %s\n", tag, msg, a, b, ctxs); fflush(stdout); } }
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define EXACT 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define EXACT 1
#endif
#ifdef EXACT   /* under ASan every access outside the object is trapped, reads included */
static uint8_t *zobj;
static uint8_t *galloc(size_t n) { if (!n) { if (!zobj) zobj = (uint8_t *)malloc(1) + 1; return zobj; } uint8_t *p = malloc(n); fillr(p, n); return p; }
static int gbad(uint8_t *p, size_t n) { (void)p; (void)n; return 0; }
static void gfree(uint8_t *p) { if (p != zobj) free(p); }
#else
#define GUARD 64
static uint8_t *galloc(size_t n) { uint8_t *p = malloc(n + 2 * GUARD); memset(p, 0xC3, GUARD); fillr(p + GUARD, n); memset(p + GUARD + n, 0x3C, GUARD); return p + GUARD; }
static int gbad(uint8_t *p, size_t n) { for (int i = 0; i < GUARD; i++) if (p[-1 - i] != 0xC3 || p[n + i] != 0x3C) return 1; return 0; }
static void gfree(uint8_t *p) { free(p - GUARD); }
#endif
static long diff(const uint8_t *a, const uint8_t *b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return (long)i; return -1; }
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static opar P; static xmss_params Q;
static void setup(int f, unsigned n, unsigned w)
{
    memset(&Q, 0, sizeof Q); o_init(&P, f, n, w, 10, 1);
    Q.func = f; Q.n = n; Q.wots_w = w; Q.full_height = 10; Q.d = 1; Q.padding_len = P.pad;
    xmss_xmssmt_initialize_params(&Q);
    sprintf(ctxs, "func=%d n=%u w=%u", f, n, w);
    if (Q.wots_len != P.len || Q.wots_len1 != P.len1 || Q.wots_len2 != P.len2 || Q.wots_sig_bytes != P.len * n) fail("wotsparams", "derived WOTS parameters", Q.wots_len, P.len);
}
static uint32_t edge32(void) { switch (rnd() % 6) { case 0: return 0; case 1: return ~0u; case 2: return 1u << (rnd() & 31); default: return (uint32_t)rnd(); } }
static uint64_t edge64(void) { switch (rnd() % 6) { case 0: return 0; case 1: return ~0ULL; case 2: return 1ULL << (rnd() & 63); case 3: return (uint32_t)rnd(); default: return rnd(); } }
static void m_hash(double budget)
{
    double t0 = now(); unsigned n = P.n;
    do {
        uint32_t a[8], a0[8]; uint8_t key[64], in[128], out[64], want[64], seed[64]; int al;
        for (int i = 0; i < 8; i++) a[i] = edge32();
        memcpy(a0, a, 32); fillr(key, 64); fillr(in, 128); fillr(seed, 64); cases++;
        prf(&Q, out, in, key); o_prf(&P, want, in, key); if (diff(out, want, n) >= 0) fail("hash", "prf differs", diff(out, want, n), 0);
        prf_keygen(&Q, out, in, key); o_prfkg(&P, want, in, key); if (diff(out, want, n) >= 0) fail("hash", "prf_keygen differs", diff(out, want, n), 0);
        for (al = 0; al < 2; al++) {
            uint8_t *b = galloc(n); memcpy(b, in, n);
            uint8_t *o = al ? b : galloc(n);
            thash_f(&Q, o, b, seed, a); a0[7] = 0; o_F(&P, want, in, seed, a0);
            if (diff(o, want, n) >= 0) fail("hash", "thash_f differs", diff(o, want, n), al);
            if (memcmp(a, a0, 28)) fail("hash", "thash_f changes the address", 0, 0);
            if (gbad(o, n) || gbad(b, n) || (!al && diff(b, in, n) >= 0)) fail("hash", "thash_f memory", al, 0);
            if (!al) gfree(o);
            gfree(b);
            b = galloc(2 * n); memcpy(b, in, 2 * n); o = al ? b : galloc(n);
            thash_h(&Q, o, b, seed, a); o_H(&P, want, in, seed, a0);
            if (diff(o, want, n) >= 0) fail("hash", "thash_h differs", diff(o, want, n), al);
            if (memcmp(a, a0, 28)) fail("hash", "thash_h changes the address", 0, 0);
            if (gbad(o, al ? 2 * n : n) || gbad(b, 2 * n)) fail("hash", "thash_h memory", al, 0);
            if (!al) gfree(o);
            gfree(b);
        }
        size_t ml = rnd() % 5 == 0 ? rnd() % 5000 : rnd() % 300, pre = P.pad + 3 * n; uint64_t idx = edge64();
        uint8_t *buf = galloc(pre + ml), *m = malloc(ml + 1); memcpy(m, buf + pre, ml);
        hash_message(&Q, out, key, seed, idx, buf, ml); o_hmsg(&P, want, key, seed, idx, m, ml);
        if (diff(out, want, n) >= 0) fail("hash", "hash_message differs, length/index", ml, idx);
        if (gbad(buf, pre + ml) || diff(buf + pre, m, ml) >= 0) fail("hash", "hash_message memory", ml, 0);
        gfree(buf); free(m);
    } while (now() - t0 < budget);
}
static void m_hashbig(void)     /* messages of 4 GiB and more (mostly zero pages) */
{
    unsigned n = P.n; uint8_t key[64], seed[64], out[64], want[64]; size_t pre = P.pad + 3 * n;
    for (int k = 0; k < 2; k++) {
        size_t ml = k ? ((size_t)1 << 32) - pre + rnd() % pre : ((size_t)1 << 32) + rnd() % 100000; uint64_t idx = edge64();
        uint8_t *buf = calloc(pre + ml, 1);
        if (!buf) return;
        fillr(key, 64); fillr(seed, 64); fillr(buf + pre, 4096); fillr(buf + pre + ml - 4096, 4096); cases++;
        o_hmsg(&P, want, key, seed, idx, buf + pre, ml); hash_message(&Q, out, key, seed, idx, buf, ml);
        if (diff(out, want, n) >= 0) fail("hash", "hash_message differs, length/index", ml, idx);
        free(buf);
    }
}
static void m_wots(double budget)
{
    double t0 = now(); unsigned n = P.n; size_t B = P.len * n; int it = 0;
    uint8_t *want = malloc(B), *pk0 = malloc(B);
    do {
        uint32_t a[8], b[8]; uint8_t *msg = galloc(n), sk[64], seed[64]; fillr(sk, 64); fillr(seed, 64); cases++;
        for (int i = 0; i < 8; i++) a[i] = edge32();
        if (it == 0) memset(msg, 0, n); else if (it == 1) memset(msg, 0xff, n); else if (it == 2) { memset(msg, 0, n); msg[n - 1] = 1; }
        else if (it % 4 == 3) { memset(msg, rnd() & 1 ? 0xff : 0, n); msg[rnd() % n] = (uint8_t)rnd(); }
        it++;
        uint8_t *sig = galloc(B), *pk = galloc(B);
        memcpy(b, a, 32); wots_pkgen(&Q, pk, sk, seed, b); o_wots_pk(&P, pk0, sk, seed, a);
        if (diff(pk, pk0, B) >= 0) fail("wots", "wots_pkgen differs", diff(pk, pk0, B), it);
        if (memcmp(a, b, 20) || gbad(pk, B)) fail("wots", "wots_pkgen frame", 0, it);
        memcpy(b, a, 32); wots_sign(&Q, sig, msg, sk, seed, b); o_wots_sign(&P, want, msg, sk, seed, a);
        if (diff(sig, want, B) >= 0) fail("wots", "wots_sign differs", diff(sig, want, B), it);
        if (memcmp(a, b, 20) || gbad(sig, B)) fail("wots", "wots_sign frame", 0, it);
        memcpy(b, a, 32); fillr(pk, B); wots_pk_from_sig(&Q, pk, sig, msg, seed, b);
        if (diff(pk, pk0, B) >= 0) fail("wots", "round trip fails", diff(pk, pk0, B), it);
        if (memcmp(a, b, 20) || gbad(pk, B) || gbad(sig, B) || gbad(msg, n)) fail("wots", "wots_pk_from_sig frame", 0, it);
        fillr(sig, B); memcpy(b, a, 32); wots_pk_from_sig(&Q, pk, sig, msg, seed, b); o_wots_rec(&P, want, sig, msg, seed, a);
        if (diff(pk, want, B) >= 0) fail("wots", "wots_pk_from_sig differs", diff(pk, want, B), it);
        gfree(sig); gfree(pk); gfree(msg);
    } while (now() - t0 < budget || it < 4);
}
static void m_addr(double budget)
{
    double t0 = now();
    typedef void (*fn)(uint32_t *, uint32_t);
    struct { const char *nm; fn f; int w; } S[] = {{"set_layer_addr", (fn)set_layer_addr, 0}, {"set_type", (fn)set_type, 3}, {"set_key_and_mask", (fn)set_key_and_mask, 7},
        {"set_ots_addr", (fn)set_ots_addr, 4}, {"set_chain_addr", (fn)set_chain_addr, 5}, {"set_hash_addr", (fn)set_hash_addr, 6}, {"set_ltree_addr", (fn)set_ltree_addr, 4},
        {"set_tree_height", (fn)set_tree_height, 5}, {"set_tree_index", (fn)set_tree_index, 6}};
    do {
        uint32_t a[8], b[8]; uint64_t v;
        for (unsigned i = 0; i < 9; i++) {
            for (int k = 0; k < 8; k++) a[k] = edge32();
            memcpy(b, a, 32); uint32_t x = edge32(); S[i].f(b, x); a[S[i].w] = x; cases++;
            if (memcmp(a, b, 32)) fail("addr", S[i].nm, x, 0);
        }
        for (int k = 0; k < 8; k++) a[k] = edge32();
        memcpy(b, a, 32); v = edge64(); set_tree_addr(b, v); a[1] = v >> 32; a[2] = (uint32_t)v;
        if (memcmp(a, b, 32)) fail("addr", "set_tree_addr", v, 0);
        for (int k = 0; k < 8; k++) { a[k] = edge32(); b[k] = edge32(); }
        uint32_t c[8]; memcpy(c, b, 32); copy_subtree_addr(c, a); b[0] = a[0]; b[1] = a[1]; b[2] = a[2];
        if (memcmp(c, b, 32)) fail("addr", "copy_subtree_addr", 0, 0);
        uint8_t s[32]; addr_to_bytes(s, a);
        for (int k = 0; k < 32; k++) if (s[k] != (uint8_t)(a[k / 4] >> (24 - 8 * (k % 4)))) { fail("addr", "addr_to_bytes", k, s[k]); break; }
        for (unsigned L = 0; L <= 40; L++) {
            v = edge64(); uint8_t *o = galloc(L); ull_to_bytes(o, L, v);
            for (unsigned k = 0; k < L; k++) { unsigned sh = 8 * (L - 1 - k); if (o[k] != (sh < 64 ? (uint8_t)(v >> sh) : 0)) { fail("ints", "ull_to_bytes", L, v); break; } }
            if (gbad(o, L)) fail("ints", "ull_to_bytes memory", L, v);
            if (L <= 8) {
                uint64_t r = 0; fillr(o, L); for (unsigned k = 0; k < L; k++) r = r << 8 | o[k];
                if (bytes_to_ull(o, L) != r) fail("ints", "bytes_to_ull", L, r);
            }
            gfree(o); cases++;
        }
    } while (now() - t0 < budget);
}
static void m_shake(double budget)
{
    double t0 = now(); size_t L = 0;
    static const unsigned outs[] = {0, 1, 16, 24, 32, 64, 135, 136, 137, 167, 168, 169, 200, 271, 272, 273, 336, 337, 500, 1000};
    do {
        uint8_t *in = galloc(L), *in0 = malloc(L + 1); memcpy(in0, in, L);
        for (unsigned i = 0; i < sizeof outs / sizeof *outs; i++) {
            unsigned ol = outs[i]; uint8_t want[1100];
            for (int b = 128; b <= 256; b += 128) {
                uint8_t *o = galloc(ol);
                if (b == 128) shake128(o, ol, in, L); else shake256(o, ol, in, L);
                if (ol) o_shake(b, want, ol, in0, L);
                cases++;
                if (diff(o, want, ol) >= 0) fail("shake", b == 128 ? "shake128 differs, in/out length" : "shake256 differs, in/out length", L, ol);
                if (gbad(o, ol)) fail("shake", "write outside the output", L, ol);
                gfree(o);
            }
        }
        if (gbad(in, L) || diff(in, in0, L) >= 0) fail("shake", "input modified", L, 0);
        gfree(in); free(in0);
        L++; if (L > 700) L = rnd() % 6000;
    } while (now() - t0 < budget || L < 420);
}
static void m_shakebig(int kind)     /* 4 GiB and more of input, or of output */
{
    size_t L = kind < 2 ? ((size_t)1 << 32) + rnd() % 500 : 77, ol = kind < 2 ? 64 : ((size_t)1 << 32) + 1000;
    uint8_t *in = calloc(L + 1, 1), *o = malloc(ol), *want = malloc(ol);
    if (!in || !o || !want) return;
    fillr(in, 70); fillr(in + L - 70 * (L > 100), L > 100 ? 70 : 1); memset(o, 1, ol);
    if (kind & 1) { shake128(o, ol, in, L); o_shake(128, want, ol, in, L); } else { shake256(o, ol, in, L); o_shake(256, want, ol, in, L); }
    cases++;
    if (diff(o, want, ol) >= 0) fail("shake", "big input or output differs, in length, first byte", L, diff(o, want, ol));
}
int main(int c, char **v)
{
    if (c < 4) return 2;
    rs ^= strtoull(v[2], 0, 0) * 0x9E3779B97F4A7C15ULL; for (int i = 0; i < 8; i++) rnd();
    double b = atof(v[3]);
    if (c > 6) setup(atoi(v[4]), atoi(v[5]), atoi(v[6]));
    if (!strcmp(v[1], "hash")) m_hash(b); else if (!strcmp(v[1], "hashbig")) m_hashbig(); else if (!strcmp(v[1], "wots")) m_wots(b); else if (!strcmp(v[1], "addr")) m_addr(b);
    else if (!strcmp(v[1], "shake")) m_shake(b);
    else if (!strcmp(v[1], "shakebig")) m_shakebig((int)b);
    printf("DONE %ld\n", cases);
    return fails != 0;
}
