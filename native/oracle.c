#define OPENSSL_SUPPRESS_DEPRECATED
#include "oracle.h"
#include <openssl/sha.h>
#include <openssl/evp.h>
#include <stdlib.h>
#include <string.h>

void o_init(opar *p, int func, unsigned n, unsigned w, unsigned H, unsigned d)
{
    memset(p, 0, sizeof *p);
    p->func = func; p->n = n; p->w = w; p->H = H; p->d = d; p->th = H / d;
    p->pad = n == 24 ? 4 : n;                 /* SP 800-208: toByte(x, 4) for n=24 */
    p->lgw = w == 4 ? 2 : w == 16 ? 4 : 8;
    p->len1 = 8 * n / p->lgw;
    unsigned long mx = (unsigned long)p->len1 * (w - 1); unsigned bits = 0;
    while (mx >> bits) bits++;                /* floor(log2(mx)) + 1 */
    p->len2 = (bits - 1) / p->lgw + 1;
    p->len = p->len1 + p->len2;
    p->idxb = d == 1 ? 4 : (H + 7) / 8;
    p->sigb = p->idxb + n + (size_t)d * p->len * n + (size_t)H * n;
}

void o_shake(int bits, uint8_t *out, size_t outlen, const uint8_t *in, size_t len)
{
    static EVP_MD *m128, *m256; static EVP_MD_CTX *c;
    if (!c) { c = EVP_MD_CTX_new(); m128 = EVP_MD_fetch(0, "SHAKE128", 0); m256 = EVP_MD_fetch(0, "SHAKE256", 0); }
    EVP_DigestInit_ex(c, bits == 128 ? m128 : m256, 0);
    EVP_DigestUpdate(c, in, len);
    EVP_DigestFinalXOF(c, out, outlen);
}
void o_hash(const opar *p, uint8_t *out, const uint8_t *in, size_t len)
{
    uint8_t b[64];
    if (p->func == O_SHA2) {
        if (p->n == 64) SHA512(in, len, b); else SHA256(in, len, b);
        memcpy(out, b, p->n);
    } else if (p->func == O_SHAKE128) o_shake(128, out, p->n, in, len);
    else o_shake(256, out, p->n, in, len);
}
static void tobyte(uint8_t *o, uint64_t v, unsigned k) { while (k--) { o[k] = (uint8_t)v; v >>= 8; } }
static void ser(uint8_t *o, const uint32_t a[8]) { for (int i = 0; i < 8; i++) tobyte(o + 4 * i, a[i], 4); }

void o_prf(const opar *p, uint8_t *out, const uint8_t in[32], const uint8_t *key)
{
    uint8_t b[64 + 64 + 32];
    tobyte(b, 3, p->pad); memcpy(b + p->pad, key, p->n); memcpy(b + p->pad + p->n, in, 32);
    o_hash(p, out, b, p->pad + p->n + 32);
}
void o_prfkg(const opar *p, uint8_t *out, const uint8_t *in, const uint8_t *key)
{
    uint8_t b[64 + 64 + 64 + 32];
    tobyte(b, 4, p->pad); memcpy(b + p->pad, key, p->n); memcpy(b + p->pad + p->n, in, p->n + 32);
    o_hash(p, out, b, p->pad + 2 * p->n + 32);
}
static void prfa(const opar *p, uint8_t *out, const uint8_t *seed, const uint32_t a[8], unsigned km)
{
    uint32_t b[8]; uint8_t s[32];
    memcpy(b, a, 32); b[7] = km; ser(s, b); o_prf(p, out, s, seed);
}
void o_F(const opar *p, uint8_t *out, const uint8_t *in, const uint8_t *seed, const uint32_t a[8])
{
    uint8_t b[192], mk[64]; unsigned i;
    tobyte(b, 0, p->pad); prfa(p, b + p->pad, seed, a, 0); prfa(p, mk, seed, a, 1);
    for (i = 0; i < p->n; i++) b[p->pad + p->n + i] = in[i] ^ mk[i];
    o_hash(p, out, b, p->pad + 2 * p->n);
}
void o_H(const opar *p, uint8_t *out, const uint8_t *in, const uint8_t *seed, const uint32_t a[8])
{
    uint8_t b[256], mk[128]; unsigned i;
    tobyte(b, 1, p->pad); prfa(p, b + p->pad, seed, a, 0); prfa(p, mk, seed, a, 1); prfa(p, mk + p->n, seed, a, 2);
    for (i = 0; i < 2 * p->n; i++) b[p->pad + p->n + i] = in[i] ^ mk[i];
    o_hash(p, out, b, p->pad + 3 * p->n);
}
void o_hmsg(const opar *p, uint8_t *out, const uint8_t *R, const uint8_t *root, uint64_t idx, const uint8_t *m, size_t mlen)
{
    size_t pre = p->pad + 3 * p->n; uint8_t *b = mlen >> 30 ? calloc(pre + mlen + 1, 1) : malloc(pre + mlen + 1);
    tobyte(b, 2, p->pad); memcpy(b + p->pad, R, p->n); memcpy(b + p->pad + p->n, root, p->n);
    tobyte(b + p->pad + 2 * p->n, idx, p->n); if (mlen >> 30) { memcpy(b + pre, m, 1 << 20); memcpy(b + pre + mlen - (1 << 20), m + mlen - (1 << 20), 1 << 20); } /* callers keep the middle zero */
    else if (mlen) memcpy(b + pre, m, mlen);
    o_hash(p, out, b, pre + mlen); free(b);
}
void o_lengths(const opar *p, int *L, const uint8_t *msg)
{
    unsigned long cs = 0; unsigned i;
    for (i = 0; i < p->len1; i++) {
        unsigned bit = i * p->lgw;            /* most significant digit first */
        L[i] = (msg[bit / 8] >> (8 - p->lgw - bit % 8)) & (p->w - 1);
        cs += p->w - 1 - L[i];
    }
    for (i = 0; i < p->len2; i++) L[p->len1 + i] = (cs >> (p->lgw * (p->len2 - 1 - i))) & (p->w - 1);
}
static void chain(const opar *p, uint8_t *x, unsigned start, unsigned steps, const uint8_t *seed, uint32_t a[8])
{
    for (unsigned i = start; i < start + steps; i++) { a[6] = i; o_F(p, x, x, seed, a); }
}
static void wsk(const opar *p, uint8_t *out, const uint8_t *sk, const uint8_t *seed, const uint32_t a[8], unsigned i)
{
    uint8_t in[96]; uint32_t b[8];
    memcpy(b, a, 32); b[5] = i; b[6] = 0; b[7] = 0;
    memcpy(in, seed, p->n); ser(in + p->n, b); o_prfkg(p, out, in, sk);
}
void o_wots_pk(const opar *p, uint8_t *pk, const uint8_t *sk, const uint8_t *seed, const uint32_t a[8])
{
    uint32_t b[8]; memcpy(b, a, 32);
    for (unsigned i = 0; i < p->len; i++) { wsk(p, pk + i * p->n, sk, seed, a, i); b[5] = i; chain(p, pk + i * p->n, 0, p->w - 1, seed, b); }
}
void o_wots_sign(const opar *p, uint8_t *sig, const uint8_t *msg, const uint8_t *sk, const uint8_t *seed, const uint32_t a[8])
{
    int L[300]; uint32_t b[8]; memcpy(b, a, 32); o_lengths(p, L, msg);
    for (unsigned i = 0; i < p->len; i++) { wsk(p, sig + i * p->n, sk, seed, a, i); b[5] = i; chain(p, sig + i * p->n, 0, L[i], seed, b); }
}
void o_wots_rec(const opar *p, uint8_t *pk, const uint8_t *sig, const uint8_t *msg, const uint8_t *seed, const uint32_t a[8])
{
    int L[300]; uint32_t b[8]; memcpy(b, a, 32); o_lengths(p, L, msg);
    memcpy(pk, sig, p->len * p->n);
    for (unsigned i = 0; i < p->len; i++) { b[5] = i; chain(p, pk + i * p->n, L[i], p->w - 1 - L[i], seed, b); }
}
void o_ltree(const opar *p, uint8_t *leaf, const uint8_t *pk, const uint8_t *seed, const uint32_t a[8])
{
    uint8_t t[300 * 64]; unsigned l = p->len, hh = 0; uint32_t b[8];
    memcpy(t, pk, l * p->n); memcpy(b, a, 32);
    while (l > 1) {
        for (unsigned i = 0; i < l / 2; i++) { b[5] = hh; b[6] = i; uint8_t o[64]; o_H(p, o, t + 2 * i * p->n, seed, b); memcpy(t + i * p->n, o, p->n); }
        if (l & 1) memmove(t + (l / 2) * p->n, t + (l - 1) * p->n, p->n);
        l = (l + 1) / 2; hh++;
    }
    memcpy(leaf, t, p->n);
}
static void base(uint32_t a[8], unsigned layer, uint64_t tree, unsigned type)
{
    memset(a, 0, 32); a[0] = layer; a[1] = tree >> 32; a[2] = (uint32_t)tree; a[3] = type;
}
void o_tree(otree *t, const opar *p, const uint8_t *sk, const uint8_t *seed, unsigned layer, uint64_t tree)
{
    if (t->valid && !memcmp(&t->p, p, sizeof *p) && !memcmp(t->sk, sk, p->n) && !memcmp(t->seed, seed, p->n) && t->layer == layer && t->tree == tree) return;
    for (int k = 0; k < 32; k++) { free(t->lev[k]); t->lev[k] = 0; }
    t->p = *p; memcpy(t->sk, sk, p->n); memcpy(t->seed, seed, p->n); t->layer = layer; t->tree = tree; t->valid = 1;
    uint32_t a[8]; uint8_t pk[300 * 64];
    for (unsigned k = 0; k <= p->th; k++) {
        t->lev[k] = malloc((size_t)p->n << (p->th - k));
        for (uint32_t i = 0; i < 1u << (p->th - k); i++) {
            if (!k) {
                base(a, layer, tree, 0); a[4] = i; o_wots_pk(p, pk, sk, seed, a);
                base(a, layer, tree, 1); a[4] = i; o_ltree(p, t->lev[0] + i * p->n, pk, seed, a);
            } else {
                base(a, layer, tree, 2); a[5] = k - 1; a[6] = i; o_H(p, t->lev[k] + i * p->n, t->lev[k - 1] + 2 * i * p->n, seed, a);
            }
        }
    }
}
void o_root(const opar *p, otree *cache, uint8_t *root, const uint8_t *skseed, const uint8_t *seed)
{
    o_tree(&cache[p->d - 1], p, skseed, seed, p->d - 1, 0); memcpy(root, cache[p->d - 1].lev[p->th], p->n);
}
void o_sign(const opar *p, otree *cache, uint8_t *sig, const uint8_t *skseed, const uint8_t *skprf, const uint8_t *root,
            const uint8_t *seed, uint64_t idx, const uint8_t *m, size_t mlen)
{
    uint8_t ib[32], node[64]; uint32_t a[8]; unsigned n = p->n;
    tobyte(sig, idx, p->idxb); tobyte(ib, idx, 32); o_prf(p, sig + p->idxb, ib, skprf);
    o_hmsg(p, node, sig + p->idxb, root, idx, m, mlen);
    sig += p->idxb + n;
    for (unsigned i = 0; i < p->d; i++) {
        uint32_t leaf = idx & ((1u << p->th) - 1); idx >>= p->th;
        o_tree(&cache[i], p, skseed, seed, i, idx);
        base(a, i, idx, 0); a[4] = leaf; o_wots_sign(p, sig, node, skseed, seed, a); sig += p->len * n;
        for (unsigned k = 0; k < p->th; k++) { memcpy(sig, cache[i].lev[k] + ((leaf >> k) ^ 1) * n, n); sig += n; }
        memcpy(node, cache[i].lev[p->th], n);
    }
}
int o_verify_root(const opar *p, uint8_t *root, const uint8_t *pkroot, const uint8_t *seed, const uint8_t *sm, size_t smlen)
{
    uint8_t node[64], pk[300 * 64], two[128]; uint32_t a[8]; unsigned n = p->n; uint64_t idx = 0;
    if (smlen < p->sigb) return 0;
    for (unsigned i = 0; i < p->idxb; i++) idx = idx << 8 | sm[i];
    o_hmsg(p, node, sm + p->idxb, pkroot, idx, sm + p->sigb, smlen - p->sigb);
    sm += p->idxb + n;
    for (unsigned i = 0; i < p->d; i++) {
        uint32_t leaf = idx & ((1u << p->th) - 1); idx >>= p->th;
        base(a, i, idx, 0); a[4] = leaf; o_wots_rec(p, pk, sm, node, seed, a); sm += p->len * n;
        base(a, i, idx, 1); a[4] = leaf; o_ltree(p, node, pk, seed, a);
        for (unsigned k = 0; k < p->th; k++) {
            unsigned bit = (leaf >> k) & 1;
            memcpy(two + (bit ? n : 0), node, n); memcpy(two + (bit ? 0 : n), sm, n); sm += n;
            base(a, i, idx, 2); a[5] = k; a[6] = leaf >> (k + 1); o_H(p, node, two, seed, a);
        }
    }
    memcpy(root, node, n);
    return 1;
}
