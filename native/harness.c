/* Concrete differential runs of /repo's public functions against oracle.c.
   Prints one line "FAIL <tag> <details>" per discrepancy, "DONE <cases>" at the end. */
#include "oracle.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <time.h>
#include "params.h"
#include "xmss_core.h"
#include "xmss.h"

static uint64_t rs = 88172645463325252ULL;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ULL; }
static void fillr(uint8_t *p, size_t n) { while (n--) *p++ = (uint8_t)(rnd() >> 24); }
static uint8_t rlog[4096]; static size_t rlen, rpos; static int replay;
/* replaces the system's randomness source */
void randombytes(unsigned char *x, unsigned long long n)
{
    if (replay) { if (rpos + n <= sizeof rlog) memcpy(x, rlog + rpos, n); rpos += n; return; }
    fillr(x, n);
    if (rlen + n <= sizeof rlog) memcpy(rlog + rlen, x, n);
    rlen += n;
}
static int fails; static long cases; static char ctxs[300];
static void fail(const char *tag, const char *msg, long long a, long long b)
{
    if (fails++ < 6) { printf("FAIL %s %s [%lld %lld] %s\n", tag, msg, a, b, ctxs); fflush(stdout); }
}
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define EXACT 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define EXACT 1
#endif
#ifdef EXACT   /* under ASan every access outside the object is trapped, reads included */
static uint8_t *zobj;
static uint8_t *galloc(size_t n) { if (!n) { if (!zobj) zobj = (uint8_t *)malloc(1) + 1; return zobj; } uint8_t *p = malloc(n); fillr(p, n); return p; }
static int gbad(uint8_t *p, size_t n) { (void)p; (void)n; return 0; }
static void gfree(uint8_t *p) { if (p != zobj) free(p); }
#else
#define GUARD 64
static uint8_t *galloc(size_t n) { uint8_t *p = malloc(n + 2 * GUARD); memset(p, 0xC3, GUARD); fillr(p + GUARD, n); memset(p + GUARD + n, 0x3C, GUARD); return p + GUARD; }
static int gbad(uint8_t *p, size_t n) { for (int i = 0; i < GUARD; i++) if (p[-1 - i] != 0xC3 || p[n + i] != 0x3C) return 1; return 0; }
static void gfree(uint8_t *p) { free(p - GUARD); }
#endif
static uint8_t *dup(const uint8_t *p, size_t n) { uint8_t *q = malloc(n + 1); memcpy(q, p, n); return q; }
static long diff(const uint8_t *a, const uint8_t *b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return (long)i; return -1; }
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t be(const uint8_t *p, unsigned k) { uint64_t v = 0; while (k--) v = v << 8 | *p++; return v; }
static void tobe(uint8_t *p, unsigned k, uint64_t v) { while (k--) { p[k] = (uint8_t)v; v >>= 8; } }

static otree cache[32]; static opar P; static xmss_params Q; static uint32_t OID; static int mt;
static int setup(int f, unsigned n, unsigned w, unsigned H, unsigned d, unsigned k)
{
    memset(&Q, 0, sizeof Q);
    o_init(&P, f, n, w, H, d);
    Q.func = f; Q.n = n; Q.wots_w = w; Q.full_height = H; Q.d = d; Q.bds_k = k;
    Q.padding_len = P.pad;
    mt = d > 1;
    if (xmss_xmssmt_initialize_params(&Q)) { fail("params", "initialisation fails", 0, 0); return -1; }
    if (Q.sig_bytes != P.sigb || Q.wots_len != P.len || Q.index_bytes != P.idxb || Q.tree_height != P.th || Q.wots_len1 != P.len1
        || Q.wots_len2 != P.len2 || Q.wots_sig_bytes != P.len * n || Q.pk_bytes != 2 * n) { fail("params", "derived parameters differ", Q.sig_bytes, P.sigb); return -1; }
    sprintf(ctxs, "func=%d n=%u w=%u H=%u d=%u k=%u", f, n, w, H, d, k);
    return 0;
}
static int keypair(uint8_t *pk, uint8_t *sk) { return mt ? xmssmt_core_keypair(&Q, pk, sk) : xmss_core_keypair(&Q, pk, sk); }
static int sign(uint8_t *sk, uint8_t *sm, unsigned long long *sl, const uint8_t *m, size_t ml)
{ return mt ? xmssmt_core_sign(&Q, sk, sm, sl, m, ml) : xmss_core_sign(&Q, sk, sm, sl, m, ml); }
static int xopen(uint8_t *m, unsigned long long *ml, const uint8_t *sm, size_t sl, const uint8_t *pk)
{ return mt ? xmssmt_core_sign_open(&Q, m, ml, sm, sl, pk) : xmss_core_sign_open(&Q, m, ml, sm, sl, pk); }

static size_t pick_len(void)
{
    switch (rnd() % 8) {
    case 0: return 0; case 1: return 1; case 2: return rnd() % 64; case 3: return 120 + rnd() % 40; case 4: return 1000 + rnd() % 400;
    default: return rnd() % 300; }
}
static int window_in(const uint8_t *hay, size_t hn, const uint8_t *ned, size_t nn)
{
    if (nn < 8 || hn < 8) return 0;
    for (size_t i = 0; i + 8 <= hn; i++) {
        int z = 1; for (int k = 1; k < 8; k++) if (hay[i + k] != hay[i]) z = 0;
        if (z) continue;
        for (size_t j = 0; j + 8 <= nn; j++) if (!memcmp(hay + i, ned + j, 8)) return 1;
    }
    return 0;
}
/* one verification compared with the oracle */
static void check_open(const uint8_t *sm, size_t sl, const uint8_t *pk, const char *what)
{
    unsigned n = P.n; uint8_t root[64]; unsigned long long ml = 0x1234567;
    uint8_t *smx = galloc(sl), *pkx = galloc(2 * n), *m = galloc(sl);
    memcpy(smx, sm, sl); memcpy(pkx, pk, 2 * n);
    int ok = o_verify_root(&P, root, pk, pk + n, sm, sl) && !memcmp(root, pk, n);
    int r = xopen(m, &ml, smx, sl, pkx); cases++;
    char b[120]; sprintf(b, "%s idx=%llu", what, sl >= P.sigb ? (unsigned long long)be(sm, P.idxb) : 0);
    if (r != (ok ? 0 : -1)) { strcat(b, " return value"); fail("accept", b, r, ok); }
    else if (ok) {
        if (ml != sl - P.sigb) fail("accept", "message length", ml, sl - P.sigb);
        else if (diff(m, sm + P.sigb, ml) >= 0) fail("accept", "returned message differs", diff(m, sm + P.sigb, ml), ml);
    } else {
        if (ml != 0) fail("clear", "length not 0 after failure", ml, sl);
        if (sl >= P.sigb ? window_in(m, sl, sm + P.sigb, sl - P.sigb) : window_in(m, sl, sm, sl)) fail("clear", "unverified message left in the buffer", sl, P.sigb);
    }
    if (gbad(m, sl)) fail("memory", "write outside the message buffer", sl, 0);
    if (gbad(smx, sl) || gbad(pkx, 2 * n) || diff(smx, sm, sl) >= 0 || diff(pkx, pk, 2 * n) >= 0) fail("memory", "inputs modified", sl, 0);
    gfree(smx); gfree(pkx); gfree(m);
}
/* verification of signatures made by the oracle, and of mutations of them */
static void mode_verify(double budget)
{
    unsigned n = P.n; uint8_t key[4 * 64], pk[128]; double t0 = now();
    fillr(key, 4 * n); uint8_t *sks = key, *prf = key + n, *seed = key + 2 * n, *root = key + 3 * n;
    o_root(&P, cache, root, sks, seed); memcpy(pk, root, n); memcpy(pk + n, seed, n);
    uint64_t max = (1ULL << P.H) - 1; uint64_t fixed[] = {0, max, 1, max - 1, (1ULL << P.th) - 1, 1ULL << P.th, max >> 1, (max >> 1) + 1};
    unsigned it = 0; uint64_t idx = 0; const char *hi = getenv("HINT_IDX"), *hl = getenv("HINT_SMLEN");
    do {
        if (hi && it < 3) idx = strtoull(hi, 0, 0); else if (it < 8) idx = fixed[it]; else if (it % 6 == 0) idx = rnd(); else idx = (idx & ~((1ULL << P.th) - 1)) | (rnd() & ((1ULL << P.th) - 1));
        idx &= max; it++;
        if (it % 8 == 0 && it >= 8 && P.H <= 6) {        /* another key; every byte of its public key matters */
            fillr(key, 4 * n); o_root(&P, cache, root, sks, seed); memcpy(pk, root, n); memcpy(pk + n, seed, n);
            uint8_t *sm = malloc(P.sigb + 9), q[128]; fillr(sm, P.sigb + 9);
            o_sign(&P, cache, sm, sks, prf, root, seed, idx, sm + P.sigb, 9);
            for (unsigned i = 0; i < 2 * n; i++) { memcpy(q, pk, 2 * n); q[i] ^= 1u << (rnd() & 7); check_open(sm, P.sigb + 9, q, "bad public key byte"); }
            /* arbitrary public keys and signatures: roots that agree in their first byte */
            for (int i = 0; i < 400; i++) {
                uint8_t z = i < 300 ? 0 : 0xff; memcpy(q, pk, 2 * n); fillr(q, n); q[0] = z; tobe(sm, P.idxb, idx);
                fillr(sm + P.idxb, n); check_open(sm, P.sigb + 9, q, "other root, agreeing first byte");
            }
            free(sm);
        }
        size_t ml = pick_len();
        if (hl && it < 4 && strtoull(hl, 0, 0) >= P.sigb && strtoull(hl, 0, 0) < P.sigb + (1u << 26)) ml = strtoull(hl, 0, 0) - P.sigb;
        size_t sl = P.sigb + ml; uint8_t *sm = malloc(sl + 600); fillr(sm, sl + 600);
        o_sign(&P, cache, sm, sks, prf, root, seed, idx, sm + P.sigb, ml);
        check_open(sm, sl, pk, "valid");
        for (int k = 0; k < 14; k++) {
            size_t pos; uint8_t bit = 1u << (rnd() & 7), old;
            switch (k) {
            case 0: pos = rnd() % P.idxb; break;
            case 1: pos = P.idxb + rnd() % n; break;
            case 2: pos = P.sigb - 1 - rnd() % n; break;
            case 3: pos = ml ? P.sigb + rnd() % ml : 0; break;
            case 4: pos = 0; bit = 0x80; break;
            case 5: pos = 0; break;
            case 6: { uint8_t q[128]; memcpy(q, pk, 2 * n); q[rnd() % n] ^= bit; check_open(sm, sl, q, "bad root"); continue; }
            case 7: { uint8_t q[128]; memcpy(q, pk, 2 * n); q[n + rnd() % n] ^= bit; check_open(sm, sl, q, "bad seed"); continue; }
            case 8: check_open(sm, rnd() % (P.sigb + 1), pk, "truncated"); continue;
            case 9: check_open(sm, P.sigb - 1 - (rnd() % 8 == 0 ? 0 : rnd() % 40), pk, "truncated"); continue;
            case 10: check_open(sm, sl + 1 + rnd() % 500, pk, "extended"); continue;
            case 11: if (ml) check_open(sm, sl - 1 - rnd() % ml, pk, "shortened"); continue;
            case 12: { uint8_t q[128]; memcpy(q, pk, 2 * n); q[n - 1] ^= bit; check_open(sm, sl, q, "bad root end"); continue; }
            default: pos = rnd() % P.sigb; }
            old = sm[pos]; sm[pos] ^= bit; check_open(sm, sl, pk, "mutated"); sm[pos] = old;
        }
        free(sm);
    } while (now() - t0 < budget && (it < 8 || budget > 0));
    for (size_t l = 0; l < 16; l++) { uint8_t none[16]; fillr(none, 16); check_open(none, l, pk, "tiny"); }
    { uint8_t *z = malloc(P.sigb); fillr(z, P.sigb); for (size_t l = 0; l < P.sigb; l += 1 + P.sigb / 40) check_open(z, l, pk, "short"); free(z); }
}
/* key generation and a run of signatures from index start on */
static void mode_sign(uint64_t start, long count, int droot, double budget)
{
    unsigned n = P.n; size_t skb = Q.sk_bytes; double t0 = now();
    uint64_t max = (1ULL << P.H) - 1;
    uint8_t *pk = galloc(2 * n), *sk = galloc(skb), root[64];
    rlen = 0;
    int r = keypair(pk, sk); cases++;
    if (r) { fail("keygen", "return value", r, 0); return; }
    if (gbad(pk, 2 * n) || gbad(sk, skb)) fail("keymem", "key generation writes outside the keys", skb, 0);
    if (rlen != 3 * n) fail("seeds", "number of random bytes", rlen, 3 * n);
    for (unsigned i = 0; i < P.idxb; i++) if (sk[i]) fail("layout", "index not 0", i, sk[i]);
    uint8_t *sks = sk + P.idxb, *prf = sks + n, *skroot = prf + n, *seed = skroot + n;
    if (diff(sks, rlog, 2 * n) >= 0) fail("seeds", "secret seeds are not the random bytes", diff(sks, rlog, 2 * n), 0);
    if (diff(seed, rlog + 2 * n, n) >= 0) fail("seeds", "public seed is not the random bytes", diff(seed, rlog + 2 * n, n), 0);
    if (diff(pk, skroot, n) >= 0 || diff(pk + n, seed, n) >= 0) fail("layout", "public key does not match the secret key", 0, 0);
    {   /* the same random bytes again, into buffers with other content */
        uint8_t *pk2 = galloc(2 * n), *sk2 = galloc(skb); replay = 1; rpos = 0;
        r = keypair(pk2, sk2); replay = 0;
        if (r || diff(pk, pk2, 2 * n) >= 0 || diff(sk, sk2, skb) >= 0) fail("determined", "key generation with the same random bytes gives another key", diff(sk, sk2, skb), diff(pk, pk2, 2 * n));
        gfree(pk2); gfree(sk2);
    }
    if (droot) { o_root(&P, cache, root, sks, seed); if (diff(root, pk, n) >= 0) fail("root", "root differs", 0, 0); }
    uint8_t keep[256]; memcpy(keep, sks, 4 * n);
    uint64_t idx = 0;
    if (start) { idx = start; tobe(sk, P.idxb, start); }
    int erased = 0;
    for (long c = 0; c < count && (budget <= 0 || now() - t0 < budget); c++, idx++) {
        size_t ml = pick_len(); unsigned long long sl = 0xdead, ol = 0xbeef;
        uint8_t *m = galloc(ml), *sm = galloc(P.sigb + ml), *sm0 = dup(sm, P.sigb + ml), *m0 = dup(m, ml);
        int usable = !erased && (idx < max || (idx == max && P.H != 8 * P.idxb));
        r = sign(sk, sm, &sl, m, ml); cases++;
        char b[160];
        if (diff(m, m0, ml) >= 0 || gbad(m, ml)) fail("signmem", "message modified", idx, ml);
        if (gbad(sm, P.sigb + ml)) fail("signmem", "write outside the signed message", idx, ml);
        if (gbad(sk, skb)) fail("skmem", "write outside the secret key", idx, ml);
        if (r != (usable ? 0 : -2)) { sprintf(b, "sign returns %d at index %llu", r, (unsigned long long)idx); fail("exhaust", b, idx, erased); }
        if (!usable || idx == max) {
            for (size_t i = 0; i < skb; i++) if (sk[i] != (i < P.idxb ? 0xff : 0)) { fail("erase", "key not erased, index/byte", idx, i); break; }
            erased = 1;
        } else {
            if (be(sk, P.idxb) != idx + 1) fail("index", "index in the key after signing", be(sk, P.idxb), idx + 1);
            if (diff(sks, keep, 4 * n) >= 0) fail("seedskept", "seeds or root changed by signing", idx, diff(sks, keep, 4 * n));
        }
        if (!usable) { if (diff(sm, sm0, P.sigb) >= 0) fail("leak", "refused signing wrote a signature", idx, diff(sm, sm0, P.sigb)); }
        else if (r == 0) {
            if (sl != P.sigb + ml) fail("smlen", "reported length", sl, P.sigb + ml);
            if (diff(sm + P.sigb, m, ml) >= 0) fail("message", "message in the signed message differs", idx, 0);
            if (be(sm, P.idxb) != idx) fail("embed", "index in the signature", be(sm, P.idxb), idx);
            if (droot) {
                o_sign(&P, cache, sm0, keep, keep + n, keep + 2 * n, keep + 3 * n, idx, m, ml);
                if (diff(sm, sm0, P.sigb) >= 0) { sprintf(b, "signature %llu differs at byte", (unsigned long long)idx); fail("sig", b, diff(sm, sm0, P.sigb), P.sigb); }
            }
            uint8_t *o = galloc(P.sigb + ml);
            r = xopen(o, &ol, sm, P.sigb + ml, pk);
            if (r || ol != ml || diff(o, m, ml) >= 0) { sprintf(b, "signature %llu does not open", (unsigned long long)idx); fail("roundtrip", b, r, ol); }
            gfree(o);
        }
        free(sm0); free(m0); gfree(m); gfree(sm);
        if (erased && c + 3 < count && idx >= max) count = c + 3;   /* two more refusals */
    }
    gfree(pk); gfree(sk);
}
#ifdef HAVE_SEEDKP
static void mode_seedkp(void)
{
    unsigned n = P.n; uint8_t *pk = galloc(2 * n), *sk = galloc(Q.sk_bytes), *s = galloc(3 * n), *s0 = dup(s, 3 * n), root[64];
    int r = xmssmt_core_seed_keypair(&Q, pk, sk, s); cases++;
    if (r) fail("keygen", "seeded key generation returns", r, 0);
    if (diff(s, s0, 3 * n) >= 0 || gbad(s, 3 * n) || gbad(pk, 2 * n) || gbad(sk, Q.sk_bytes)) fail("keymem", "seeded key generation: memory", 0, 0);
    o_root(&P, cache, root, s0, s0 + 2 * n);
    uint8_t w[400]; memset(w, 0, P.idxb); memcpy(w + P.idxb, s0, 2 * n); memcpy(w + P.idxb + 2 * n, root, n); memcpy(w + P.idxb + 3 * n, s0 + 2 * n, n);
    if (diff(sk, w, P.idxb + 4 * n) >= 0) fail("layout", "seeded secret key differs at", diff(sk, w, P.idxb + 4 * n), 0);
    if (diff(pk, root, n) >= 0 || diff(pk + n, s0 + 2 * n, n) >= 0) fail("layout", "seeded public key differs", 0, 0);
}
#endif
/* keys with OIDs: the wrappers agree with the core functions */
static void mode_api(uint32_t oid, int ismt)
{
    xmss_params q; unsigned long long sl = 7, ol = 7; int r;
    r = ismt ? xmssmt_parse_oid(&q, oid) : xmss_parse_oid(&q, oid); cases++;
    sprintf(ctxs, "oid=%#x mt=%d", oid, ismt);
    if (r) {
        uint8_t pk[300], sk[300], sm[300], m[300]; fillr(pk, 300); fillr(sk, 300); fillr(sm, 300); fillr(m, 300);
        uint8_t *pk0 = dup(pk, 300), *sk0 = dup(sk, 300), *sm0 = dup(sm, 300), *m0 = dup(m, 300);
        if ((ismt ? xmssmt_keypair(pk, sk, oid) : xmss_keypair(pk, sk, oid)) != -1 || diff(pk, pk0, 300) >= 0 || diff(sk, sk0, 300) >= 0) fail("apioid", "keypair with unknown OID", oid, 0);
        tobe(sk, 4, oid); tobe(pk, 4, oid); memcpy(sk0, sk, 4); memcpy(pk0, pk, 4);
        if ((ismt ? xmssmt_sign(sk, sm, &sl, m, 10) : xmss_sign(sk, sm, &sl, m, 10)) != -1 || diff(sk, sk0, 300) >= 0 || diff(sm, sm0, 300) >= 0 || sl != 7) fail("apioid", "sign with unknown OID", oid, 0);
        if ((ismt ? xmssmt_sign_open(m, &ol, sm, 300, pk) : xmss_sign_open(m, &ol, sm, 300, pk)) != -1 || diff(m, m0, 300) >= 0 || ol != 7) fail("apioid", "open with unknown OID", oid, 0);
        return;
    }
    Q = q; o_init(&P, q.func, q.n, q.wots_w, q.full_height, q.d); mt = ismt; rlen = 0;
    unsigned n = q.n; uint8_t *pk = galloc(4 + 2 * n), *sk = galloc(4 + q.sk_bytes), *m = galloc(100), *sm = galloc(P.sigb + 100), *o = galloc(P.sigb + 100);
    r = ismt ? xmssmt_keypair(pk, sk, oid) : xmss_keypair(pk, sk, oid);
    if (r) fail("api", "keypair returns", r, 0);
    if (be(pk, 4) != oid || be(sk, 4) != oid) fail("layout", "OID in keys", be(pk, 4), be(sk, 4));
    if (gbad(pk, 4 + 2 * n) || gbad(sk, 4 + q.sk_bytes)) fail("keymem", "key generation writes outside the keys", 0, 0);
    if (diff(sk + 4 + P.idxb, rlog, 2 * n) >= 0 || diff(sk + 4 + P.idxb + 3 * n, rlog + 2 * n, n) >= 0 || rlen != 3 * n) fail("seeds", "seeds in key", rlen, 3 * n);
    for (int i = 0; i < 2; i++) {
        r = ismt ? xmssmt_sign(sk, sm, &sl, m, 100) : xmss_sign(sk, sm, &sl, m, 100); cases++;
        if (r || sl != P.sigb + 100 || be(sm, P.idxb) != (unsigned)i || be(sk, 4) != oid || be(sk + 4, P.idxb) != (unsigned)i + 1) fail("api", "sign", r, sl);
        if (gbad(sm, P.sigb + 100) || gbad(sk, 4 + q.sk_bytes)) fail("signmem", "memory", 0, 0);
        uint8_t root[64];
        if (!o_verify_root(&P, root, pk + 4, pk + 4 + n, sm, sl) || diff(root, pk + 4, n) >= 0) fail("sig", "signature invalid by the specification", i, 0);
        r = ismt ? xmssmt_sign_open(o, &ol, sm, sl, pk) : xmss_sign_open(o, &ol, sm, sl, pk);
        if (r || ol != 100 || diff(o, m, 100) >= 0) fail("roundtrip", "open", r, ol);
        sm[P.sigb + 3] ^= 4;
        r = ismt ? xmssmt_sign_open(o, &ol, sm, sl, pk) : xmss_sign_open(o, &ol, sm, sl, pk);
        if (r != -1 || ol != 0) fail("accept", "open of a changed message", r, ol);
    }
}
int main(int c, char **v)
{
    if (c < 3) return 2;
    rs ^= strtoull(v[2], 0, 0) * 0x9E3779B97F4A7C15ULL; for (int i = 0; i < 8; i++) rnd();
    if (!strcmp(v[1], "api")) { for (int i = 3; i + 1 < c; i += 2) mode_api(strtoul(v[i + 1], 0, 0), atoi(v[i])); }
    else {
        if (c < 9) return 2;
        if (setup(atoi(v[3]), atoi(v[4]), atoi(v[5]), atoi(v[6]), atoi(v[7]), atoi(v[8])) == 0) {
            if (!strcmp(v[1], "verify")) mode_verify(c > 9 ? atof(v[9]) : 0);
            else if (!strcmp(v[1], "sign")) mode_sign(c > 9 ? strtoull(v[9], 0, 0) : 0, c > 10 ? atol(v[10]) : 10, c > 11 ? atoi(v[11]) : 1, c > 12 ? atof(v[12]) : 0);
#ifdef HAVE_SEEDKP
            else if (!strcmp(v[1], "seedkp")) mode_seedkp();
#endif
        }
    }
    printf("DONE %ld\n", cases);
    return fails != 0;
}
