/* Independent implementation of RFC 8391 with the SP 800-208 variants, used as
   the oracle of the concrete runs.  Shares no code with /repo; hashing is
   OpenSSL's. */
#ifndef ORACLE_H
#define ORACLE_H
#include <stddef.h>
#include <stdint.h>
enum { O_SHA2 = 0, O_SHAKE128 = 1, O_SHAKE256 = 2 };
typedef struct {
    int func; unsigned n, w, H, d, th, pad, lgw, len1, len2, len, idxb;
    size_t sigb;
} opar;
void o_init(opar *p, int func, unsigned n, unsigned w, unsigned H, unsigned d);
void o_hash(const opar *p, uint8_t *out, const uint8_t *in, size_t len);
void o_shake(int bits, uint8_t *out, size_t outlen, const uint8_t *in, size_t len);
void o_prf(const opar *p, uint8_t *out, const uint8_t in[32], const uint8_t *key);
void o_prfkg(const opar *p, uint8_t *out, const uint8_t *in, const uint8_t *key);
void o_F(const opar *p, uint8_t *out, const uint8_t *in, const uint8_t *seed, const uint32_t a[8]);
void o_H(const opar *p, uint8_t *out, const uint8_t *in2, const uint8_t *seed, const uint32_t a[8]);
void o_hmsg(const opar *p, uint8_t *out, const uint8_t *R, const uint8_t *root, uint64_t idx, const uint8_t *m, size_t mlen);
void o_lengths(const opar *p, int *L, const uint8_t *msg);
void o_wots_pk(const opar *p, uint8_t *pk, const uint8_t *sk, const uint8_t *seed, const uint32_t a[8]);
void o_wots_sign(const opar *p, uint8_t *sig, const uint8_t *msg, const uint8_t *sk, const uint8_t *seed, const uint32_t a[8]);
void o_wots_rec(const opar *p, uint8_t *pk, const uint8_t *sig, const uint8_t *msg, const uint8_t *seed, const uint32_t a[8]);
void o_ltree(const opar *p, uint8_t *leaf, const uint8_t *pk, const uint8_t *seed, const uint32_t a[8]);
/* all nodes of a tree: level k at nodes[k], 2^(th-k) nodes of n bytes */
typedef struct { opar p; uint8_t sk[64], seed[64]; unsigned layer; uint64_t tree; uint8_t *lev[32]; int valid; } otree;
void o_tree(otree *t, const opar *p, const uint8_t *sk, const uint8_t *seed, unsigned layer, uint64_t tree);
/* root recomputed from a signature (RFC 8391 verification); 0 if too short */
int o_verify_root(const opar *p, uint8_t *root, const uint8_t *pkroot, const uint8_t *seed, const uint8_t *sm, size_t smlen);
/* signature (without message) of index idx; secret: sk_seed, sk_prf, root, pub_seed */
void o_sign(const opar *p, otree *cache, uint8_t *sig, const uint8_t *skseed, const uint8_t *skprf, const uint8_t *root,
            const uint8_t *seed, uint64_t idx, const uint8_t *m, size_t mlen);
void o_root(const opar *p, otree *cache, uint8_t *root, const uint8_t *skseed, const uint8_t *seed);
#endif
