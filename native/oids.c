/* OID and name tables of /repo against the standard's (oidtab.h is generated from vx/oids.py). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "params.h"
#include "oidtab.h"
void randombytes(unsigned char *x, unsigned long long n) { memset(x, 0, n); }
#define NT ((int)(sizeof tab / sizeof *tab))
static uint64_t rs; static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ULL; }
static int fails; static long cases;
static void fail(const char *tag, const char *msg, const char *s, unsigned a, long long b)
{ if (fails++ < 8) { printf("FAIL %s %s %s [%#x %lld]\n", tag, msg, s, a, b); fflush(stdout); } }
static int find(int mt, unsigned oid) { for (int i = 0; i < NT; i++) if (tab[i].mt == mt && tab[i].oid == oid) return i; return -1; }
static void one(int mt, uint32_t oid)
{
    xmss_params p; memset(&p, 0x5a, sizeof p);
    int r = mt ? xmssmt_parse_oid(&p, oid) : xmss_parse_oid(&p, oid), k = oid < 256 ? find(mt, oid) : -1; cases++;
    if (k < 0) { if (r != -1) fail("oid", "unassigned OID accepted", mt ? "mt" : "single", oid, r); return; }
    if (r) { fail("oid", "assigned OID rejected", tab[k].name, oid, r); return; }
    unsigned n = tab[k].n, len1 = 2 * n, len2 = 3, len = len1 + len2, ib = mt ? (tab[k].h + 7) / 8 : 4;
    static const unsigned fam[] = {XMSS_SHA2, XMSS_SHAKE128, XMSS_SHAKE256};
    if (p.func != fam[tab[k].func] || p.n != n || p.padding_len != (n == 24 ? 4 : n) || p.wots_w != 16 || p.wots_log_w != 4 || p.wots_len1 != len1 || p.wots_len2 != len2
        || p.wots_len != len || p.wots_sig_bytes != len * n || p.full_height != (unsigned)tab[k].h || p.d != (unsigned)tab[k].d || p.tree_height != p.full_height / p.d
        || p.index_bytes != ib || p.sig_bytes != ib + n + p.d * len * n + p.full_height * n || p.pk_bytes != 2 * n || p.sk_bytes < ib + 4 * n)
        fail("oid", "parameters differ from the standard", tab[k].name, oid, p.sig_bytes);
#ifndef FAST
    if (p.sk_bytes != ib + 4 * n) fail("oid", "secret key size", tab[k].name, oid, p.sk_bytes);
#endif
}
static void name(const char *s)
{
    for (int mt = 0; mt < 2; mt++) {
        uint32_t o = 0x77777777; int k = -1;
        for (int i = 0; i < NT; i++) if (tab[i].mt == mt && !strcmp(tab[i].name, s)) k = i;
        int r = mt ? xmssmt_str_to_oid(&o, s) : xmss_str_to_oid(&o, s); cases++;
        if (k < 0 ? r != -1 : r != 0 || o != tab[k].oid) fail("name", k < 0 ? "unassigned name accepted" : "assigned name maps wrongly", s, o, r);
    }
}
int main(int c, char **v)
{
    rs = 88172645463325252ULL ^ strtoull(v[1], 0, 0) * 0x9E3779B97F4A7C15ULL;
    uint64_t a = strtoull(v[2], 0, 0), n = strtoull(v[3], 0, 0); long ns = atol(v[4]);
    for (uint64_t o = a; o < a + n; o++) { one(0, o); one(1, o); }
    for (unsigned o = 0; o < 256; o++) for (int k = 0; k < 32; k++) { one(0, o ^ (k < 8 ? 0 : 1u << k)); one(1, o ^ (k < 8 ? 0 : 1u << k)); }
    for (int i = 0; i < NT; i++) name(tab[i].name);
    name(""); name("XMSS"); name("XMSSMT");
    while (ns--) {
        char b[80]; strcpy(b, tab[rnd() % NT].name); size_t l = strlen(b);
        switch (rnd() % 8) {
        case 0: b[rnd() % l] = 0; break;
        case 1: b[rnd() % l] ^= 1 << (rnd() % 7); break;
        case 2: strcat(b, "0"); break;
        case 3: b[l - 1] = "0123456789"[rnd() % 10]; break;
        case 4: strcat(b, " "); break;
        case 5: { char t[80]; const char *q = tab[rnd() % NT].name; size_t k = rnd() % l; b[k] = 0; snprintf(t, 80, "%s%s", b, k < strlen(q) ? q + k : ""); strcpy(b, t); break; }
        case 6: for (char *p = b; *p; p++) if (*p >= 'A' && *p <= 'Z') *p += 32; break;
        default: { size_t k = rnd() % l; memmove(b + k, b + k + 1, l - k); } }
        name(b);
    }
    printf("DONE %ld\n", cases);
    return fails != 0;
}
