/* See relic/relic.h. */
#include <gmp.h>
#include <openssl/sha.h>
#include <sodium/randombytes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "relic/relic.h"
static void die(const char* m)
{
    fprintf(stderr, "fake relic: %s\n", m);
    abort();
}
static int core_on;
void* core_get(void)
{
    return core_on ? &core_on : NULL;
}
int core_init(void)
{
    if (core_on) die("initialised twice");
    core_on = 1;
    return RLC_OK;
}
int core_clean(void)
{
    if (!core_on) die("cleaned twice");
    core_on = 0;
    return RLC_OK;
}
int pc_param_set_any(void)
{
    return RLC_OK;
}
/* the group order: a 254-bit prime */
static void order(mpz_t r)
{
    mpz_init_set_str(r, "2523648240000001BA344D8000000007FF9F800000000010A10000000000000D", 16);
}
static void get(mpz_t z, const bn_t a)
{
    if (a->alloc != 0x600d) die("a number is used without being made");
    if (a->used < 0 || a->used > FAKE_DIGS) die("malformed number");
    mpz_init(z);
    mpz_import(z, (size_t)a->used, -1, 8, 0, 0, a->dp);
    if (a->sign == RLC_NEG) mpz_neg(z, z);
}
static void put(bn_t a, mpz_t z)
{
    size_t n = 0;
    if (a->alloc != 0x600d) die("a number is written without being made");
    if (mpz_sizeinbase(z, 2) > 64 * FAKE_DIGS) die("number too large");
    memset(a->dp, 0, sizeof a->dp);
    mpz_export(a->dp, &n, -1, 8, 0, 0, z);
    a->used = n ? (int)n : 1;
    a->sign = mpz_sgn(z) < 0 ? RLC_NEG : RLC_POS;
    mpz_clear(z);
}
void bn_init_(bn_t a)
{
    memset(a, 0, sizeof(bn_st));
    a->alloc = 0x600d;
    a->used  = 1;
}
void bn_set_dig(bn_t a, dig_t d)
{
    mpz_t z;
    mpz_init(z);
    mpz_import(z, 1, -1, 8, 0, 0, &d);
    put(a, z);
}
void bn_copy(bn_t c, const bn_t a)
{
    mpz_t z;
    get(z, a);
    put(c, z);
}
void bn_neg(bn_t c, const bn_t a)
{
    mpz_t z;
    get(z, a);
    mpz_neg(z, z);
    put(c, z);
}
int bn_sign(const bn_t a)
{
    return a->sign;
}
int bn_is_zero(const bn_t a)
{
    mpz_t z;
    get(z, a);
    int r = mpz_sgn(z) == 0;
    mpz_clear(z);
    return r;
}
int bn_bits(const bn_t a)
{
    mpz_t z;
    get(z, a);
    int r = mpz_sgn(z) ? (int)mpz_sizeinbase(z, 2) : 0;
    mpz_clear(z);
    return r;
}
int bn_cmp(const bn_t a, const bn_t b)
{
    mpz_t x, y;
    get(x, a);
    get(y, b);
    int c = mpz_cmp(x, y);
    mpz_clear(x);
    mpz_clear(y);
    return c < 0 ? RLC_LT : c > 0 ? RLC_GT : RLC_EQ;
}
#define BIN(NAME, EXPR)                                 \
    void NAME(bn_t c, const bn_t a, const bn_t b)       \
    {                                                   \
        mpz_t x, y;                                     \
        get(x, a);                                      \
        get(y, b);                                      \
        EXPR;                                           \
        mpz_clear(y);                                   \
        put(c, x);                                      \
    }
BIN(bn_add, mpz_add(x, x, y))
BIN(bn_sub, mpz_sub(x, x, y))
BIN(bn_mul, mpz_mul(x, x, y))
BIN(bn_mod, mpz_mod(x, x, y))
void bn_mxp(bn_t c, const bn_t a, const bn_t e, const bn_t m)
{
    mpz_t x, y, n;
    get(x, a);
    get(y, e);
    get(n, m);
    mpz_powm(x, x, y, n);
    mpz_clear(y);
    mpz_clear(n);
    put(c, x);
}
void bn_gcd_ext(bn_t g, bn_t d, bn_st* f, const bn_t a, const bn_t b)
{
    mpz_t x, y, gg, s, t;
    get(x, a);
    get(y, b);
    mpz_init(gg);
    mpz_init(s);
    mpz_init(t);
    mpz_gcdext(gg, s, t, x, y);
    mpz_clear(x);
    mpz_clear(y);
    put(g, gg);
    put(d, s);
    if (f) put(f, t);
    else mpz_clear(t);
}
void bn_lsh(bn_t c, const bn_t a, int n)
{
    mpz_t x;
    get(x, a);
    mpz_mul_2exp(x, x, (mp_bitcnt_t)n);
    put(c, x);
}
void bn_rsh(bn_t c, const bn_t a, int n)
{
    mpz_t x;
    get(x, a);
    mpz_tdiv_q_2exp(x, x, (mp_bitcnt_t)n);
    put(c, x);
}
void bn_rand(bn_t a, int sign, int bits)
{
    uint8_t b[256];
    mpz_t   z;
    int     n = (bits + 7) / 8;
    if (n > 256) die("bn_rand");
    randombytes_buf(b, (size_t)n);
    mpz_init(z);
    mpz_import(z, (size_t)n, 1, 1, 1, 0, b);
    mpz_fdiv_r_2exp(z, z, (mp_bitcnt_t)bits);
    if (sign == RLC_NEG) mpz_neg(z, z);
    put(a, z);
}
int bn_size_bin(const bn_t a)
{
    return (bn_bits(a) + 7) / 8;
}
int bn_size_str(const bn_t a, int radix)
{
    mpz_t x;
    get(x, a);
    char* s = mpz_get_str(NULL, radix, x);
    int   n = (int)strlen(s) + 1;
    free(s);
    mpz_clear(x);
    return n;
}
void bn_read_bin(bn_t a, const uint8_t* b, int n)
{
    mpz_t z;
    mpz_init(z);
    mpz_import(z, (size_t)n, 1, 1, 1, 0, b);
    put(a, z);
}
void bn_read_str(bn_t a, const char* s, int n, int radix)
{
    char  t[2000];
    mpz_t z;
    if (n >= (int)sizeof t) die("bn_read_str");
    memcpy(t, s, (size_t)n);
    t[n] = 0;
    if (mpz_init_set_str(z, t, radix) != 0) die("bn_read_str: not a number");
    put(a, z);
}
void bn_write_bin(uint8_t* b, int n, const bn_t a)
{
    size_t k = (size_t)bn_size_bin(a);
    mpz_t  z;
    if ((int)k > n) die("bn_write_bin: buffer too small");
    memset(b, 0, (size_t)n);
    get(z, a);
    mpz_export(b + (size_t)n - k, NULL, 1, 1, 1, 0, z);
    mpz_clear(z);
}
void bn_write_str(char* b, int n, const bn_t a, int radix)
{
    mpz_t z;
    if (bn_size_str(a, radix) > n) die("bn_write_str: buffer too small");
    get(z, a);
    mpz_get_str(b, radix, z);
    mpz_clear(z);
}
void g1_get_ord(bn_t a)
{
    mpz_t r;
    order(r);
    put(a, r);
}
static void eget(mpz_t z, const uint8_t* e)
{
    mpz_init(z);
    mpz_import(z, 32, 1, 1, 1, 0, e);
}
static void eput(uint8_t* e, mpz_t z)
{
    mpz_t  r;
    size_t n;
    order(r);
    mpz_mod(z, z, r);
    memset(e, 0, 32);
    n = mpz_sgn(z) ? (mpz_sizeinbase(z, 2) + 7) / 8 : 0;
    if (n) mpz_export(e + 32 - n, NULL, 1, 1, 1, 0, z);
    mpz_clear(r);
    mpz_clear(z);
}
void md_map_sh256(uint8_t* h, const uint8_t* m, int n)
{
    SHA256(m, (size_t)n, h);
}
/* K: bytes of one compressed element after the leading byte; U: uncompressed */
#define GROUP(G, T, MAGIC, K, UC, LEAD)                                          \
    static void G##_chk(const T a)                                               \
    {                                                                            \
        if (a->magic != MAGIC) die(#G ": an element is used without being made"); \
    }                                                                            \
    void G##_init_(T a)                                                          \
    {                                                                            \
        memset(a, 0, sizeof *a);                                                 \
        a->magic = MAGIC;                                                        \
        memset(a->e, 0x5a, 31); /* whatever memory held */                       \
    }                                                                            \
    void G##_set_infty(T a)                                                      \
    {                                                                            \
        G##_chk(a);                                                              \
        memset(a->e, 0, 32);                                                     \
    }                                                                            \
    void G##_copy(T c, const T a)                                                \
    {                                                                            \
        G##_chk(a);                                                              \
        G##_chk(c);                                                              \
        memmove(c->e, a->e, 32);                                                 \
    }                                                                            \
    int G##_cmp(const T a, const T b)                                            \
    {                                                                            \
        G##_chk(a);                                                              \
        G##_chk(b);                                                              \
        return memcmp(a->e, b->e, 32) ? RLC_GT : RLC_EQ;                         \
    }                                                                            \
    int G##_is_infty(const T a)                                                  \
    {                                                                            \
        static const uint8_t z[32];                                              \
        G##_chk(a);                                                              \
        return memcmp(a->e, z, 32) == 0;                                         \
    }                                                                            \
    void G##_add_(T c, const T a, const T b)                                     \
    {                                                                            \
        mpz_t x, y;                                                              \
        G##_chk(a);                                                              \
        G##_chk(b);                                                              \
        G##_chk(c);                                                              \
        eget(x, a->e);                                                           \
        eget(y, b->e);                                                           \
        mpz_add(x, x, y);                                                        \
        mpz_clear(y);                                                            \
        eput(c->e, x);                                                           \
    }                                                                            \
    void G##_sub(T c, const T a, const T b)                                      \
    {                                                                            \
        mpz_t x, y;                                                              \
        G##_chk(a);                                                              \
        G##_chk(b);                                                              \
        G##_chk(c);                                                              \
        eget(x, a->e);                                                           \
        eget(y, b->e);                                                           \
        mpz_sub(x, x, y);                                                        \
        mpz_clear(y);                                                            \
        eput(c->e, x);                                                           \
    }                                                                            \
    void G##_neg(T c, const T a)                                                 \
    {                                                                            \
        mpz_t x;                                                                 \
        G##_chk(a);                                                              \
        G##_chk(c);                                                              \
        eget(x, a->e);                                                           \
        mpz_neg(x, x);                                                           \
        eput(c->e, x);                                                           \
    }                                                                            \
    void G##_norm(T c, const T a)                                                \
    {                                                                            \
        G##_copy(c, a);                                                          \
    }                                                                            \
    static void G##_scale(T c, const T a, const bn_t k)                          \
    {                                                                            \
        mpz_t x, y;                                                              \
        G##_chk(a);                                                              \
        G##_chk(c);                                                              \
        eget(x, a->e);                                                           \
        get(y, k);                                                               \
        mpz_mul(x, x, y);                                                        \
        mpz_clear(y);                                                            \
        eput(c->e, x);                                                           \
    }                                                                            \
    void G##_rand(T a)                                                           \
    {                                                                            \
        uint8_t b[48];                                                           \
        mpz_t   x;                                                               \
        G##_chk(a);                                                              \
        randombytes_buf(b, sizeof b);                                            \
        mpz_init(x);                                                             \
        mpz_import(x, sizeof b, 1, 1, 1, 0, b);                                  \
        eput(a->e, x);                                                           \
    }                                                                            \
    void G##_get_gen(T a)                                                        \
    {                                                                            \
        G##_chk(a);                                                              \
        memset(a->e, 0, 32);                                                     \
        a->e[31] = 1;                                                            \
    }                                                                            \
    void G##_map(T a, const uint8_t* m, int n)                                   \
    {                                                                            \
        uint8_t h[32];                                                           \
        mpz_t   x;                                                               \
        G##_chk(a);                                                              \
        SHA256(m, (size_t)n, h);                                                 \
        eget(x, h);                                                              \
        eput(a->e, x);                                                           \
    }                                                                            \
    int G##_size_bin(const T a, int pack)                                        \
    {                                                                            \
        if (LEAD && G##_is_infty(a)) return 1;                                   \
        return LEAD + (pack ? K : UC);                                           \
    }                                                                            \
    void G##_write_bin(uint8_t* b, int n, const T a, int pack)                   \
    {                                                                            \
        int s = G##_size_bin(a, pack);                                           \
        if (n < s) die(#G "_write_bin: buffer too small");                       \
        memset(b, 0, (size_t)n);                                                 \
        if (LEAD) {                                                              \
            if (s == 1) return;                                                  \
            b[0] = pack ? 2 : 4;                                                 \
        }                                                                        \
        memcpy(b + s - 32, a->e, 32);                                            \
    }                                                                            \
    void G##_read_bin(T a, const uint8_t* b, int n)                              \
    {                                                                            \
        mpz_t x;                                                                 \
        int   i;                                                                 \
        G##_chk(a);                                                              \
        if (LEAD && n == 1) {                                                    \
            if (b[0]) die(#G "_read_bin: not a point");                          \
            memset(a->e, 0, 32);                                                 \
            return;                                                              \
        }                                                                        \
        if (n != LEAD + K && n != LEAD + UC) die(#G "_read_bin: wrong length");  \
        if (LEAD && b[0] != (n == LEAD + K ? 2 : 4)) die(#G "_read_bin: not a point"); \
        for (i = LEAD; i < n - 32; i++)                                          \
            if (b[i]) die(#G "_read_bin: not a point");                          \
        eget(x, b + n - 32);                                                     \
        eput(a->e, x);                                                           \
    }
GROUP(g1, g1_t, 0x9101, 32, 64, 1)
GROUP(g2, g2_t, 0x9202, 64, 128, 1)
GROUP(gt, gt_t, 0x9303, 256, 384, 0)
void g1_mul(g1_t c, const g1_t a, const bn_t k)
{
    g1_scale(c, a, k);
}
void g2_mul(g2_t c, const g2_t a, const bn_t k)
{
    g2_scale(c, a, k);
}
void gt_mul_(gt_t c, const gt_t a, const bn_t k)
{
    gt_scale(c, a, k);
}
void gt_mul(gt_t c, const gt_t a, const gt_t b)
{
    gt_add_(c, a, b);
}
void pp_map_oatep_k12(gt_t c, const g1_t a, const g2_t b)
{
    mpz_t x, y;
    g1_chk(a);
    g2_chk(b);
    gt_chk(c);
    eget(x, a->e);
    eget(y, b->e);
    mpz_mul(x, x, y);
    mpz_clear(y);
    eput(c->e, x);
}
