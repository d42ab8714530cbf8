/* A stand-in for the RELIC pairing library, which is not available here.
 * The three groups are (Z_r, +) for a 254-bit prime r, and the pairing is the
 * product: a bilinear, non-degenerate map on cyclic groups of prime order, with
 * the encodings' sizes of RELIC's BN-P254 curve. It has the algebra of the real
 * groups (everything the scheme's correctness rests on) and none of their
 * hardness. Misuse (a wrong length, a malformed point) aborts. */
#ifndef FAKE_RELIC_H
#define FAKE_RELIC_H
#include <stddef.h>
#include <stdint.h>
#include "relic_conf.h"
#define RLC_OK 0
#define RLC_ERR 1
#define RLC_LT (-1)
#define RLC_EQ 0
#define RLC_GT 1
#define RLC_POS 0
#define RLC_NEG 1
#define RLC_MIN(A, B) ((A) < (B) ? (A) : (B))
#define RLC_CEIL(A, B) (((A)-1) / (B) + 1)
typedef uint64_t dig_t;
#define FAKE_DIGS 40
typedef struct
{
    int   alloc, used, sign;
    dig_t dp[FAKE_DIGS];
} bn_st;
typedef bn_st bn_t[1];
typedef struct
{
    uint64_t magic;
    uint8_t  e[32];
} ep_st;
typedef struct
{
    uint64_t magic;
    uint8_t  e[32];
} ep2_st;
typedef struct
{
    uint64_t magic;
    uint8_t  e[32];
} fp12_st;
typedef ep_st   g1_t[1];
typedef ep2_st  g2_t[1];
typedef fp12_st gt_t[1];

void* core_get(void);
int   core_init(void);
int   core_clean(void);
int   pc_param_set_any(void);

void bn_init_(bn_t);
#define bn_null(A)
#define bn_new(A) bn_init_(A);
#define bn_free(A) (void)(A)
void bn_set_dig(bn_t, dig_t);
void bn_copy(bn_t, const bn_t);
void bn_neg(bn_t, const bn_t);
int  bn_sign(const bn_t);
int  bn_is_zero(const bn_t);
int  bn_bits(const bn_t);
int  bn_cmp(const bn_t, const bn_t);
void bn_add(bn_t, const bn_t, const bn_t);
void bn_sub(bn_t, const bn_t, const bn_t);
void bn_mul(bn_t, const bn_t, const bn_t);
void bn_mod(bn_t, const bn_t, const bn_t);
void bn_mxp(bn_t, const bn_t, const bn_t, const bn_t);
void bn_gcd_ext(bn_t, bn_t, bn_st*, const bn_t, const bn_t);
void bn_lsh(bn_t, const bn_t, int);
void bn_rsh(bn_t, const bn_t, int);
void bn_rand(bn_t, int, int);
int  bn_size_bin(const bn_t);
int  bn_size_str(const bn_t, int);
void bn_read_bin(bn_t, const uint8_t*, int);
void bn_read_str(bn_t, const char*, int, int);
void bn_write_bin(uint8_t*, int, const bn_t);
void bn_write_str(char*, int, const bn_t, int);

#define FAKE_GROUP(G, T)                               \
    void G##_init_(T);                                 \
    void G##_set_infty(T);                             \
    void G##_copy(T, const T);                         \
    int  G##_cmp(const T, const T);                    \
    int  G##_is_infty(const T);                        \
    void G##_add_(T, const T, const T);                \
    void G##_sub(T, const T, const T);                 \
    void G##_neg(T, const T);                          \
    void G##_norm(T, const T);                         \
    void G##_rand(T);                                  \
    void G##_get_gen(T);                               \
    void G##_map(T, const uint8_t*, int);              \
    int  G##_size_bin(const T, int);                   \
    void G##_read_bin(T, const uint8_t*, int);         \
    void G##_write_bin(uint8_t*, int, const T, int);
FAKE_GROUP(g1, g1_t)
FAKE_GROUP(g2, g2_t)
FAKE_GROUP(gt, gt_t)
#define g1_null(A)
#define g1_new(A) g1_init_(A);
#define g1_free(A) (void)(A);
#define g1_add(C, A, B) g1_add_(C, A, B);
#define g2_null(A)
#define g2_new(A) g2_init_(A);
#define g2_free(A) (void)(A);
#define g2_add(C, A, B) g2_add_(C, A, B);
#define gt_null(A)
#define gt_new(A) gt_init_(A);
#define gt_free(A) (void)(A);
#define gt_set_unity(A) gt_set_infty(A)
#define gt_is_unity(A) gt_is_infty(A)
#define gt_inv(C, A) gt_neg(C, A)
#define gt_exp(C, A, B) gt_mul_(C, A, B);
void gt_mul_(gt_t, const gt_t, const bn_t);
void gt_mul(gt_t, const gt_t, const gt_t);
void g1_mul(g1_t, const g1_t, const bn_t);
void g2_mul(g2_t, const g2_t, const bn_t);
void g1_get_ord(bn_t);
void pp_map_oatep_k12(gt_t, const g1_t, const g2_t);
#define pp_map_k12 pp_map_oatep_k12
void md_map_sh256(uint8_t*, const uint8_t*, int);
#endif
