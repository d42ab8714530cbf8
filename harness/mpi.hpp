// The library's big integers and their GMP values.
#pragma once
#include "oracle.hpp"
extern "C" {
#include "mbedtls/bignum.h"
}
using namespace vh;
using orc::Z;
struct M
{
    mbedtls_mpi v;
    M()
    {
        mbedtls_mpi_init(&v);
    }
    M(const M&) = delete;
    ~M()
    {
        mbedtls_mpi_free(&v);
    }
    operator mbedtls_mpi*()
    {
        return &v;
    }
};
static inline Bytes mag(const Z& z)
{
    Z a;
    mpz_abs(a.v, z.v);
    return a.to_be((mpz_sizeinbase(a.v, 2) + 7) / 8);
}
static inline std::string S(const Z& z)
{
    return (z.str().size() > 700) ? z.str().substr(0, 300) + "..." + std::to_string(mpz_sizeinbase(z.v, 2)) + "bits" : z.str();
}
// representation: spare leading zero limbs, a never-set zero, a negative zero
static inline void load(M& m, const Z& z, unsigned how)
{
    mbedtls_mpi_free(&m.v);
    mbedtls_mpi_init(&m.v);
    if (mpz_sgn(z.v) == 0 && how % 4 == 0) {
        return; // n == 0
    }
    Bytes b = mag(z);
    if (mbedtls_mpi_read_binary(&m.v, U(b), b.size()) != 0) {
        harness_error("load");
    }
    if (how % 3 == 1) {
        if (mbedtls_mpi_grow(&m.v, m.v.n + 1 + how % 5) != 0) {
            harness_error("load grow");
        }
    }
    m.v.s = mpz_sgn(z.v) < 0 || (mpz_sgn(z.v) == 0 && how % 7 == 5) ? -1 : 1;
}
static inline Z value(const mbedtls_mpi& m)
{
    Z z;
    mpz_import(z.v, m.n, -1, sizeof(mbedtls_mpi_uint), 0, 0, m.p);
    if (m.s == -1) {
        mpz_neg(z.v, z.v);
    } else if (m.s != 1) {
        viol("sign-field", "sign is %d", m.s);
    }
    return z;
}
