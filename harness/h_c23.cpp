// C23: every generated RSA key pair is valid; key checks and the primality test.
// References: GMP (arithmetic, primality) and OpenSSL (key check, DER reader).
#include "mpi.hpp"
#include "rsakeys.hpp"
extern "C" {
#include "mbedtls/rsa.h"
#include "mbedtls/rsa_io.h"
}
#include <sse/crypto/tdp.hpp>
#include <openssl/rsa.h>
#include <openssl/bn.h>
#include <openssl/x509.h>
#include <openssl/err.h>
#include <climits>
#include <cinttypes>
#include <set>
static int rnd(void*, unsigned char* out, size_t n)
{
    rng().fill(out, n);
    return 0;
}
struct Countdown
{
    long left;
};
static int rnd_failing(void* p, unsigned char* out, size_t n)
{
    Countdown* c = static_cast<Countdown*>(p);
    if (c->left-- <= 0) return -99;
    rng().fill(out, n);
    return 0;
}
// a generator of poor quality: whatever it returns, a key that is accepted is valid
struct Poor
{
    int      mode;  // 0: the same stream twice, 1: few blocks, 2: constant, 3: leading zeros/ones
    uint64_t seed;
    size_t   left, period;
    Rng      r{0};
    int      again = 1;
    size_t   used = 0;
    Bytes    block[3];
};
static uint8_t fill_of(uint64_t seed)
{
    static const uint8_t f[] = {0, 0x55, 0x7f, 0xaa}; // not all ones: the search for a prime would leave the size
    return f[seed % 4];
}
static int rnd_poor(void* p, unsigned char* out, size_t n)
{
    Poor* s = static_cast<Poor*>(p);
    s->used += n;
    if (s->mode == 0) {
        if (s->again > 0 && s->period != 0 && s->left < n) {
            s->again--;
            s->r    = Rng(s->seed);
            s->left = s->period;
        }
        s->left -= s->left < n ? s->left : n;
        s->r.fill(out, n);
        return 0;
    }
    rng().fill(out, n);
    if (s->left == 0) return 0;
    s->left--;
    switch (s->mode) {
    case 1: {
        const Bytes& b = s->block[rng().below(3)];
        for (size_t i = 0; i < n; i++) out[i] = (uint8_t)b[i % b.size()];
        break;
    }
    case 2: memset(out, fill_of(s->seed), n); break;
    default: memset(out, fill_of(s->seed), n - n / 4);
    }
    return 0;
}
struct RC
{
    mbedtls_rsa_context v;
    RC()
    {
        mbedtls_rsa_init(&v, 0, 0);
    }
    RC(const RC&) = delete;
    ~RC()
    {
        mbedtls_rsa_free(&v);
    }
};
struct Key
{
    Z c[8]; // N E D P Q DP DQ QP
};
static const char* cname[] = {"N", "E", "D", "P", "Q", "DP", "DQ", "QP"};
static mbedtls_mpi* field(mbedtls_rsa_context& r, int i)
{
    mbedtls_mpi* f[] = {&r.N, &r.E, &r.D, &r.P, &r.Q, &r.DP, &r.DQ, &r.QP};
    return f[i];
}
static Key read(mbedtls_rsa_context& r)
{
    Key k;
    for (int i = 0; i < 8; i++) k.c[i] = value(*field(r, i));
    return k;
}
static void write(mbedtls_rsa_context& r, const Key& k)
{
    for (int i = 0; i < 8; i++) {
        M m;
        load(m, k.c[i], 2);
        mbedtls_mpi_swap(field(r, i), m);
    }
    r.len = (mbedtls_mpi_bitlen(&r.N) + 7) / 8;
}
// consistency of the numbers, as PKCS#1 defines it
static bool consistent(const Key& k, std::string* why = nullptr)
{
    const Z &N = k.c[0], &E = k.c[1], &D = k.c[2], &P = k.c[3], &Q = k.c[4];
    auto no = [&](const char* w) {
        if (why) *why = w;
        return false;
    };
    Z t, p1, q1, l, g;
    if (mpz_sgn(N.v) <= 0 || mpz_even_p(N.v) || mpz_sizeinbase(N.v, 2) < 128) return no("modulus");
    if (mpz_cmp_ui(E.v, 3) < 0 || mpz_even_p(E.v) || mpz_cmp(E.v, N.v) >= 0) return no("public exponent");
    if (mpz_cmp_ui(P.v, 2) < 0 || mpz_cmp_ui(Q.v, 2) < 0) return no("factor");
    mpz_mul(t.v, P.v, Q.v);
    if (mpz_cmp(t.v, N.v) != 0) return no("N is not P*Q");
    mpz_sub_ui(p1.v, P.v, 1);
    mpz_sub_ui(q1.v, Q.v, 1);
    mpz_lcm(l.v, p1.v, q1.v);
    mpz_gcd(g.v, E.v, l.v);
    if (mpz_cmp_ui(g.v, 1) != 0) return no("E not invertible");
    mpz_mul(t.v, D.v, E.v);
    mpz_mod(t.v, t.v, l.v);
    if (mpz_cmp_ui(t.v, 1) != 0) return no("D*E is not 1");
    mpz_mod(t.v, D.v, p1.v);
    if (mpz_cmp(t.v, k.c[5].v) != 0) return no("DP");
    mpz_mod(t.v, D.v, q1.v);
    if (mpz_cmp(t.v, k.c[6].v) != 0) return no("DQ");
    if (!mpz_invert(t.v, Q.v, P.v) || mpz_cmp(t.v, k.c[7].v) != 0) return no("QP");
    return true;
}
static std::set<std::string>& primes_seen()
{
    static std::set<std::string> s;
    return s;
}
static void openssl_accepts(const Bytes& der, const Key& k)
{
    const uint8_t* p = U(der);
    RSA*           r = d2i_RSAPrivateKey(nullptr, &p, (long)der.size());
    if (r == nullptr) {
        viol("export-unreadable", "OpenSSL does not read the exported key");
        ERR_clear_error();
        return;
    }
    const BIGNUM* b[8];
    RSA_get0_key(r, &b[0], &b[1], &b[2]);
    RSA_get0_factors(r, &b[3], &b[4]);
    RSA_get0_crt_params(r, &b[5], &b[6], &b[7]);
    for (int i = 0; i < 8; i++) {
        Bytes v((BN_num_bytes(b[i])), 0);
        BN_bn2bin(b[i], reinterpret_cast<uint8_t*>(&v[0]));
        if (mpz_cmp(Z::be(v).v, k.c[i].v) != 0) viol("export-value", "%s differs in the exported key", cname[i]);
    }
    if (BN_num_bits(b[0]) >= 512) {
        if (RSA_check_key(r) != 1) viol("openssl-check", "OpenSSL's check rejects the key");
        tally("openssl_checked");
    }
    ERR_clear_error();
    RSA_free(r);
}
static void verify(const Key& k, unsigned nbits, long e, bool poor = false)
{
    std::string why;
    if (!consistent(k, &why)) viol("generated-inconsistent", "%s (N=%s)", why.c_str(), S(k.c[0]).c_str());
    if (mpz_sizeinbase(k.c[0].v, 2) != nbits) viol("generated-size", "%zu bits instead of %u", mpz_sizeinbase(k.c[0].v, 2), nbits);
    if (mpz_cmp_si(k.c[1].v, e) != 0) viol("generated-exponent", "exponent %s", S(k.c[1]).c_str());
    for (int i : {3, 4}) {
        if (mpz_probab_prime_p(k.c[i].v, 30) == 0) viol("generated-composite", "%s=%s is composite", cname[i], S(k.c[i]).c_str());
        if (mpz_sizeinbase(k.c[i].v, 2) != nbits / 2) viol("generated-factor-size", "%s has %zu bits", cname[i], mpz_sizeinbase(k.c[i].v, 2));
        if (!poor && !primes_seen().insert(k.c[i].str()).second) viol("generated-repeat", "%s=%s was generated before", cname[i], S(k.c[i]).c_str());
    }
    if (mpz_cmp(k.c[3].v, k.c[4].v) == 0) viol("generated-equal", "the factors are equal");
}
static void corruptions(const Key& k, unsigned n, const Key* other)
{
    for (unsigned j = 0; j < n; j++) {
        Key  c  = k;
        int  i  = (int)rng().below(8), how = (int)rng().below(10);
        Z&   z  = c.c[i];
        switch (how) {
        case 0: mpz_combit(z.v, rng().below(mpz_sizeinbase(z.v, 2))); break;
        case 1: mpz_combit(z.v, 0); break;
        case 2: mpz_add_ui(z.v, z.v, 2); break;
        case 3: mpz_sub_ui(z.v, z.v, 2); break;
        case 4: mpz_set_ui(z.v, rng().below(2)); break;
        case 5: mpz_swap(z.v, c.c[rng().below(8)].v); break;
        case 6:
            if (other) z = other->c[i];
            break;
        case 9: mpz_neg(z.v, z.v); break;
        case 7: mpz_combit(z.v, mpz_sizeinbase(z.v, 2) - 1); break;
        default: // consistent-looking: reduce or extend by the modulus of the component
            if (i == 5 || i == 6) {
                Z m;
                mpz_sub_ui(m.v, c.c[i - 2].v, 1);
                mpz_add(z.v, z.v, m.v);
            } else if (i == 7) {
                mpz_add(z.v, z.v, c.c[3].v);
            } else if (i == 1) {
                Z p1, q1, l;
                mpz_sub_ui(p1.v, c.c[3].v, 1);
                mpz_sub_ui(q1.v, c.c[4].v, 1);
                mpz_lcm(l.v, p1.v, q1.v);
                mpz_add(z.v, z.v, l.v);
            } else {
                mpz_combit(z.v, rng().below(mpz_sizeinbase(z.v, 2)));
            }
        }
        bool changed = false;
        for (int q = 0; q < 8; q++) changed |= mpz_cmp(c.c[q].v, k.c[q].v) != 0;
        if (!changed) continue;
        RC r;
        write(r.v, c);
        std::string why;
        bool        ok = consistent(c, &why);
        note("corruption %d of %s of key N=%s E=%s", how, cname[i], S(k.c[0]).c_str(), S(k.c[1]).c_str());
        int ret = mbedtls_rsa_check_privkey(&r.v);
        if (!ok && ret == 0) viol("corrupted-accepted", "check_privkey accepts a key whose %s was corrupted (%s)", cname[i], why.c_str());
        if (ok && ret != 0) viol("valid-rejected", "check_privkey rejects a consistent key (-0x%x)", -ret);
        tally(ok ? "still_consistent" : "corruptions");
        // the pair check must see it as well
        RC pub;
        write(pub.v, k);
        if (!ok && mbedtls_rsa_check_pub_priv(&pub.v, &r.v) == 0) viol("corrupted-pair-accepted", "check_pub_priv accepts a corrupted %s", cname[i]);
        if ((i == 0 || i == 1) && mbedtls_rsa_check_pub_priv(&r.v, &pub.v) == 0) viol("mismatched-pair-accepted", "check_pub_priv accepts another %s", cname[i]);
    }
    // missing components
    for (int i = 0; i < 8; i++) {
        RC r;
        write(r.v, k);
        mbedtls_mpi_free(field(r.v, i));
        note("key without %s N=%s", cname[i], S(k.c[0]).c_str());
        if (mbedtls_rsa_check_privkey(&r.v) == 0) viol("missing-accepted", "a key without %s is accepted", cname[i]);
    }
}
static void use(mbedtls_rsa_context& r, const Key& k)
{
    for (int j = 0; j < 3; j++) {
        Z m = Z::be(rng().bytes(r.len + 8));
        if (j == 2) mpz_set_ui(m.v, rng().below(2));
        mpz_mod(m.v, m.v, k.c[0].v);
        Bytes  in = m.to_be(r.len), c(r.len, 0), d(r.len, 0);
        Z      w;
        mpz_powm(w.v, m.v, k.c[1].v, k.c[0].v);
        note("use of generated key N=%s m=%s", S(k.c[0]).c_str(), S(m).c_str());
        int a = mbedtls_rsa_public(&r, U(in), reinterpret_cast<uint8_t*>(&c[0]));
        int b = mbedtls_rsa_private(&r, j == 0 ? nullptr : rnd, nullptr, U(w.to_be(r.len)), reinterpret_cast<uint8_t*>(&d[0]));
        if (a != 0 || c != w.to_be(r.len)) viol("public-operation", "returned %d", a);
        if (b != 0 || d != in) viol("private-operation", "returned %d", b);
        tally("uses");
    }
}
static Key g_other;
static bool g_have = false;
static void generate(unsigned nbits, long e)
{
    RC r;
    note("gen_key %u bits e=%ld", nbits, e);
    int ret = mbedtls_rsa_gen_key(&r.v, rnd, nullptr, nbits, (int)e);
    if (ret != 0) {
        viol("generation-failed", "%u bits e=%ld: -0x%x", nbits, e, -ret);
        return;
    }
    Key k = read(r.v);
    note("generated %u bits e=%ld N=%s P=%s", nbits, e, S(k.c[0]).c_str(), S(k.c[3]).c_str());
    verify(k, nbits, e);
    if (r.v.len != (nbits + 7) / 8) viol("generated-len", "len %zu for %u bits", r.v.len, nbits);
    if (mbedtls_rsa_check_pubkey(&r.v) != 0) viol("own-check", "check_pubkey rejects a generated key");
    if (mbedtls_rsa_check_privkey(&r.v) != 0) viol("own-check", "check_privkey rejects a generated key");
    {
        RC pub;
        Key p = k;
        for (int i = 2; i < 8; i++) mpz_set_ui(p.c[i].v, 0);
        write(pub.v, p);
        if (mbedtls_rsa_check_pub_priv(&pub.v, &r.v) != 0) viol("own-check", "check_pub_priv rejects a generated pair");
        RC cp;
        if (mbedtls_rsa_copy(&cp.v, &r.v) != 0) viol("copy", "rsa_copy failed");
        else {
            Key q = read(cp.v);
            for (int i = 0; i < 8; i++)
                if (mpz_cmp(q.c[i].v, k.c[i].v) != 0) viol("copy", "%s differs in a copy", cname[i]);
            if (cp.v.len != r.v.len) viol("copy", "len differs in a copy");
            use(cp.v, k);
            // a copy of a key that has been used takes along what the use has prepared
            RC again;
            if (mbedtls_rsa_copy(&again.v, &cp.v) != 0) viol("copy", "copy of a used key failed");
            else {
                use(again.v, k);
                use(cp.v, k);
                tally("copies_after_use");
            }
        }
    }
    uint8_t buf[4096];
    int     n = mbedtls_rsa_write_key_der(&r.v, buf, sizeof buf);
    if (n <= 0) viol("export", "write_key_der: %d", n);
    else openssl_accepts(Bytes(reinterpret_cast<char*>(buf) + sizeof buf - n, n), k);
    use(r.v, k);
    corruptions(k, 24, g_have ? &g_other : nullptr);
    g_other = k;
    g_have  = true;
    tally("generated");
    seenf("gen%u/%ld", nbits, e);
}
static void poor_generators(unsigned n)
{
    static const long ex[] = {3, 5, 17, 65537};
    for (unsigned i = 0; i < n; i++) {
        unsigned bits = 128 + 2 * (unsigned)rng().below(i % 5 == 0 ? 200 : 20);
        long     e    = ex[rng().below(4)];
        Poor     s;
        s.mode   = (int)(i % 4);
        s.seed   = rng().next();
        s.period = 0;
        s.left   = 1 + rng().below(60);
        for (auto& b : s.block) b = rng().bytes(16 + rng().below(100));
        if (s.mode == 0) {
            // how much one prime takes, then give that again for the second one
            s.r = Rng(s.seed);
            s.left = 0;
            M m;
            if (mbedtls_mpi_gen_prime(m, bits / 2, 0, rnd_poor, &s) != 0) continue;
            s.period = s.left = s.used;
            s.r = Rng(s.seed);
        }
        RC r;
        note("gen_key %u bits e=%ld with poor generator mode=%d seed=%" PRIu64 " period=%zu", bits, e, s.mode, s.seed, s.period);
        int ret = mbedtls_rsa_gen_key(&r.v, rnd_poor, &s, bits, (int)e);
        tally(ret == 0 ? "poor_generated" : "poor_refused");
        if (ret != 0) continue;
        Key k = read(r.v);
        verify(k, bits, e, true);
        if (mbedtls_rsa_check_privkey(&r.v) != 0) viol("own-check", "check_privkey rejects a generated key");
        use(r.v, k);
    }
}
static void refused()
{
    RC r;
    struct { unsigned b; int e; bool null; } bad[] = {{1024, 65537, true}, {127, 65537, false}, {126, 3, false}, {0, 3, false}, {513, 3, false}, {512, 1, false}, {512, 0, false}, {512, -3, false}, {512, INT_MIN, false}};
    for (auto& b : bad) {
        note("gen_key refused %u %d %d", b.b, b.e, b.null);
        if (mbedtls_rsa_gen_key(&r.v, b.null ? nullptr : rnd, nullptr, b.b, b.e) == 0) viol("bad-request", "gen_key(%u bits, e=%d) succeeded", b.b, b.e);
    }
    for (long n = 0; n < 6; n++) { // the generator fails at some call
        Countdown c{n * 3};
        RC       x;
        note("gen_key with a generator failing at call %ld", n * 3);
        int ret = mbedtls_rsa_gen_key(&x.v, rnd_failing, &c, 512, 3);
        if (ret == 0 && c.left < 0) viol("rng-failure", "gen_key succeeded although its generator failed");
        if (ret == 0) { Key k = read(x.v); verify(k, 512, 3); }
        tally("rng_failures");
    }
}
static void prime_one(const Z& z, const char* kind)
{
    M m;
    load(m, z, (unsigned)rng().next());
    Z a;
    mpz_abs(a.v, z.v);
    bool want = mpz_cmp_ui(a.v, 1) > 0 && mpz_probab_prime_p(a.v, 30) != 0;
    note("is_prime %s %s", kind, S(z).c_str());
    int  r    = mbedtls_mpi_is_prime(m, rnd, nullptr);
    if (want && r != 0) viol("prime-rejected", "%s %s is prime, test says -0x%x", kind, S(z).c_str(), -r);
    if (!want && r == 0) viol("composite-accepted", "%s %s is composite", kind, S(z).c_str());
    if (mpz_cmp(value(m.v).v, z.v) != 0) viol("operand-changed", "is_prime changed its operand");
    tally(want ? "primes_tested" : "composites_tested");
    seenf("pr%s", S(z).c_str());
}
static Z rprime(size_t bits)
{
    Z z = Z::be(rng().bytes(bits / 8 + 1));
    mpz_fdiv_r_2exp(z.v, z.v, bits);
    if (bits > 1) mpz_setbit(z.v, bits - 1);
    mpz_nextprime(z.v, z.v);
    return z;
}
static void primality(bool t)
{
    unsigned i = 0;
    for (long n = -50; n < (t ? 60000 : 12000); n++)
        if (mine(i++)) prime_one(Z(n), "small");
    static const char* special[] = {
        // Carmichael numbers and strong pseudoprimes to many bases
        "561", "1105", "1729", "2465", "2821", "6601", "8911", "10585", "15841", "29341", "41041", "46657", "52633", "62745", "63973", "75361", "101101", "115921", "126217", "162401", "172081", "188461", "252601", "278545", "294409", "314821", "334153", "340561", "399001", "410041", "449065", "488881", "512461",
        "2047", "1373653", "25326001", "3215031751", "2152302898747", "3474749660383", "341550071728321", "3825123056546413051", "318665857834031151167461", "3317044064679887385961981",
        "1590231231043178376951698401", "4398042316799", "288230376151711717", "18014398241046527", "9223372036854775783", "9223372036854775837", "18446744073709551557", "18446744073709551629", "340282366920938463463374607431768211507", "340282366920938463463374607431768211297", "115792089237316195423570985008687907853269984665640564039457584007913129640233",
        "4295098369", "994009", "1018081", "1022117", "1027243"};
    for (auto s : special) {
        Z z;
        mpz_set_str(z.v, s, 10);
        for (int k = 0; k < 3; k++) prime_one(z, "special");
    }
    // primes on both sides of every power of two
    for (unsigned b = 10; b <= (t ? 1100u : 400u); b += (t || b < 140) ? 1 : 7) {
        if (!mine(b)) continue;
        Z z, y;
        mpz_setbit(z.v, b);
        mpz_nextprime(y.v, z.v);
        prime_one(y, "above-power");
        do mpz_sub_ui(z.v, z.v, 1); while (mpz_probab_prime_p(z.v, 25) == 0);
        prime_one(z, "below-power");
    }
    for (unsigned k = 0; k < (t ? 600 : 60); k++) {
        size_t b = 11 + rng().below(k % 10 == 0 ? 1200 : 300);
        Z      p = rprime(b);
        prime_one(p, "random-prime");
        Z q = p;
        mpz_neg(q.v, q.v);
        prime_one(q, "negative-prime");
        // composites without small factors, of a size where the error bound is negligible
        size_t h = 11 + rng().below(55);
        Z      a = rprime(h), c, n;
        mpz_mul(n.v, a.v, a.v);
        prime_one(n, "square");
        mpz_nextprime(c.v, a.v);
        mpz_mul(n.v, a.v, c.v);
        prime_one(n, "close-factors");
        mpz_mul_ui(c.v, a.v, 2);
        mpz_sub_ui(c.v, c.v, 1);
        mpz_mul(n.v, a.v, c.v);
        prime_one(n, "p(2p-1)");
        mpz_mul(n.v, a.v, rprime(h).v);
        prime_one(n, "semiprime");
        // p(2p-1) with both prime and p = 3 mod 4: a quarter of the bases lie;
        // of sizes where so many are tried that all of them lying is negligible
        Z w = Z::be(rng().bytes(16));
        mpz_fdiv_r_2exp(w.v, w.v, 12 + rng().below(112));
        do {
            do mpz_nextprime(w.v, w.v); while (mpz_fdiv_ui(w.v, 4) != 3);
            mpz_mul_ui(c.v, w.v, 2);
            mpz_sub_ui(c.v, c.v, 1);
        } while (mpz_probab_prime_p(c.v, 25) == 0);
        mpz_mul(n.v, w.v, c.v);
        for (int again = 0; again < 4; again++) prime_one(n, "strong-liars");
        tally("strong_liars");
        Z r1 = rprime(500 + rng().below(500)), r2 = rprime(500);
        mpz_mul(n.v, r1.v, r2.v);
        if (k % 6 == 0) prime_one(n, "large-semiprime");
    }
    for (unsigned k = 0; k < (t ? 60 : 10); k++) {
        size_t b = k == 0 ? 1024 : 32 + rng().below(500);
        M      m;
        note("gen_prime %zu", b);
        int r = mbedtls_mpi_gen_prime(m, b, 0, rnd, nullptr);
        Z   z = value(m.v);
        if (r != 0) viol("gen_prime", "%zu bits: -0x%x", b, -r);
        else if (mpz_probab_prime_p(z.v, 30) == 0 || mpz_sizeinbase(z.v, 2) != b) viol("gen_prime", "%zu bits: %s", b, S(z).c_str());
        size_t s = 64 + rng().below(100);
        note("gen_prime safe %zu", s);
        r = mbedtls_mpi_gen_prime(m, s, 1, rnd, nullptr);
        z = value(m.v);
        Z y;
        mpz_fdiv_q_2exp(y.v, z.v, 1);
        if (r != 0) viol("gen_safe_prime", "%zu bits: -0x%x", s, -r);
        else if (mpz_probab_prime_p(z.v, 30) == 0 || mpz_probab_prime_p(y.v, 30) == 0 || mpz_sizeinbase(z.v, 2) != s) viol("gen_safe_prime", "%zu bits: %s", s, S(z).c_str());
        tally("primes_generated", 2);
    }
}
// whole key pairs as the public interface generates them
static void tdp_keys(unsigned n)
{
    for (unsigned i = 0; i < n; i++) {
        std::string priv, pub;
        note("TdpInverse()");
        must("tdp-generation", [&] {
            sse::crypto::TdpInverse t;
            priv = t.private_key();
            pub  = t.public_key();
        });
        Bytes der;
        if (!orc::unpem(priv, "RSA PRIVATE KEY", der)) {
            viol("tdp-export", "private key is not PEM: %s", priv.substr(0, 60).c_str());
            continue;
        }
        const uint8_t* p = U(der);
        RSA*           r = d2i_RSAPrivateKey(nullptr, &p, (long)der.size());
        if (r == nullptr) {
            viol("tdp-export", "OpenSSL does not read the exported private key");
            ERR_clear_error();
            continue;
        }
        const BIGNUM* b[8];
        RSA_get0_key(r, &b[0], &b[1], &b[2]);
        RSA_get0_factors(r, &b[3], &b[4]);
        RSA_get0_crt_params(r, &b[5], &b[6], &b[7]);
        Key k;
        for (int j = 0; j < 8; j++) {
            Bytes v((BN_num_bytes(b[j])), 0);
            BN_bn2bin(b[j], reinterpret_cast<uint8_t*>(&v[0]));
            k.c[j] = Z::be(v);
        }
        RSA_free(r);
        verify(k, 2048, 65537);
        openssl_accepts(der, k);
        RC c;
        write(c.v, k);
        if (mbedtls_rsa_check_privkey(&c.v) != 0) viol("own-check", "check_privkey rejects a generated key");
        orc::Rsa o;
        o.n = k.c[0];
        o.e = k.c[1];
        if (pub != o.pem_pub()) viol("tdp-public", "the exported public key is not that of the pair");
        corruptions(k, 16, &g_other);
        tally("tdp_keys");
        seenf("tdp%s", S(k.c[0]).c_str());
    }
}
void vh::run()
{
    bool t = ctx().thorough;
    static const long ex[] = {3, 5, 17, 257, 65537, 2147483647, 7, 65539};
    refused();
    poor_generators(t ? 2000 : 240);
    for (unsigned i = 0; i < (t ? 300 : 60); i++) {
        unsigned bits = i % 8 == 0 ? 512 + 2 * (unsigned)rng().below(257) : 128 + 2 * (unsigned)rng().below(193);
        if (i == 1) bits = 128;
        generate(bits, ex[rng().below(8)]);
    }
    tdp_keys(t ? 6 : 2);
    primality(t);
}
