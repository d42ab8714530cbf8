// C15: TDP elements are derived deterministically and lie in the domain.
#include "rsakeys.hpp"
#include <sodium.h>
#include <sse/crypto/tdp.hpp>
#include "tdp_impl/tdp_impl.hpp"
using namespace vh;
using namespace sse::crypto;
typedef std::array<uint8_t, 256> A;
typedef Prf<Tdp::kRSAPrfSize>    P;
static std::string g_key;
static Key<32> K(const Bytes& b)
{
    Bytes k = b;
    return Key<32>(reinterpret_cast<uint8_t*>(&k[0]));
}
template<class T>
static void gen(const char* who, const T& t, const orc::Rsa& k, const Bytes& key, const P& prf, const std::string& seed, const Bytes& want)
{
    note("%s generate prfkey=%s seed=%s key=%s", who, hex(key).c_str(), hex(seed, 200).c_str(), g_key.c_str());
    std::string a, b;
    A           c, d;
    if (must("generate-throws", [&] {
            a = t.generate(K(key), seed);
            c = t.generate_array(K(key), seed);
            b = t.generate(prf, seed);
            d = t.generate_array(prf, seed);
        })) {
        CHECK_EQ_BYTES("generate-key", a, want);
        CHECK_EQ_BYTES("generate-array-key", from_arr(c), want);
        CHECK_EQ_BYTES("generate-prf", b, want);
        CHECK_EQ_BYTES("generate-array-prf", from_arr(d), want);
    }
    tally("generations", 4);
    (void)k;
}
static void in_domain(const orc::Rsa& k, const Bytes& x, const char* how)
{
    if (x.size() != 256 || mpz_cmp(orc::Z::be(x).v, k.n.v) >= 0) {
        viol("sample-range", "%s gave an element outside the domain: %s", how, hex(x, 256).c_str());
    }
}
// The system random generator, as the library sees it: the first bytes it gives
// after arm() are chosen by the harness.
static Bytes g_feed;
static size_t g_fed = 0;
static const char* impl_name() { return "chosen"; }
static void        impl_buf(void* const out, const size_t n)
{
    uint8_t* o = static_cast<uint8_t*>(out);
    for (size_t i = 0; i < n; i++) {
        o[i] = g_fed < g_feed.size() ? (uint8_t)g_feed[g_fed++] : (uint8_t)rng().next();
    }
}
static uint32_t impl_u32()
{
    uint32_t x;
    impl_buf(&x, sizeof x);
    return x;
}
static randombytes_implementation g_impl = {impl_name, impl_u32, nullptr, nullptr, impl_buf, nullptr};
// whatever the generator returns, a drawn element lies in the domain
template<class T>
static void chosen_draws(const T& t, const orc::Rsa& k, unsigned n)
{
    for (unsigned j = 0; j < n; j++) {
        orc::Z z, m;
        mpz_set(z.v, k.n.v);
        switch (rng().below(7)) {
        case 0: break;
        case 1: mpz_mul_ui(z.v, z.v, rng().below(8)); break;
        case 2: m = orc::Z::be(rng().bytes(1 + rng().below(8))); mpz_mul(z.v, z.v, m.v); break;
        case 3: mpz_setbit(z.v, 2047 + rng().below(66)); break;
        case 4: z = orc::Z::be(rng().bytes(1 + rng().below(256))); break;
        case 5: z = orc::Z::be(Bytes(264, (char)0xff)); break;
        default: mpz_set_ui(z.v, 0);
        }
        int d = (int)rng().below(5) - 2;
        if (d > 0) mpz_add_ui(z.v, z.v, d);
        if (d < 0 && mpz_cmp_ui(z.v, 4) > 0) mpz_sub_ui(z.v, z.v, -d);
        mpz_fdiv_r_2exp(z.v, z.v, 264 * 8);
        g_feed = z.to_be(264);
        if (rng().chance(1, 4)) g_feed = g_feed.substr(8); // a draw of the size of the modulus
        if (rng().chance(1, 8)) g_feed = Bytes(g_feed.rbegin(), g_feed.rend());
        g_fed = 0;
        note("sample of chosen randomness %s key=%s", hex(g_feed, 264).c_str(), g_key.c_str());
        randombytes_set_implementation(&g_impl);
        Bytes x;
        must("sample-throws", [&] { x = j % 2 ? Bytes(t.sample()) : from_arr(t.sample_array()); });
        randombytes_set_implementation(&randombytes_sysrandom_implementation);
        in_domain(k, x, "sample");
        tally("chosen_draws");
        if (g_fed != 0) tally("chosen_used");
    }
}
// Draws are even over the residues: with a modulus of c*2^2045, drawing only as
// many bits as the modulus has would make the small residues twice as likely.
static void even_draws()
{
    for (unsigned c = 5; c <= 7; c++) {
        orc::Z n;
        mpz_set_ui(n.v, c);
        mpz_mul_2exp(n.v, n.v, 2045);
        orc::Z low = orc::Z::be(rng().bytes(200));
        mpz_add(n.v, n.v, low.v);
        mpz_setbit(n.v, 0);
        orc::Rsa k;
        mpz_set(k.n.v, n.v);
        mpz_set_ui(k.e.v, 65537);
        note("draws with a modulus of about %u * 2^2045", c);
        std::unique_ptr<Tdp>         t;
        std::unique_ptr<TdpMultPool> pool;
        if (!must("construct", [&] {
                t.reset(new Tdp(k.pem_pub()));
                pool.reset(new TdpMultPool(k.pem_pub(), 2));
            }))
            continue;
        // ten classes of equal size
        const unsigned N = ctx().thorough ? 20000 : 4000;
        unsigned       cnt[10] = {0};
        for (unsigned j = 0; j < N; j++) {
            Bytes x;
            switch (j % 4) {
            case 0: x = t->sample(); break;
            case 1: x = from_arr(t->sample_array()); break;
            case 2: x = pool->sample(); break;
            default: x = from_arr(pool->sample_array());
            }
            in_domain(k, x, "sample");
            orc::Z z = orc::Z::be(x);
            mpz_mul_ui(z.v, z.v, 10);
            mpz_fdiv_q(z.v, z.v, n.v);
            cnt[std::min(9ul, mpz_get_ui(z.v))]++;
            tally("even_draws");
        }
        // standard deviation sqrt(N * 0.09); nine of them: probability below 2^-60
        double sd = 0.3 * __builtin_sqrt((double)N);
        for (unsigned q = 0; q < 10; q++)
            if (cnt[q] > N / 10 + 9 * sd || cnt[q] + 9 * sd < N / 10)
                viol("sample-uneven", "%u of %u draws in tenth %u of the domain of a modulus of about %u * 2^2045", cnt[q], N, q, c);
        seenf("even/%u", c);
    }
}
void vh::run()
{
    unsigned nk = ctx().thorough ? 16 : 4;
    for (unsigned i = 0; i < nk; i++) {
        // moduli close to 2^2047.. and to 2^2048
        orc::Rsa k = orc::make_rsa(rng(), 2048, orc::exponent(i));
        g_key      = hex(k.n.to_be(256), 256);
        TdpInverse  inv(k.pem_priv());
        Tdp         pub(k.pem_pub()), copy(pub);
        TdpMultPool pool(k.pem_pub(), 3);
        for (unsigned j = 0; j < (ctx().thorough ? 120u : 50u); j++) {
            Bytes       key  = rng().content(32);
            std::string seed = rng().content(j < 20 ? j : rng().below(rng().chance(1, 8) ? 5000 : 300));
            P           prf(K(key));
            orc::Z      z = orc::Z::be(orc::prf(key, seed, 264));
            mpz_mod(z.v, z.v, k.n.v);
            Bytes want = z.to_be(256);
            gen("Tdp", pub, k, key, prf, seed, want);
            gen("TdpInverse", inv, k, key, prf, seed, want);
            if (j % 4 == 0) {
                gen("copy", copy, k, key, prf, seed, want);
                gen("pool", pool, k, key, prf, seed, want);
            }
            if (j % 8 == 0) {
                must("generated-not-invertible", [&] {
                    CHECK_EQ_BYTES("generated-invert", inv.eval(inv.invert(want)), want);
                });
                tally("inverted");
            }
            // interleave draws: generation does not depend on them
            if (rng().chance(1, 2)) {
                (void)pub.sample();
            }
            seenf("%s/%s/%s", hex(key).c_str(), hex(seed, 64).c_str(), g_key.substr(0, 20).c_str());
        }
        // seeds whose element starts, or whose PRF output starts or ends, with zero bytes
        for (unsigned want_zero = 1; want_zero <= 2; want_zero++) {
            for (unsigned r = 0; r < (want_zero == 1 ? 6u : ctx().thorough ? 4u : 1u); r++) {
                Bytes key = rng().bytes(32);
                bool  hit[3] = {false, false, false};
                for (unsigned c = 0; c < (want_zero == 1 ? 4000u : 300000u) && !hit[0]; c++) {
                    std::string seed = std::to_string(c);
                    Bytes       o    = orc::prf(key, seed, 264);
                    orc::Z      z    = orc::Z::be(o);
                    mpz_mod(z.v, z.v, k.n.v);
                    Bytes w    = z.to_be(256);
                    bool  b[3] = {w.compare(0, want_zero, Bytes(want_zero, 0)) == 0, o.compare(0, want_zero, Bytes(want_zero, 0)) == 0, w.compare(256 - want_zero, want_zero, Bytes(want_zero, 0)) == 0};
                    for (int q = 0; q < 3; q++) {
                        if (b[q] && !hit[q]) {
                            hit[q] = true;
                            P prf(K(key));
                            gen("Tdp", pub, k, key, prf, seed, w);
                            gen("TdpInverse", inv, k, key, prf, seed, w);
                            must("generated-not-invertible", [&] { CHECK_EQ_BYTES("generated-invert", pub.eval(inv.invert(w)), w); });
                            tally("zero_bytes_elements");
                        }
                    }
                }
            }
        }
        if (i == 0) even_draws();
        chosen_draws(pub, k, ctx().thorough ? 400 : 80);
        chosen_draws(inv, k, ctx().thorough ? 400 : 80);
        // samples
        std::map<Bytes, int> seen_samples;
        std::vector<std::array<uint64_t, 1>> dummy;
        orc::Z half, q;
        mpz_fdiv_q_2exp(half.v, k.n.v, 1);
        unsigned upper = 0, total = 0;
        for (unsigned j = 0; j < (ctx().thorough ? 600u : 160u); j++) {
            note("sample %u key=%s", j, g_key.c_str());
            Bytes x;
            must("sample-throws", [&] {
                switch (j % 6) {
                case 0: x = pub.sample(); break;
                case 1: x = from_arr(pub.sample_array()); break;
                case 2: x = inv.sample(); break;
                case 3: x = from_arr(inv.sample_array()); break;
                case 4: x = pool.sample(); break;
                default: x = from_arr(pool.sample_array());
                }
            });
            in_domain(k, x, "sample");
            if (seen_samples[x]++ != 0) {
                viol("sample-repeats", "an element was drawn twice");
            }
            upper += mpz_cmp(orc::Z::be(x).v, half.v) > 0;
            total++;
            if (j % 40 == 0) {
                must("sample-not-invertible", [&] {
                    CHECK_EQ_BYTES("sample-invert", pub.eval(inv.invert(x)), x);
                });
            }
            tally("samples");
        }
        // the draws spread over the domain (probability below 2^-60 otherwise)
        if (total >= 150 && (upper < total / 8 || upper > total - total / 8)) {
            viol("sample-bias", "%u of %u samples in the upper half", upper, total);
        }
        sample("modulus %s...: %u samples, %u in the upper half", g_key.substr(0, 16).c_str(), total, upper);
    }
}
