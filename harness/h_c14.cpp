// C14: iterated evaluation and inversion are exact.
#include "reborn.hpp"
#include "rsakeys.hpp"
#include <sse/crypto/tdp.hpp>
#include "tdp_impl/tdp_impl.hpp"
using namespace vh;
using namespace sse::crypto;
typedef std::array<uint8_t, 256> A;
static std::string g_key;
static Bytes iter(const orc::Rsa& k, Bytes m, unsigned n, bool inverse)
{
    // exponent e^n or d^n modulo the group order, values through GMP
    orc::Z p1, q1, lam, ex, x = orc::Z::be(m);
    mpz_sub_ui(p1.v, k.p.v, 1);
    mpz_sub_ui(q1.v, k.q.v, 1);
    mpz_lcm(lam.v, p1.v, q1.v);
    mpz_powm_ui(ex.v, inverse ? k.d.v : k.e.v, n, lam.v);
    if (mpz_sgn(ex.v) == 0) {
        mpz_set(ex.v, lam.v);
    }
    return k.powm(x, ex).to_be(256);
}
static Bytes dom(const orc::Rsa& k)
{
    orc::Z x;
    switch (rng().below(9)) {
    case 7:
    case 8: // where small powers begin to exceed the modulus, or its size
        if (rng().chance(1, 2)) mpz_set(x.v, k.n.v);
        else mpz_ui_pow_ui(x.v, 2, 2048);
        mpz_root(x.v, x.v, rng().chance(1, 2) && mpz_cmp_ui(k.e.v, 1000) < 0 ? mpz_get_ui(k.e.v) : rng().range(2, 9));
        mpz_add_ui(x.v, x.v, rng().below(3));
        mpz_sub_ui(x.v, x.v, 1);
        break;
    case 0: mpz_set_ui(x.v, rng().below(3)); break;
    case 1: mpz_sub_ui(x.v, k.n.v, 1 + rng().below(2)); break;
    case 2: mpz_mul_ui(x.v, rng().chance(1, 2) ? k.p.v : k.q.v, 1 + rng().below(99)); break;
    case 3: x = orc::Z::be(rng().bytes(1 + rng().below(255))); break;
    default: x = orc::Z::be(rng().bytes(264));
    }
    mpz_mod(x.v, x.v, k.n.v);
    return x.to_be(256);
}
static void invert_mult(const TdpInverse& t, const Tdp& pub, const orc::Rsa& k, uint32_t n)
{
    Bytes m = dom(k), want = n == 0 ? m : iter(k, m, n, true);
    note("invert_mult order=%u key=%s m=%s", n, g_key.c_str(), hex(m, 256).c_str());
    std::string a, b = "old";
    A           c;
    if (!must("invert_mult-throws", [&] { a = t.invert_mult(m, n); t.invert_mult(m, b, n); c = t.invert_mult(to_arr<256>(m), n); })) {
        return;
    }
    CHECK_EQ_BYTES("invert_mult", a, want);
    CHECK_EQ_BYTES("invert_mult-out", b, want);
    CHECK_EQ_BYTES("invert_mult-array", from_arr(c), want);
    b = m;
    if (must("invert_mult-throws", [&] { t.invert_mult(b, b, n); })) {
        CHECK_EQ_BYTES("invert_mult-in-place", b, want);
    }
    if (n <= 6) {
        // against the library's own single steps
        std::string x = m, y = a;
        must("single-steps", [&] {
            for (unsigned i = 0; i < n; i++) {
                x = t.invert(x);
                y = pub.eval(y);
            }
        });
        CHECK_EQ_BYTES("invert_mult-steps", x, a);
        CHECK_EQ_BYTES("eval-undoes", y, m);
        tally("stepwise");
    }
    tally("invert_mults");
    tally(n > 1000 ? "large_orders" : "small_orders");
    seenf("im/%u/%s", n, hex(m, 256).c_str());
}
static void bad_strings(const TdpInverse& t)
{
    for (size_t n : {size_t(0), size_t(1), size_t(100), size_t(255), size_t(257), size_t(400)}) {
        std::string in = rng().bytes(n), o;
        for (uint32_t ord : {1u, 2u, 7u}) {
            note("invert_mult of %zu bytes", n);
            if (!throws([&] { t.invert_mult(in, o, ord); }) || !throws([&] { (void)t.invert_mult(in, ord); })) {
                viol("invert_mult-size", "a message of %zu bytes was accepted", n);
            }
        }
        tally("bad_sizes");
    }
}
static void use_pool(const TdpMultPool& p, const orc::Rsa& k, unsigned size, bool all)
{
    Bytes m = dom(k);
    if (p.maximum_order() != size) {
        viol("maximum_order", "pool of size %u reports order %u", size, p.maximum_order());
    }
    CHECK_EQ_BYTES("pool-public-key", p.public_key(), k.pem_pub());
    std::vector<Bytes> want(1, m);
    for (unsigned o = 1; o <= size; o++) {
        want.push_back(k.eval(want.back()));
    }
    for (unsigned o = 1; o <= size; o++) {
        if (!all && o > 2 && o + 2 < size && !rng().chance(1, 5)) {
            continue;
        }
        note("pool size=%u order=%u key=%s m=%s", size, o, g_key.c_str(), hex(m, 256).c_str());
        std::string a, b = "old";
        A           c;
        if (must("pool-eval-throws", [&] { a = p.eval(m, (uint8_t)o); p.eval(m, b, (uint8_t)o); c = p.eval(to_arr<256>(m), (uint8_t)o); })) {
            CHECK_EQ_BYTES("pool-eval", a, want[o]);
            CHECK_EQ_BYTES("pool-eval-out", b, want[o]);
            CHECK_EQ_BYTES("pool-eval-array", from_arr(c), want[o]);
            b = m;
            if (must("pool-eval-throws", [&] { p.eval(b, b, (uint8_t)o); })) {
                CHECK_EQ_BYTES("pool-eval-in-place", b, want[o]);
            }
        }
        tally("pool_evals");
        seenf("pool/%u/%u/%s", size, o, hex(m, 32).c_str());
    }
    // no order given: a single evaluation
    std::string a, b;
    A           c;
    if (must("pool-eval-throws", [&] { a = p.eval(m); p.eval(m, b); c = p.eval(to_arr<256>(m)); })) {
        CHECK_EQ_BYTES("pool-eval-default", a, want[1]);
        CHECK_EQ_BYTES("pool-eval-default", b, want[1]);
        CHECK_EQ_BYTES("pool-eval-default", from_arr(c), want[1]);
    }
    for (unsigned o : {0u, size + 1, size + 2, size + 100, 255u, 128u}) {
        if ((o >= 1 && o <= size) || o > 255) {
            continue;
        }
        note("pool size=%u refused order=%u", size, o);
        if (!throws([&] { (void)p.eval(m, (uint8_t)o); }) || !throws([&] { p.eval(m, b, (uint8_t)o); })
            || !throws([&] { (void)p.eval(to_arr<256>(m), (uint8_t)o); })) {
            viol("pool-order", "a pool of size %u accepted the order %u", size, o);
        }
        tally("refused_orders");
    }
    for (size_t n : {0, 1, 255, 257}) {
        std::string in = rng().bytes(n);
        note("pool eval of %zu bytes", n);
        for (unsigned o = 1; o <= std::min(size, 3u); o++) {
            if (!throws([&] { (void)p.eval(in, (uint8_t)o); }) || !throws([&] { p.eval(in, b, (uint8_t)o); })) {
                viol("pool-size", "a message of %zu bytes was accepted at order %u", n, o);
            }
        }
        if (!throws([&] { (void)p.eval(in); })) {
            viol("pool-size", "a message of %zu bytes was accepted", n);
        }
    }
}
static void pool(const orc::Rsa& k, unsigned size, bool all)
{
    note("pool size=%u key=%s", size, g_key.c_str());
    std::unique_ptr<TdpMultPool> p;
    std::string                  what;
    Outcome                      o = outcome([&] { p.reset(new TdpMultPool(k.pem_pub(), (uint8_t)size)); }, &what);
    if (size == 0) {
        if (o == OK) {
            viol("pool-zero", "a pool of size 0 was built");
        }
        return;
    }
    // the order-n key has exponent e^n, which has to stay below the modulus
    orc::Z en;
    mpz_pow_ui(en.v, k.e.v, size);
    bool fits = mpz_cmp(en.v, k.n.v) < 0;
    if (o != OK) {
        if (fits) {
            viol("pool-build", "a pool of size %u was refused: %s", size, what.c_str());
        }
        tally("pools_refused");
        return;
    }
    use_pool(*p, k, size, all);
    tally("pools");
    if (size <= 12) {
        TdpMultPool c(*p);
        use_pool(c, k, size, false);
        orc::Rsa    other = k;
        TdpMultPool d(k.pem_pub(), (uint8_t)(1 + rng().below(5)));
        d = c;
        use_pool(d, k, size, false);
        d = *&d;
        p.reset();
        use_pool(d, k, size, false);
        use_pool(c, k, size, false);
        tally("pool_copies");
    }
}
static void reborn(int steps)
{
    Slot<TdpMultPool> pool;
    Slot<TdpInverse>  inv;
    orc::Rsa          k[3] = {orc::make_rsa(rng(), 2048, orc::exponent(0)), orc::make_rsa(rng(), 2048, orc::exponent(0)), orc::make_rsa(rng(), 2048, orc::exponent(3))};
    unsigned          size[3] = {2 + (unsigned)rng().below(3), 4, 5};
    g_key = "rebuilt";
    reborn_walk(steps, 3, 4, [&](unsigned i, unsigned j, bool fresh) {
        note("rebuilt pool, key %u", i);
        must("reborn", [&] {
            if (fresh) pool.put(k[i].pem_pub(), (uint8_t)size[i]), inv.put(k[i].pem_priv());
            use_pool(pool.get(), k[i], size[i], true);
            Tdp t(k[i].pem_pub());
            invert_mult(inv.get(), t, k[i], 2 + j);
        });
    });
}
void vh::run()
{
    for (int r = 0; r < (ctx().thorough ? 8 : 1); r++) reborn(12);
    unsigned nk = ctx().thorough ? 8 : 2;
    for (unsigned i = 0; i < nk; i++) {
        orc::Rsa k = orc::make_rsa(rng(), 2048, orc::exponent(i * 3 + ctx().shard));
        g_key      = hex(k.p.to_be(128), 128) + "," + hex(k.q.to_be(128), 128) + ",e=" + k.e.str(10);
        TdpInverse t(k.pem_priv());
        Tdp        pub(k.pem_pub());
        for (uint32_t n = 0; n <= 40; n++) {
            invert_mult(t, pub, k, n);
        }
        for (uint32_t b = 6; b < 32; b++) {
            invert_mult(t, pub, k, (1u << b) + (uint32_t)rng().below(3) - 1);
        }
        invert_mult(t, pub, k, UINT32_MAX);
        invert_mult(t, pub, k, UINT32_MAX - 1);
        invert_mult(t, pub, k, 0x80000000u);
        for (int j = 0; j < 12; j++) {
            invert_mult(t, pub, k, (uint32_t)rng().next());
        }
        bad_strings(t);
        sample("invert_mult orders 0..40 and up to 2^32-1, e=%s", k.e.str(10).c_str());
    }
    // pools of every size, over the shards
    orc::Rsa k = orc::make_rsa(rng(), 2048, orc::exponent(ctx().shard % 3 == 2 ? 1 + ctx().shard : 0));
    g_key      = hex(k.p.to_be(128), 128) + "," + hex(k.q.to_be(128), 128) + ",e=" + k.e.str(10);
    for (unsigned s = 0; s <= 12; s++) {
        pool(k, s, true);
    }
    for (unsigned s = 13; s <= 255; s++) {
        if (mine(s) && (ctx().thorough || rng().chance(1, 2) || s > 250)) {
            pool(k, s, ctx().thorough);
        }
    }
    // pools over different keys: assignment replaces everything
    orc::Rsa    k2 = orc::make_rsa(rng(), 2048, orc::exponent(3));
    TdpMultPool a(k.pem_pub(), 4), b(k2.pem_pub(), 6);
    use_pool(a, k, 4, true);
    use_pool(b, k2, 6, true);
    a = b;
    g_key = "assigned pool";
    use_pool(a, k2, 6, true);
    use_pool(b, k2, 6, false);
}
