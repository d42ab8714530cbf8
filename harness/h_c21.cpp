// C21: distinct objects can be used from many threads at once.
// Many threads run the same deterministic workloads on objects of their own
// (made from equal keys, or copies of one original made beforehand), in step or
// apart; afterwards one thread repeats everything alone and the results have to
// be equal. ThreadSanitizer watches for races; the plain build runs the same
// under more pressure.
#define VH_REAL_RANDOM
#include "objects.hpp"
#include "hash/sha512.hpp"
#include <sse/crypto/hash.hpp>
#include <sse/crypto/hmac.hpp>
#include <sse/crypto/random.hpp>
#include <sse/crypto/set_hash.hpp>
#include <sse/crypto/utils.hpp>
extern "C" {
#include "mbedtls/base64.h"
#include "mbedtls/bignum.h"
#include "mbedtls/pk.h"
#include "mbedtls/rsa.h"
}
#include <atomic>
#include <sched.h>
#include <thread>
using namespace vh;
using namespace sse::crypto;

// a digest of everything a workload saw
struct Trace
{
    uint64_t    h = 1469598103934665603ull;
    std::string wrong;
    void        operator()(const Bytes& b)
    {
        h = fnv(b.data(), b.size(), h);
        h = (h ^ b.size()) * 1099511628211ull;
    }
    template<size_t N>
    void operator()(const std::array<uint8_t, N>& a)
    {
        (*this)(Bytes(reinterpret_cast<const char*>(a.data()), N));
    }
    void num(uint64_t x)
    {
        (*this)(Bytes(reinterpret_cast<const char*>(&x), 8));
    }
    void need(bool c, const char* w)
    {
        if (!c && wrong.empty()) wrong = w;
    }
};
template<size_t N>
static Key<N> K(Rng& r)
{
    Bytes k = r.bytes(N);
    return Key<N>(reinterpret_cast<uint8_t*>(&k[0]));
}
template<class F>
static bool thr(F f)
{
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}
static orc::Rsa* g_rsa[2];
static int       rng_of(void* p, unsigned char* o, size_t n)
{
    static_cast<Rng*>(p)->fill(o, n);
    return 0;
}
struct Own // a thread's own copies of common originals
{
    std::unique_ptr<Tdp>         tdp;
    std::unique_ptr<TdpMultPool> pool;
    std::unique_ptr<SetHash>     set;
};
struct Work
{
    const char*                              name;
    unsigned                                 weight;
    std::function<void(Rng&, Trace&, Own&)> f;
};
// mostly small, now and then beyond a few pages and beyond 16 bits
static size_t some(Rng& r, size_t n)
{
    return r.chance(1, 20) ? r.below(r.chance(1, 3) ? 90000 : 9000) : r.below(n);
}
template<class T, class F>
static void wrapped(Rng& r, Trace& t, T&& o, F probe)
{
    Bytes   k = r.bytes(32), k2 = k;
    Wrapper w(Key<32>(reinterpret_cast<uint8_t*>(&k[0])));
    Wrapper w2(Key<32>(reinterpret_cast<uint8_t*>(&k2[0])));
    auto    b = w.wrap(o), bad = b;
    t.num(b.size());
    bad[r.below(bad.size())] ^= 1;
    t.need(thr([&] { w.template unwrap<T>(bad); }), "a forged blob was accepted");
    T x = w2.template unwrap<T>(b);
    probe(o);
    probe(x);
}
static const std::vector<Work>& works()
{
    static const std::vector<Work>* v = new std::vector<Work>{
        {"hash", 4,
         [](Rng& r, Trace& t, Own&) {
             for (int i = 0; i < 6; i++) {
                 Bytes m = r.bytes(some(r, 400)), o;
                 t(Hash::hash(m));
                 t(Hash::hash(m, r.below(65)));
                 Hash::hash(m, o);
                 t(o);
                 uint8_t d[64];
                 Hash::hash(U(m), m.size(), 20, d);
                 t(Bytes(reinterpret_cast<char*>(d), 20));
                 hash::sha512::hash(U(m), m.size(), d);
                 t(Bytes(reinterpret_cast<char*>(d), 64));
             }
         }},
        {"hmac", 4,
         [](Rng& r, Trace& t, Own&) {
             HMac<Hash, 32>          a(K<32>(r));
             HMac<Hash, 200>         b(K<200>(r));
             HMac<hash::sha512, 64> c(K<64>(r));
             for (int i = 0; i < 4; i++) {
                 Bytes   m = r.bytes(some(r, 300));
                 uint8_t d[64];
                 t(a.hmac(m));
                 t(b.hmac(m));
                 t(c.hmac(m));
                 size_t l = r.below(65);
                 a.hmac(U(m), m.size(), d, l);
                 t(Bytes(reinterpret_cast<char*>(d), l));
                 t.need(thr([&] { b.hmac(U(m), m.size(), d, 65); }), "a long output was accepted");
             }
         }},
        {"prf", 4,
         [](Rng& r, Trace& t, Own&) {
             Prf<16>    a(K<32>(r));
             Prf<64>    b(K<32>(r));
             Prf<200>   c(K<32>(r));
             Prf<16500> d(K<32>(r));
             for (int i = 0; i < 3; i++) {
                 Bytes m = r.bytes(some(r, 200));
                 t(a.prf(m));
                 t(b.prf(U(m), m.size()));
                 t(c.prf(m));
                 if (i == 0) t(d.prf(m));
                 t(HMac<Hash, 200>(c.derive_key(m)).hmac("x"));
                 t(b.prf(to_arr<30>(r.bytes(30))));
             }
         }},
        {"prg", 4,
         [](Rng& r, Trace& t, Own&) {
             Prg g(K<32>(r));
             for (int i = 0; i < 4; i++) {
                 t(g.derive(some(r, 300)));
                 t(g.derive(some(r, 300), some(r, 300)));
                 t(Prg::derive(K<32>(r), r.below(100), r.below(100)));
                 t(Prg::derive(g.derive_key<32>((uint16_t)r.below(99)), 40));
                 for (auto& k : g.derive_keys<32>((uint16_t)r.below(r.chance(1, 20) ? 100 : 4), (uint16_t)r.below(9))) t(Prg::derive(std::move(k), 16));
             }
         }},
        {"prp", 4,
         [](Rng& r, Trace& t, Own&) {
             Prp p(K<48>(r));
             for (int i = 0; i < 6; i++) {
                 Bytes m = r.bytes(1 + some(r, 200)), c = p.encrypt(m);
                 t(c);
                 t.need(p.decrypt(c) == m, "the permutation is not inverted");
                 t(p.decrypt(m));
                 uint64_t x = r.next();
                 t.num(p.encrypt_64(x));
                 t.num(p.encrypt((uint32_t)x));
                 t.num(p.decrypt_64(x));
             }
         }},
        {"cipher", 4,
         [](Rng& r, Trace& t, Own&) {
             Bytes  k = r.bytes(32), k2 = k;
             Cipher a(Key<32>(reinterpret_cast<uint8_t*>(&k[0]))), b(Key<32>(reinterpret_cast<uint8_t*>(&k2[0])));
             for (int i = 0; i < 5; i++) {
                 Bytes       m = r.bytes(1 + some(r, 300));
                 std::string c, p;
                 a.encrypt(m, c);
                 b.decrypt(c, p);
                 t(p);
                 t.need(p == m, "decryption returned something else");
                 c[r.below(c.size())] ^= 2;
                 t.need(thr([&] { b.decrypt(c, p); }), "a forged ciphertext was accepted");
                 std::array<uint8_t, 20> x = to_arr<20>(r.bytes(20)), y;
                 std::array<uint8_t, 52> z;
                 b.encrypt(x, z);
                 a.decrypt<20>(z, y);
                 t(y);
             }
         }},
        {"wrap", 4,
         [](Rng& r, Trace& t, Own&) {
             wrapped(r, t, Prg(K<32>(r)), [&](Prg& o) { t(o.derive(30)); });
             wrapped(r, t, Prp(K<48>(r)), [&](Prp& o) { t(o.encrypt("0123456789")); });
             wrapped(r, t, Prf<70>(K<32>(r)), [&](Prf<70>& o) { t(o.prf("0123456789")); });
             wrapped(r, t, RCPrf<16>(K<32>(r), 10), [&](RCPrf<16>& o) { t(o.eval(77)); });
             RCPrf<16> m(K<32>(r), 10);
             wrapped(r, t, m.constrain(3, 300), [&](ConstrainedRCPrf<16>& o) { t(o.eval(99)); });
         }},
        {"rcprf", 4,
         [](Rng& r, Trace& t, Own&) {
             RCPrf<16> a(K<32>(r), 12);
             RCPrf<64> b(K<32>(r), 64);
             for (int i = 0; i < 3; i++) {
                 uint64_t x = r.below(2000), y = x + r.below(40);
                 t(a.eval(x));
                 t(b.eval(r.next() >> 1));
                 auto c = a.constrain(x, y);
                 t(c.eval(y));
                 a.eval_range(x, y, [&](uint64_t l, std::array<uint8_t, 16> v) { t.num(l); t(v); });
                 c.eval_range(x, y, [&](uint64_t l, std::array<uint8_t, 16> v) { t.num(l); t(v); });
                 t.need(thr([&] { c.eval(y + 1); }), "a leaf outside was evaluated");
                 auto d = c.constrain(x, x + (y - x) / 2);
                 t(d.eval(x));
             }
         }},
        {"set", 4,
         [](Rng& r, Trace& t, Own& o) {
             SetHash s, u;
             for (int i = 0; i < 4; i++) {
                 s.add_element(r.bytes(some(r, 60)));
                 u.remove_element(r.bytes(r.below(60)));
                 s.add_set(u);
                 t(s.data());
                 s.remove_set(u);
                 SetHash c(s.data());
                 t.need(c == s && !(c != s), "a re-imported set hash differs");
             }
             SetHash mine(*o.set);
             mine.add_element(r.bytes(10));
             t(mine.data());
         }},
        {"search", 1,
         [](Rng& r, Trace& t, Own&) {
             Bytes a = r.bytes(300), b = a.substr(r.below(290), 5);
             const uint8_t* p = strstrn_uint8(U(a), a.size(), U(b), b.size());
             t.num(p ? (uint64_t)(p - U(a)) : 999);
         }},
        {"tdp", 3,
         [](Rng& r, Trace& t, Own& o) {
             Tdp   f(g_rsa[r.below(2)]->pem_pub());
             Bytes m = Bytes(1, 0) + r.bytes(255);
             t(f.eval(m));
             t(f.eval(to_arr<256>(m)));
             t(f.generate(K<32>(r), r.bytes(20)));
             Prf<Tdp::kRSAPrfSize> p(K<32>(r));
             t(f.generate(p, r.bytes(20)));
             t(f.public_key());
             t.need(f.sample().size() == 256, "sample");
             t(o.tdp->eval(m));
             t(o.pool->eval(m, (uint8_t)(1 + r.below(3))));
             Tdp g(f);
             t(g.eval(m));
         }},
        {"pool", 2,
         [](Rng& r, Trace& t, Own&) {
             TdpMultPool p(g_rsa[1]->pem_pub(), 4);
             Bytes       m = Bytes(1, 0) + r.bytes(255);
             for (uint8_t k = 1; k <= 4; k++) t(p.eval(m, k));
             TdpMultPool q(p);
             t(q.eval(to_arr<256>(m), 3));
             t.need(thr([&] { q.eval(m, 5); }), "a large order was accepted");
         }},
        {"inverse", 1,
         [](Rng& r, Trace& t, Own&) {
             orc::Rsa&  k = *g_rsa[r.below(2)];
             TdpInverse f(k.pem_priv());
             Bytes      m = Bytes(1, 0) + r.bytes(255);
             Bytes      x = f.invert(m);
             t(x);
             t.need(f.eval(x) == m, "inversion is not undone");
             t(f.invert_mult(m, (uint32_t)(2 + r.below(3))));
             t(f.private_key());
             t(f.generate(K<32>(r), r.bytes(9)));
         }},
        {"bad keys", 2,
         [](Rng& r, Trace& t, Own&) {
             Bytes s = r.chance(1, 2) ? g_rsa[0]->pem_priv() : g_rsa[1]->pem_pub();
             for (int i = 0; i < 3; i++) {
                 Bytes b = s;
                 b[r.below(b.size())] ^= 1;
                 t.num(thr([&] { Tdp x(b); }));
                 b.resize(r.below(b.size()));
                 t.num(thr([&] { TdpInverse x(b); }));
             }
         }},
        {"key pair", 1,
         [](Rng& r, Trace& t, Own&) {
             mbedtls_rsa_context c;
             mbedtls_rsa_init(&c, 0, 0);
             int e = mbedtls_rsa_gen_key(&c, rng_of, &r, 192, 65537);
             t.need(e == 0 && mbedtls_rsa_check_privkey(&c) == 0, "a generated key is invalid");
             Bytes n(24, 0);
             mbedtls_mpi_write_binary(&c.N, reinterpret_cast<unsigned char*>(&n[0]), 24);
             t(n);
             uint8_t in[24] = {}, out[24] = {}, back[24] = {};
             in[20] = 7;
             if (e == 0) {
                 t.need(mbedtls_rsa_public(&c, in, out) == 0, "public operation");
                 t.need(mbedtls_rsa_private(&c, rng_of, &r, out, back) == 0 && memcmp(in, back, 24) == 0, "private operation");
             }
             mbedtls_rsa_free(&c);
         }},
        {"numbers", 2,
         [](Rng& r, Trace& t, Own&) {
             mbedtls_mpi a, b, c, q;
             mbedtls_mpi_init(&a);
             mbedtls_mpi_init(&b);
             mbedtls_mpi_init(&c);
             mbedtls_mpi_init(&q);
             Bytes x = r.bytes(64), y = r.bytes(40), z = r.bytes(64);
             z[63] |= 1;
             mbedtls_mpi_read_binary(&a, U(x), 64);
             mbedtls_mpi_read_binary(&b, U(y), 40);
             mbedtls_mpi_read_binary(&c, U(z), 64);
             char   buf[400];
             size_t l = 0;
             auto   out = [&](mbedtls_mpi& m) {
                 if (mbedtls_mpi_write_string(&m, 16, buf, sizeof buf, &l) == 0) t(Bytes(buf));
             };
             mbedtls_mpi_exp_mod(&q, &a, &b, &c, nullptr);
             out(q);
             mbedtls_mpi_gcd(&q, &a, &c);
             out(q);
             mbedtls_mpi_inv_mod(&q, &b, &c);
             out(q);
             mbedtls_mpi_div_mpi(&q, &c, &a, &b);
             out(q);
             out(c);
             unsigned char e[200], d[200];
             size_t        n = 0, k = 0;
             if (mbedtls_base64_encode(e, sizeof e, &n, U(x), 64) == 0 && mbedtls_base64_decode(d, sizeof d, &k, e, n) == 0) t(Bytes(reinterpret_cast<char*>(d), k));
             mbedtls_mpi_free(&a);
             mbedtls_mpi_free(&b);
             mbedtls_mpi_free(&c);
             mbedtls_mpi_free(&q);
         }},
        {"random", 1,
         [](Rng&, Trace& t, Own&) {
             Bytes a = random_string(40), b = random_string(40);
             t.need(a != b, "random values repeat");
             Key<32> k;
             Prf<32> f;
             t.need(Prg::derive(std::move(k), 32) != from_arr(f.prf("x")), "random keys repeat");
         }},
    };
    return *v;
}
static std::unique_ptr<Tdp>         g_tdp;
static std::unique_ptr<TdpMultPool> g_pool;
static std::unique_ptr<SetHash>     g_set;
static Own own()
{
    Own o;
    o.tdp.reset(new Tdp(*g_tdp));
    o.pool.reset(new TdpMultPool(*g_pool));
    o.set.reset(new SetHash(*g_set));
    return o;
}
struct Step
{
    unsigned work;
    uint64_t seed;
};
struct Result
{
    uint64_t    h;
    std::string wrong;
};
static Result one(const Step& s, Own& o)
{
    Rng   r(s.seed);
    Trace t;
    try {
        works()[s.work].f(r, t, o);
    } catch (const std::exception& e) {
        t.need(false, "exception");
        t.wrong += std::string(": ") + e.what();
    }
    return Result{t.h, t.wrong};
}
static std::atomic<unsigned> g_at[4096]; // meeting points
static void meet(unsigned point, unsigned n)
{
    g_at[point].fetch_add(1);
    for (unsigned i = 0; g_at[point].load() < n; i++)
        if (i > 50) sched_yield();
}
static std::atomic<uint64_t> g_overlap;
static std::atomic<int>      g_busy[64];
static uint64_t round(unsigned nt, const std::vector<std::vector<Step>>& plan, bool together, std::vector<std::vector<Result>>& out)
{
    for (auto& a : g_at) a = 0;
    g_overlap = 0;
    std::vector<Own> owns;
    for (unsigned t = 0; t < nt; t++) owns.push_back(own());
    out.assign(nt, {});
    std::vector<std::thread> th;
    for (unsigned t = 0; t < nt; t++)
        th.emplace_back([&, t] {
            out[t].reserve(plan[t].size());
            meet(0, nt);
            for (unsigned i = 0; i < plan[t].size(); i++) {
                if (together) meet(i + 1, nt);
                unsigned w = plan[t][i].work;
                if (g_busy[w].fetch_add(1) > 0) g_overlap++;
                out[t].push_back(one(plan[t][i], owns[t]));
                g_busy[w].fetch_sub(1);
            }
        });
    for (auto& t : th) t.join();
    return g_overlap;
}
static void compare(unsigned nt, const std::vector<std::vector<Step>>& plan, const std::vector<std::vector<Result>>& got, const char* how)
{
    Own o = own();
    for (unsigned t = 0; t < nt; t++)
        for (unsigned i = 0; i < plan[t].size(); i++) {
            const char* n = works()[plan[t][i].work].name;
            note("%s alone, seed %llu", n, (unsigned long long)plan[t][i].seed);
            Result r = one(plan[t][i], o);
            if (!r.wrong.empty()) viol("alone", "%s in one thread: %s", n, r.wrong.c_str());
            if (!got[t][i].wrong.empty()) viol("wrong", "%s in %u threads (%s): %s", n, nt, how, got[t][i].wrong.c_str());
            else if (got[t][i].h != r.h) viol("different", "%s in %u threads (%s): other results than in one thread (seed %llu)", n, nt, how, (unsigned long long)plan[t][i].seed);
            tally("results_compared");
            seenf("%s/%llu", n, (unsigned long long)plan[t][i].seed);
        }
}
void vh::run()
{
    g_rsa[0] = new orc::Rsa(orc::make_rsa(rng(), 2048, orc::exponent(0)));
    g_rsa[1] = new orc::Rsa(orc::make_rsa(rng(), 2048, orc::exponent(1)));
    const auto&           w = works();
    std::vector<unsigned> bag;
    for (unsigned i = 0; i < w.size(); i++) bag.insert(bag.end(), w[i].weight, i);
    // first uses of everything happen in threads
    g_tdp.reset(new Tdp(g_rsa[1]->pem_pub()));
    g_pool.reset(new TdpMultPool(g_rsa[1]->pem_pub(), 3));
    g_set.reset(new SetHash(std::vector<std::string>{"a", "b"}));
    unsigned rounds = ctx().thorough ? 40 : 3;
    for (unsigned r = 0; r < rounds; r++) {
        unsigned                            nt = r == 0 ? 6 : (unsigned)rng().range(2, 10);
        bool                                together = r % 2 == 0;
        unsigned                            steps = 60;
        std::vector<std::vector<Step>>      plan(nt);
        std::vector<unsigned>               order;
        for (unsigned i = 0; i < steps; i++) order.push_back(i < w.size() && r == 0 ? i : bag[rng().below(bag.size())]);
        for (unsigned i = (unsigned)w.size(); i > 1 && r == 0; i--) std::swap(order[i - 1], order[rng().below(i)]);
        uint64_t common = rng().next();
        for (unsigned t = 0; t < nt; t++)
            for (unsigned i = 0; i < steps; i++) {
                unsigned k = together ? order[i] : bag[rng().below(bag.size())];
                // equal keys in all threads, or each its own
                plan[t].push_back(Step{k, rng().chance(1, 2) ? common + i : rng().next()});
            }
        note("round %u: %u threads", r, nt);
        std::vector<std::vector<Result>> out;
        uint64_t                         ov = round(nt, plan, together, out);
        tally("overlapping_operations", ov);
        tally("threads", nt);
        tally("rounds");
        tally(together ? "rounds_in_step" : "rounds_apart");
        compare(nt, plan, out, together ? "in step" : "apart");
        sample("round %u: %u threads, %s, %llu operations overlapped one of their kind", r, nt, together ? "in step" : "apart", (unsigned long long)ov);
    }
}
