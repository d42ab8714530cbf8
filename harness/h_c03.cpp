// C03: generated keys, nonces and random values are fresh and unpredictable.
// The random generator is replaced by one whose stream the monitor controls and
// counts. Every producer of random values is observed for: how much it asked the
// generator for, whether its value is determined by the stream (replay), which
// bytes of the stream reach which bytes of the value (single-byte flips), how
// every byte spreads over many values, and whether any part of a value ever
// comes back - in one thread, in many threads and across fork, the last two with
// the system generator.
#include "secobs.hpp"
#include "rsakeys.hpp"
#include <sse/crypto/cipher.hpp>
#include <sse/crypto/hmac.hpp>
#include <sse/crypto/key.hpp>
#include <sse/crypto/prf.hpp>
#include <sse/crypto/prg.hpp>
#include <sse/crypto/prp.hpp>
#include <sse/crypto/random.hpp>
#include <sse/crypto/tdp.hpp>
#include <sse/crypto/wrapper.hpp>
#include "hash/sha512.hpp"
#include "mpi.hpp"
extern "C" {
#include "mbedtls/rsa.h"
}
#include <openssl/bn.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <sodium/randombytes_sysrandom.h>
#include <atomic>
#include <cmath>
#include <set>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace vh;
using namespace sse::crypto;

// ---------------------------------------------------- the observed generator
struct Gen
{
    Rng      r{0};
    uint64_t served = 0, calls = 0;
    int64_t  flip   = -1; // flip this byte of the stream
    uint8_t  mask   = 1;
};
static Gen g_gen;
static const char* gen_name() { return "observed"; }
static void        gen_buf(void* const b, const size_t n)
{
    if (n == 0) return;
    uint8_t* p = static_cast<uint8_t*>(b);
    // one byte at a time: the stream does not depend on how it is cut
    for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(g_gen.r.next() >> 24);
    if (g_gen.flip >= (int64_t)g_gen.served && g_gen.flip < (int64_t)(g_gen.served + n)) p[g_gen.flip - (int64_t)g_gen.served] ^= g_gen.mask;
    g_gen.served += n;
    g_gen.calls++;
}
static uint32_t gen_random()
{
    uint32_t x;
    gen_buf(&x, 4);
    return x;
}
static void                       gen_stir() {}
static int                        gen_close() { return 0; }
static randombytes_implementation g_impl = {gen_name, gen_random, gen_stir, nullptr, gen_buf, gen_close};
static void rewind_to(uint64_t seed, int64_t flip = -1, uint8_t mask = 1)
{
    g_gen.r      = Rng(seed);
    g_gen.served = g_gen.calls = 0;
    g_gen.flip   = flip;
    g_gen.mask   = mask;
}

// ------------------------------------------------------------- the producers
struct Producer
{
    std::string            name;
    size_t                 need;   // random bytes its value has to hold
    bool                   direct; // the value is the random bytes themselves
    std::function<Bytes()> make;
    unsigned               cost = 0; // 0 cheap, 1 modular arithmetic
};
// the key of an object made now, from the secure memory it appeared in
template<size_t N, class F>
static Bytes fresh_block(F make)
{
    uint64_t mk = sec::mark();
    auto     o  = make();
    auto     b  = sec::blocks_since(mk, N);
    if (b.size() != 1) return Bytes(); // kept in another way: observed through use only
    return b[0];
}
template<size_t N>
static Producer pkey()
{
    return Producer{"Key<" + std::to_string(N) + ">", N, true, [] { return fresh_block<N>([] { return Key<N>(); }); }};
}
template<class T, size_t N>
static Producer parray(const char* n)
{
    return Producer{std::string("random_bytes<") + n + "," + std::to_string(N) + ">", N * sizeof(T), true, [] {
                        std::array<T, N> a = random_bytes<T, N>();
                        return Bytes(reinterpret_cast<const char*>(a.data()), N * sizeof(T));
                    }};
}
template<class T, size_t N>
static Producer parray_ref(const char* n)
{
    return Producer{std::string("random_bytes(array<") + n + "," + std::to_string(N) + ">&)", N * sizeof(T), true, [] {
                        Guard g(Bytes(N * sizeof(T), 0x5a));
                        random_bytes(*reinterpret_cast<std::array<T, N>*>(g.data()));
                        if (!g.front_ok()) viol("out-of-bounds", "random_bytes wrote before its array");
                        return g.str();
                    }};
}
static Producer pbuf(size_t n)
{
    return Producer{"random_bytes(" + std::to_string(n) + ",)", n, true, [n] {
                        Guard g(Bytes(n, 0x5a));
                        random_bytes(n, g.data());
                        if (!g.front_ok()) viol("out-of-bounds", "random_bytes wrote before its buffer of %zu bytes", n);
                        return g.str();
                    }};
}
static Producer pstr(size_t n)
{
    return Producer{"random_string(" + std::to_string(n) + ")", n, true, [n] { return random_string(n); }};
}
static Producer prngwrap(size_t n)
{
    return Producer{"mbedTLS_rng_wrap(" + std::to_string(n) + ")", n, true, [n] {
                        Guard g(Bytes(n, 0x5a));
                        if (mbedTLS_rng_wrap(nullptr, g.data(), n) != 0) viol("rng-wrap", "the generator reported an error");
                        return g.str();
                    }};
}
static Bytes g_ckey, g_wkey;
static Cipher& the_cipher()
{
    static Cipher* c = [] {
        Bytes k = g_ckey;
        return new Cipher(Key<32>(reinterpret_cast<uint8_t*>(&k[0])));
    }();
    return *c;
}
static Wrapper& the_wrapper()
{
    static Wrapper* c = [] {
        Bytes k = g_wkey;
        return new Wrapper(Key<32>(reinterpret_cast<uint8_t*>(&k[0])));
    }();
    return *c;
}
template<class T>
static Bytes nonce(const T& c)
{
    return Bytes(reinterpret_cast<const char*>(c.data()), 16);
}
static Bytes&      pub() { static Bytes* b = new Bytes; return *b; }
static Bytes&      prv() { static Bytes* b = new Bytes; return *b; }
static Tdp&        the_tdp() { static Tdp* t = new Tdp(pub()); return *t; }
static TdpInverse& the_inv() { static TdpInverse* t = new TdpInverse(prv()); return *t; }
static TdpMultPool& the_pool() { static TdpMultPool* t = new TdpMultPool(pub(), 3); return *t; }
template<size_t N>
static Bytes A2B(const std::array<uint8_t, N>& a)
{
    return Bytes(reinterpret_cast<const char*>(a.data()), N);
}
static std::vector<Producer> producers()
{
    std::vector<Producer> v = {
        pkey<1>(), pkey<2>(), pkey<7>(), pkey<8>(), pkey<15>(), pkey<16>(), pkey<17>(), pkey<24>(), pkey<31>(), pkey<32>(), pkey<33>(), pkey<48>(),
        pkey<63>(), pkey<64>(), pkey<65>(), pkey<100>(), pkey<128>(), pkey<255>(), pkey<256>(), pkey<257>(), pkey<511>(), pkey<512>(), pkey<513>(),
        pkey<1000>(), pkey<1024>(), pkey<4095>(), pkey<4096>(), pkey<4097>(), pkey<10000>(), pkey<70000>(),
        parray<uint8_t, 1>("uint8_t"), parray<uint8_t, 16>("uint8_t"), parray<uint8_t, 33>("uint8_t"), parray<uint8_t, 1000>("uint8_t"), parray<uint16_t, 9>("uint16_t"),
        parray<uint32_t, 5>("uint32_t"), parray<uint64_t, 1>("uint64_t"), parray<uint64_t, 300>("uint64_t"),
        parray_ref<uint8_t, 1>("uint8_t"), parray_ref<uint8_t, 20>("uint8_t"), parray_ref<uint16_t, 7>("uint16_t"), parray_ref<uint32_t, 33>("uint32_t"), parray_ref<uint64_t, 65>("uint64_t"),
    };
    for (size_t n : {(size_t)1, (size_t)2, (size_t)3, (size_t)15, (size_t)16, (size_t)31, (size_t)32, (size_t)64, (size_t)100, (size_t)255, (size_t)256, (size_t)257, (size_t)1000, (size_t)4096, (size_t)65535, (size_t)65536, (size_t)65537, (size_t)200000}) {
        v.push_back(pbuf(n));
        v.push_back(pstr(n));
        if (n < 5000) v.push_back(prngwrap(n));
    }
    v.push_back(Producer{"Prf<1> key", 32, true, [] { return fresh_block<Prf<1>::kKeySize>([] { return Prf<1>(); }); }});
    v.push_back(Producer{"Prf<32> key", 32, true, [] { return fresh_block<Prf<32>::kKeySize>([] { return Prf<32>(); }); }});
    v.push_back(Producer{"Prf<200> key", 32, true, [] { return fresh_block<Prf<200>::kKeySize>([] { return Prf<200>(); }); }});
    v.push_back(Producer{"HMac<Hash,20> key", 20, true, [] { return fresh_block<20>([] { return HMac<Hash, 20>(); }); }});
    v.push_back(Producer{"HMac<Hash,128> key", 128, true, [] { return fresh_block<128>([] { return HMac<Hash, 128>(); }); }});
    v.push_back(Producer{"HMac<Hash,300> key", 300, true, [] { return fresh_block<300>([] { return HMac<Hash, 300>(); }); }});
    v.push_back(Producer{"HMac<sha512,64> key", 64, true, [] { return fresh_block<64>([] { return HMac<hash::sha512, 64>(); }); }});
    v.push_back(Producer{"Key<32> used", 32, false, [] { return Prg::derive(Key<32>(), 64); }});
    v.push_back(Producer{"Key<300> used", 300, false, [] { return A2B(HMac<Hash, 300>(Key<300>()).hmac("fixed")); }});
    v.push_back(Producer{"Prp()", 48, false, [] {
                             Prp         p;
                             std::string o;
                             p.encrypt(Bytes(96, 'x'), o);
                             return o;
                         }});
    v.push_back(Producer{"Prf<64>() output", 32, false, [] { return A2B(Prf<64>().prf("fixed")); }});
    for (size_t n : {(size_t)1, (size_t)16, (size_t)300})
        v.push_back(Producer{"nonce of encrypt(string " + std::to_string(n) + ")", 16, true, [n] {
                                 std::string c;
                                 the_cipher().encrypt(Bytes(n, 'm'), c);
                                 return nonce(c);
                             }});
    v.push_back(Producer{"nonce of encrypt(array 8)", 16, true, [] {
                             std::array<uint8_t, 8>  m{};
                             std::array<uint8_t, 40> c;
                             the_cipher().encrypt(m, c);
                             return nonce(c);
                         }});
    v.push_back(Producer{"nonce of encrypt(array 100)", 16, true, [] {
                             std::array<uint8_t, 100> m{};
                             std::array<uint8_t, 132> c;
                             the_cipher().encrypt(m, c);
                             return nonce(c);
                         }});
    v.push_back(Producer{"nonce of a new equal cipher", 16, true, [] {
                             Bytes       k = g_ckey;
                             Cipher      c(Key<32>(reinterpret_cast<uint8_t*>(&k[0])));
                             std::string o;
                             c.encrypt("same", o);
                             return nonce(o);
                         }});
    v.push_back(Producer{"nonce after a failed decryption", 16, true, [] {
                             std::string o;
                             if (!throws([&] { the_cipher().decrypt(Bytes(50, 'z'), o); })) viol("accepted", "garbage was decrypted");
                             the_cipher().encrypt("same", o);
                             return nonce(o);
                         }});
    v.push_back(Producer{"nonce of wrap(Prg)", 16, true, [] {
                             static Prg* p = [] { Bytes k(32, 'p'); return new Prg(Key<32>(reinterpret_cast<uint8_t*>(&k[0]))); }();
                             return nonce(the_wrapper().wrap(*p));
                         }});
    v.push_back(Producer{"nonce of wrap(Cipher)", 16, true, [] { return nonce(the_wrapper().wrap(the_cipher())); }});
    v.push_back(Producer{"nonce of wrap by a new equal wrapper", 16, true, [] {
                             Bytes   k = g_wkey;
                             Wrapper w(Key<32>(reinterpret_cast<uint8_t*>(&k[0])));
                             return nonce(w.wrap(the_cipher()));
                         }});
    v.push_back(Producer{"nonce of wrap(TdpInverse)", 16, true, [] { return nonce(the_wrapper().wrap(the_inv())); }, 1});
    v.push_back(Producer{"Tdp::sample", 256, false, [] { return the_tdp().sample(); }, 1});
    v.push_back(Producer{"Tdp::sample_array", 256, false, [] { return A2B(the_tdp().sample_array()); }, 1});
    v.push_back(Producer{"TdpInverse::sample", 256, false, [] { return the_inv().sample(); }, 1});
    v.push_back(Producer{"TdpInverse::sample_array", 256, false, [] { return A2B(the_inv().sample_array()); }, 1});
    v.push_back(Producer{"TdpMultPool::sample", 256, false, [] { return the_pool().sample(); }, 1});
    v.push_back(Producer{"TdpMultPool::sample_array", 256, false, [] { return A2B(the_pool().sample_array()); }, 1});
    return v;
}

// ------------------------------------------------------- nothing comes back
static std::unordered_set<uint64_t>& windows()
{
    static auto* s = new std::unordered_set<uint64_t>;
    return *s;
}
static void never_again(const std::string& who, const Bytes& b)
{
    for (size_t i = 0; i + 8 <= b.size(); i += b.size() > 6000 ? 61 : b.size() > 300 ? 5 : 1) {
        uint64_t x;
        memcpy(&x, b.data() + i, 8);
        if (!windows().insert(x).second) {
            viol("repeated", "%s: eight bytes of a random value (offset %zu of %zu: %016llx) appeared before", who.c_str(), i, b.size(), (unsigned long long)x);
            return;
        }
    }
    tally("values_never_seen_before");
}

// --------------------------------------------------------------- the checks
static void observe(const Producer& p, unsigned idx)
{
    uint64_t s = rng().next();
    note("%s: replay", p.name.c_str());
    randombytes_set_implementation(&g_impl);
    rewind_to(s);
    Bytes    a      = p.make();
    uint64_t served = g_gen.served;
    if (served < p.need) viol("too-little", "%s: the generator was asked for %llu bytes, the value needs %zu", p.name.c_str(), (unsigned long long)served, p.need);
    if (a.empty()) {
        tally("not_observable");
        return;
    }
    if (p.direct && a.size() != p.need) viol("length", "%s: a value of %zu bytes", p.name.c_str(), a.size());
    rewind_to(s);
    Bytes b = p.make();
    if (a != b) viol("not-from-generator", "%s: the same generator output gives another value", p.name.c_str());
    rewind_to(s + 1);
    b = p.make();
    if (a == b && p.need >= 8) viol("not-from-generator", "%s: another generator output gives the same value", p.name.c_str());
    tally("replays");
    // which bytes of the stream reach the value
    std::vector<uint8_t> reached(a.size(), 0);
    uint64_t             effective = 0, tried = 0;
    uint64_t             step = served > 6000 ? served / 300 + 1 : 1;
    for (uint64_t k = rng().below(step); k < served; k += step) {
        uint8_t m = (uint8_t)(1u << rng().below(8));
        note("%s: flip of byte %llu", p.name.c_str(), (unsigned long long)k);
        rewind_to(s, (int64_t)k, m);
        Bytes c = p.make();
        tried++;
        if (c != a) effective++;
        if (p.direct)
            for (size_t i = 0; i < a.size(); i++) reached[i] |= (uint8_t)(c[i] != a[i]);
    }
    tally("flips", tried);
    if (effective * step < std::min<uint64_t>(p.need, served) && effective + 1 < tried) viol("unused-randomness", "%s: only %llu of %llu random bytes reach the value", p.name.c_str(), (unsigned long long)(effective * step), (unsigned long long)p.need);
    if (p.direct && step == 1)
        for (size_t i = 0; i < a.size(); i++)
            if (!reached[i]) {
                viol("not-random", "%s: byte %zu of %zu does not come from the generator", p.name.c_str(), i, a.size());
                break;
            }
    // how the bytes spread
    size_t n = p.cost ? 40 : p.need > 6000 ? 60 : p.need > 600 ? 150 : 300;
    rewind_to(s + 2);
    std::vector<std::array<uint8_t, 32>> hit(a.size());
    std::vector<uint16_t>                cnt(a.size(), 0);
    std::vector<uint64_t>                first(a.size(), 0);
    std::vector<Bytes>                   all;
    for (auto& h : hit) h.fill(0);
    for (size_t t = 0; t < n; t++) {
        note("%s: value %zu", p.name.c_str(), t);
        uint64_t before = g_gen.served;
        Bytes    c      = p.make();
        if (g_gen.served - before < p.need) viol("too-little", "%s: call %zu asked the generator for %llu bytes only", p.name.c_str(), t, (unsigned long long)(g_gen.served - before));
        for (size_t i = 0; i < c.size(); i++) {
            uint8_t x = (uint8_t)c[i];
            if (!(hit[i][x >> 3] & (1 << (x & 7)))) hit[i][x >> 3] |= (uint8_t)(1 << (x & 7)), cnt[i]++;
            if (t < 8) first[i] = first[i] << 8 | x;
        }
        never_again(p.name, c);
    }
    // with n draws of 256 values the expected number of distinct ones is
    // 256(1-(255/256)^n); half of it is out of reach for a uniform byte
    double want = 256 * (1 - pow(255.0 / 256, (double)n)) / 2;
    for (size_t i = p.direct ? 0 : 1; i < a.size(); i++)
        if (cnt[i] < want) {
            viol("not-random", "%s: byte %zu took %u values in %zu draws", p.name.c_str(), i, cnt[i], n);
            break;
        }
    if (a.size() <= 20000) {
        std::unordered_set<uint64_t> f;
        for (size_t i = 0; i < a.size(); i++)
            if (!f.insert(first[i]).second) {
                viol("repeated", "%s: byte %zu repeats another byte of the value", p.name.c_str(), i);
                break;
            }
    }
    tally("spread_values", n);
    seen(p.name);
    if (idx % 16 == 0) sample("%s: %llu bytes asked, %llu/%llu flips reach it, %zu values spread", p.name.c_str(), (unsigned long long)served, (unsigned long long)effective, (unsigned long long)tried, n);
}
// sequences of different producers never meet again
static void mixed(const std::vector<Producer>& v, unsigned n)
{
    randombytes_set_implementation(&g_impl);
    rewind_to(rng().next());
    for (unsigned i = 0; i < n; i++) {
        const Producer& p = v[rng().below(v.size())];
        if (p.need < 8 || p.need > 5000 || (p.cost && i % 8)) continue;
        note("mixed %u: %s", i, p.name.c_str());
        never_again(p.name + " in a mixed session", p.make());
        tally("mixed_values");
    }
}
// many values from one producer
static void marathon(const Producer& p, unsigned n)
{
    randombytes_set_implementation(&g_impl);
    rewind_to(rng().next());
    std::unordered_set<uint64_t> head, tail;
    for (unsigned i = 0; i < n; i++) {
        if (i % 64 == 0) note("%s: value %u of a marathon", p.name.c_str(), i);
        uint64_t before = g_gen.served, x, y;
        Bytes    c = p.make();
        if (g_gen.served - before < p.need) {
            viol("too-little", "%s: call %u asked the generator for %llu bytes only", p.name.c_str(), i, (unsigned long long)(g_gen.served - before));
            return;
        }
        if (c.size() < 16) return;
        memcpy(&x, c.data(), 8);
        memcpy(&y, c.data() + c.size() - 8, 8);
        if (!head.insert(x).second || !tail.insert(y).second) {
            viol("repeated", "%s: value %u of a marathon appeared before", p.name.c_str(), i);
            return;
        }
        tally("marathon_values");
    }
}
// lengths of the run-time sized producers, exactly filled
static void lengths_of_buffers()
{
    randombytes_set_implementation(&g_impl);
    std::vector<size_t> all = lengths(300, ctx().thorough ? 400000 : 70000, 20);
    size_t              nsmall = all.size();
    // one large request for each size at which code that fills its buffer in
    // pieces could go wrong
    std::vector<size_t> big = {(size_t(1) << 17) + 3, (size_t(1) << 18) + 1, (size_t(1) << 19) + 13, (size_t(1) << 20) + 7, 3 * (size_t(1) << 20) + 5, (size_t(1) << 22) + 11};
#if defined(__OPTIMIZE__) && !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    big.push_back((size_t(1) << 24) + 9);
    big.push_back(5 * (size_t(1) << 23) + 17);
    if (ctx().thorough) big.push_back((size_t(1) << 28) + 21);
#endif
    all.insert(all.end(), big.begin(), big.end());
    for (size_t k = 0; k < all.size(); k++) {
        size_t n = all[k];
        note("length %zu", n);
        for (int which = 0; which < 3; which++) {
            if (k >= nsmall && n > (size_t(1) << 22) && which == 2) continue;
            uint64_t s = rng().next();
            rewind_to(s);
            Bytes a, b;
            auto  get = [&]() -> Bytes {
                if (which == 0) {
                    Guard g(Bytes(n, 0x5a));
                    random_bytes(n, g.data());
                    return g.str();
                }
                if (which == 1) return random_string(n);
                Guard g(Bytes(n, 0x5a));
                mbedTLS_rng_wrap(nullptr, g.data(), n);
                return g.str();
            };
            a = get();
            if (a.size() != n) {
                viol("length", "asked for %zu random bytes, got %zu", n, a.size());
                continue;
            }
            if (g_gen.served < n) viol("too-little", "%zu random bytes from %llu bytes of the generator", n, (unsigned long long)g_gen.served);
            rewind_to(s ^ 1);
            b = get();
            // equal bytes at one place in independent streams: never 8 in a row
            size_t run = 0;
            for (size_t i = 0; i < n; i++) {
                run = a[i] == b[i] ? run + 1 : 0;
                if (run >= 8) {
                    viol("not-random", "%zu random bytes: those up to %zu do not come from the generator", n, i);
                    break;
                }
            }
            if (n >= 8 && a.substr(n - 4) == b.substr(n - 4)) {
                rewind_to(s ^ 2);
                Bytes c = get();
                if (c.substr(n - 4) == a.substr(n - 4)) viol("not-random", "the end of %zu random bytes does not come from the generator", n);
            }
            if (n >= 8 && k < nsmall) never_again("a buffer", a);
            tally(k < nsmall ? "buffer_lengths" : "large_buffers");
        }
        seenf("len/%zu", n);
    }
}
// ------------------------------------------------------------ RSA key pairs
static void key_pairs(unsigned n)
{
    randombytes_set_implementation(&g_impl);
    std::vector<Z> primes;
    for (unsigned i = 0; i < n; i++) {
        uint64_t s = rng().next();
        note("key pair %u", i);
        rewind_to(s);
        Bytes pem = TdpInverse().private_key();
        if (g_gen.served < 256) viol("too-little", "a key pair was made from %llu random bytes", (unsigned long long)g_gen.served);
        if (i == 0) {
            rewind_to(s);
            if (TdpInverse().private_key() != pem) viol("not-from-generator", "the same generator output gives another key pair");
            rewind_to(s, 3, 0x10);
            if (TdpInverse().private_key() == pem) viol("not-from-generator", "another generator output gives the same key pair");
        }
        BIO* b = BIO_new_mem_buf(pem.data(), (int)pem.size());
        RSA* r = PEM_read_bio_RSAPrivateKey(b, nullptr, nullptr, nullptr);
        BIO_free(b);
        if (!r) {
            viol("key-pair", "a generated key cannot be read");
            continue;
        }
        const BIGNUM *bn[3];
        RSA_get0_key(r, &bn[2], nullptr, nullptr);
        RSA_get0_factors(r, &bn[0], &bn[1]);
        for (int k = 0; k < 2; k++) {
            Bytes x(128, 0);
            if (BN_bn2binpad(bn[k], reinterpret_cast<unsigned char*>(&x[0]), 128) != 128) viol("key-pair", "a prime of another size");
            never_again("a prime of a generated key", x.substr(1, 124));
        }
        RSA_free(r);
        tally("key_pairs");
        seenf("pair/%llu", (unsigned long long)s);
    }
}
static void small_key_pairs(unsigned n)
{
    // every bit of the primes varies
    randombytes_set_implementation(&g_impl);
    for (unsigned bits : {256u, 384u, 512u}) {
        std::vector<uint32_t> ones(bits / 2, 0);
        std::set<Bytes>       all;
        for (unsigned i = 0; i < n; i++) {
            mbedtls_rsa_context c;
            mbedtls_rsa_init(&c, 0, 0);
            uint64_t s = rng().next();
            note("%u-bit key pair %u", bits, i);
            rewind_to(s);
            int e = mbedtls_rsa_gen_key(&c, mbedTLS_rng_wrap, nullptr, bits, 65537);
            if (e) viol("key-pair", "key generation failed (%x)", -e);
            if (g_gen.served < bits / 8) viol("too-little", "a %u-bit key pair was made from %llu random bytes", bits, (unsigned long long)g_gen.served);
            for (mbedtls_mpi* p : {&c.P, &c.Q}) {
                for (unsigned k = 0; k < bits / 2; k++) ones[k] += (unsigned)mbedtls_mpi_get_bit(p, k);
                Bytes x(bits / 16, 0);
                mbedtls_mpi_write_binary(p, reinterpret_cast<unsigned char*>(&x[0]), x.size());
                if (!all.insert(x).second) viol("repeated", "a prime of a %u-bit key appeared before", bits);
            }
            mbedtls_rsa_free(&c);
            tally("small_key_pairs");
        }
        for (unsigned k = 1; k + 4 < bits / 2; k++)
            if (ones[k] == 0 || ones[k] == 2 * n) viol("not-random", "bit %u of the primes of %u-bit keys is always %d", k, bits, ones[k] != 0);
        seenf("bits/%u", bits);
    }
}
// ----------------------------------------- threads and processes, real source
// producers which need no look into secure memory
static std::vector<std::pair<const char*, std::function<Bytes()>>> concurrent_producers()
{
    return {
        {"random_bytes", [] { Bytes b(40, 0); random_bytes(40, reinterpret_cast<uint8_t*>(&b[0])); return b; }},
        {"random_bytes<16>", [] { return A2B(random_bytes<uint8_t, 16>()); }},
        {"random_string", [] { return random_string(64); }},
        {"Key<32>", [] { Key<32> k; return Prg::derive(std::move(k), 64); }},
        {"Prf<64>", [] { return A2B(Prf<64>().prf("x")); }},
        {"HMac", [] { return A2B(HMac<Hash, 32>().hmac("x")); }},
        {"encrypt",
         [] {
             Bytes       k(32, 'k');
             Cipher      c(Key<32>(reinterpret_cast<uint8_t*>(&k[0])));
             std::string o;
             c.encrypt("same", o);
             return o.substr(0, 16);
         }},
        {"wrap",
         [] {
             Bytes   k(32, 'k'), q(32, 'q');
             Wrapper w(Key<32>(reinterpret_cast<uint8_t*>(&k[0])));
             Prg     g(Key<32>(reinterpret_cast<uint8_t*>(&q[0])));
             return nonce(w.wrap(g));
         }},
        {"Prp",
         [] {
             Prp         p;
             std::string o;
             p.encrypt(Bytes(64, 'x'), o);
             return o;
         }},
        {"sample", [] { Tdp t(pub()); return t.sample().substr(1); }},
    };
}
static void threads(unsigned nt, unsigned n)
{
    randombytes_set_implementation(&randombytes_sysrandom_implementation);
    auto                                                  v = concurrent_producers();
    std::vector<std::vector<std::pair<unsigned, Bytes>>> out(nt);
    std::atomic<unsigned>                                 ready(0);
    std::vector<std::thread>                              th;
    note("%u threads", nt);
    for (unsigned t = 0; t < nt; t++)
        th.emplace_back([&, t] {
            ready++;
            while (ready < nt) std::this_thread::yield();
            for (unsigned i = 0; i < n; i++) {
                unsigned k = (i * 7 + t) % (unsigned)v.size();
                if (k + 1 == v.size() && i % 50 >= 10) k = i % 3;
                out[t].emplace_back(k, v[k].second());
            }
        });
    for (auto& t : th) t.join();
    for (unsigned t = 0; t < nt; t++)
        for (auto& o : out[t]) {
            never_again(std::string(v[o.first].first) + " in a thread", o.second);
            tally("thread_values");
        }
    tally("thread_groups");
}
static void forks(unsigned n)
{
    randombytes_set_implementation(&randombytes_sysrandom_implementation);
    auto v = concurrent_producers();
    // use everything before, so that anything kept is kept
    for (auto& p : v) never_again(p.first, p.second());
    for (unsigned f = 0; f < n; f++) {
        int fd[2];
        if (pipe(fd)) harness_error("pipe");
        note("fork %u", f);
        pid_t c = fork();
        if (c < 0) harness_error("fork");
        if (c == 0) {
            close(fd[0]);
            for (auto& p : v) {
                Bytes    b = p.second();
                uint32_t l = (uint32_t)b.size();
                if (write(fd[1], &l, 4) != 4 || write(fd[1], b.data(), l) != (ssize_t)l) _exit(3);
            }
            _exit(0);
        }
        close(fd[1]);
        for (auto& p : v) never_again(p.first, p.second());
        Bytes all;
        char  buf[4096];
        for (ssize_t r; (r = read(fd[0], buf, sizeof buf)) > 0;) all.append(buf, (size_t)r);
        close(fd[0]);
        int st = 0;
        waitpid(c, &st, 0);
        size_t at = 0, k = 0;
        while (at + 4 <= all.size()) {
            uint32_t l;
            memcpy(&l, &all[at], 4);
            never_again(std::string(v[k % v.size()].first) + " in a child process", all.substr(at + 4, l));
            at += 4 + l;
            k++;
            tally("child_values");
        }
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || k != v.size()) viol("child", "a child process failed (%d) after %zu values", st, k);
    }
}
void vh::run()
{
    orc::Rsa rk = orc::make_rsa(rng(), 2048, orc::exponent(0));
    pub()       = rk.pem_pub();
    prv()       = rk.pem_priv();
    g_ckey = rng().bytes(32);
    g_wkey = rng().bytes(32);
    the_cipher();
    the_wrapper();
    the_tdp();
    the_inv();
    the_pool();
    auto v = producers();
    for (unsigned i = 0; i < v.size(); i++)
        if (mine(i)) observe(v[i], i);
    mixed(v, ctx().thorough ? 6000 : 600);
    if (getenv("VH_HUGE")) {
        unsigned k = 0;
        for (auto& p : v)
            if (p.need >= 16 && p.need <= 64 && !p.cost && mine(k++)) marathon(p, ctx().thorough ? 300000 : 70000);
    }
    if (ctx().shard % 4 == 0) lengths_of_buffers();
    if (ctx().shard % 4 == 1) small_key_pairs(ctx().thorough ? 120 : 48);
#if defined(__OPTIMIZE__) && !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    key_pairs(ctx().thorough ? 12 : 2);
#endif
    threads(ctx().thorough ? 16 : 8, ctx().thorough ? 2000 : 150);
    threads(2, 100);
    forks(ctx().thorough ? 20 : 3);
}
