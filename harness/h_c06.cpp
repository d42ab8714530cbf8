// C06: HMAC = RFC 2104 for all key sizes, messages and truncations.
#include "heavy.hpp"
#include "oracle.hpp"
#include "reborn.hpp"
#include "sizes.hpp"
#include "hash/sha512.hpp"
#include <sse/crypto/hash.hpp>
#include <sse/crypto/hmac.hpp>
using namespace vh;
using namespace sse::crypto;

struct Any
{
    virtual ~Any() {}
    virtual void  raw(const uint8_t* in, size_t len, uint8_t* out, size_t olen) const = 0;
    virtual void  raw_default(const uint8_t* in, size_t len, uint8_t* out) const = 0;
    virtual Bytes arr(const uint8_t* in, size_t len) const = 0;
    virtual Bytes str(const Bytes& s) const = 0;
    virtual Any*  move() = 0;
};
template<class H, uint16_t N>
struct M : Any
{
    HMac<H, N> h;
    explicit M(HMac<H, N>&& x) : h(std::move(x)) {}
    void raw(const uint8_t* in, size_t len, uint8_t* out, size_t olen) const override { h.hmac(in, len, out, olen); }
    void raw_default(const uint8_t* in, size_t len, uint8_t* out) const override { h.hmac(in, len, out); }
    Bytes arr(const uint8_t* in, size_t len) const override { return from_arr(h.hmac(in, len)); }
    Bytes str(const Bytes& s) const override { return from_arr(h.hmac(s)); }
    Any* move() override { return new M<H, N>(std::move(h)); }
};
struct Type
{
    const char* md;
    size_t      n;
    Any* (*mk)(const Bytes&);
};
template<class H, uint16_t N>
static Any* mk(const Bytes& kb)
{
    Bytes k = kb;
    return new M<H, N>(HMac<H, N>(Key<N>(reinterpret_cast<uint8_t*>(&k[0]))));
}
static std::vector<Type> table;

static void one(const Any& h, const Type& t, const Bytes& key, const Bytes& in, bool all_trunc)
{
    note("hmac %s N=%zu key=%s in=%s", t.md, t.n, hex(key, 140).c_str(), hex(in, 200).c_str());
    Bytes want = orc::hmac(t.md, key, in);
    Guard gi(in), full(64);
    gi.ro();
    Bytes a, s;
    if (!must("hmac-throws", [&] { h.raw_default(gi.p, in.size(), full.p); a = h.arr(gi.p, in.size()); s = h.str(in); })) {
        return;
    }
    CHECK_EQ_BYTES("hmac-raw", full.str(), want);
    CHECK_EQ_BYTES("hmac-array", a, want);
    CHECK_EQ_BYTES("hmac-string", s, want);
    EXPECT("hmac-underrun", full.front_ok());
    for (size_t ol = 0; ol <= 64; ol += all_trunc ? 1 : 1 + rng().below(40)) {
        uint8_t big[80];
        memset(big, 0xC3, sizeof big);
        if (!must("hmac-throws", [&] { h.raw(gi.p, in.size(), big + 8, ol); })) {
            break;
        }
        if (memcmp(big + 8, want.data(), ol) != 0) {
            viol("hmac-truncated", "output length %zu is not the prefix", ol);
        }
        for (size_t i = 0; i < sizeof big; i++) {
            if ((i < 8 || i >= 8 + ol) && big[i] != 0xC3) {
                viol("hmac-overwrite", "output length %zu wrote byte %zu", ol, i);
                break;
            }
        }
        tally("truncations");
    }
    seenf("%s/%zu/%zu", t.md, t.n, in.size());
    if (in.size() == 20) {
        sample("HMAC-%s key size %zu in=%s mac=%s", t.md, t.n, hex(in, 20).c_str(), hex(want, 16).c_str());
    }
}
static void refusals(const Any& h, const Type& t)
{
    uint8_t out[80];
    Bytes   in = rng().bytes(rng().below(50));
    for (size_t ol : {(size_t)65, (size_t)66, (size_t)80, (size_t)128, (size_t)256, (size_t)1000, (size_t)1 << 40, (size_t)-1}) {
        memset(out, 0xC3, sizeof out);
        note("hmac refuse %s N=%zu out_len=%zu", t.md, t.n, ol);
        Outcome o = outcome([&] { h.raw(U(in), in.size(), out, ol); });
        if (o != INVALID_ARG) {
            viol("too-long-output", "out_len %zu: %s", ol, oname(o));
        }
        for (uint8_t b : out) {
            if (b != 0xC3) {
                viol("refused-but-wrote", "out_len %zu wrote to the output", ol);
                break;
            }
        }
    }
    memset(out, 0xC3, sizeof out);
    note("hmac null arguments");
    EXPECT("null-input", outcome([&] { h.raw(nullptr, 0, out, 64); }) == INVALID_ARG);
    EXPECT("null-input", outcome([&] { h.raw(nullptr, 10, out, 64); }) == INVALID_ARG);
    EXPECT("null-output", outcome([&] { h.raw(U(in), in.size(), nullptr, 64); }) == INVALID_ARG);
    EXPECT("null-output", outcome([&] { h.raw(U(in), in.size(), nullptr, 1); }) == INVALID_ARG);
    for (uint8_t b : out) {
        if (b != 0xC3) {
            viol("refused-but-wrote", "null input wrote to the output");
            break;
        }
    }
    tally("refusals", 12);
}
template<class H, uint16_t N>
static void reborn(const char* md, int steps)
{
    Slot<M<H, N>> slot;
    Type          t{md, N, nullptr};
    Bytes         keys[3], in[4];
    for (auto& k : keys) k = rng().bytes(N);
    keys[2] = keys[0];
    keys[2][rng().below(N)] ^= char(1 << rng().below(8));
    for (auto& x : in) x = rng().content(rng().below(200));
    reborn_walk(steps, 3, 4, [&](unsigned k, unsigned i, bool fresh) {
        Bytes b = keys[k];
        if (fresh) slot.put(HMac<H, N>(Key<N>(reinterpret_cast<uint8_t*>(&b[0]))));
        one(slot.get(), t, keys[k], in[i], false);
    });
}
void vh::run()
{
    for (int r = 0; r < (ctx().thorough ? 40 : 2); r++) {
        reborn<Hash, 16>("BLAKE2B-512", 50);
        reborn<Hash, 32>("BLAKE2B-512", 50);
        reborn<Hash, 128>("BLAKE2B-512", 50);
        reborn<Hash, 129>("BLAKE2B-512", 50);
    }
    const bool T = ctx().thorough;
    auto       rb = [&](auto n) { table.push_back({"BLAKE2B-512", n, &mk<Hash, decltype(n)::value>}); };
    auto       rs = [&](auto n) { table.push_back({"SHA512", n, &mk<hash::sha512, decltype(n)::value>}); };
    each_size(rb, std::index_sequence<16, 17, 18, 20, 24, 25, 28, 31, 32, 33, 40, 47, 48, 49, 56, 63, 64, 65, 72, 80, 96, 100, 111, 112, 113, 119, 120, 121, 125, 126, 127, 128, 129, 130, 131, 136, 160, 191, 192, 193, 200, 255, 256, 257, 300, 512, 1000, 1024, 5000>());
    each_size(rs, std::index_sequence<16, 20, 25, 32, 48, 63, 64, 65, 100, 111, 112, 120, 127, 128, 129, 131, 192, 256, 257, 1000>());
    uint64_t i = 0;
    if (heavy()) {
        for (size_t l : big_lengths(T)) {
            if (!mine(i++)) continue;
            for (const char* md : {"BLAKE2B-512", "SHA512"}) {
                const Type* t = &table[rng().below(table.size())];
                while (strcmp(t->md, md) != 0) t = &table[rng().below(table.size())];
                Bytes                key = rng().bytes(t->n);
                std::unique_ptr<Any> h(t->mk(key));
                one(*h, *t, key, rng().content(l), false);
                tally("big_messages");
            }
        }
        if (mine(2)) {
            auto&                t = table[rng().below(table.size())];
            Bytes                key = rng().bytes(t.n), in = rng().bytes(100), out(64, 0);
            std::unique_ptr<Any> h(t.mk(key));
            for (int k = 0; k < (T ? 300000 : 100000); k++) { // many calls on one object
                size_t l = rng().below(100), ol = rng().below(65);
                in[l]    = (char)rng().next();
                if (k % 64 == 0) note("hmac marathon %s N=%zu call %d", t.md, t.n, k);
                h->raw(U(in), l, (uint8_t*)&out[0], ol);
                if (out.compare(0, ol, orc::hmac(t.md, key, in.substr(0, l)), 0, ol) != 0) {
                    viol("hmac-marathon", "%s N=%zu call %d", t.md, t.n, k);
                    break;
                }
                tally("marathon_calls");
            }
        }
        if (mine(3) && available_gb() >= 10) { // longer than 32 bits can count
            Repeated             r(giant(), rng().bytes(1000));
            auto&                t = table[8];
            Bytes                key = rng().bytes(t.n), out(64, 0);
            std::unique_ptr<Any> h(t.mk(key));
            note("hmac %s N=%zu of %zu bytes", t.md, t.n, r.n);
            if (must("hmac-throws", [&] { h->raw_default(r.p, r.n, (uint8_t*)&out[0]); })) CHECK_EQ_BYTES("hmac-giant", out, orc::hmac_at(t.md, key, r.p, r.n));
            tally("giant_inputs");
        }
    }
    for (auto& t : table) {
        for (size_t l : {0, 1, 2, 16, 20, 63, 64, 65, 111, 112, 127, 128, 129, 130, 255, 256, 257, 1000}) {
            if (mine(i++)) {
                Bytes                key = rng().content(t.n);
                std::unique_ptr<Any> h(t.mk(key));
                one(*h, t, key, rng().content(l), true);
                refusals(*h, t);
                one(*h, t, key, rng().content(l), false); // unaffected by the refusals
            }
        }
    }
    for (size_t l : lengths(T ? 2000 : 300, T ? (1u << 20) : 20000, T ? 500 : 50)) {
        for (int r = 0; r < 3; r++) {
            if (mine(i++)) {
                auto&                t = table[rng().below(table.size())];
                Bytes                key = rng().bytes(t.n);
                std::unique_ptr<Any> h(t.mk(key));
                one(*h, t, key, rng().content(l), false);
            }
        }
    }
    for (int h = 0; h < (T ? 500 : 20); h++) {
        auto&                t = table[rng().below(table.size())];
        Bytes                key = rng().bytes(t.n);
        std::unique_ptr<Any> m(t.mk(key));
        for (int s = 0; s < 25; s++) {
            if (rng().chance(1, 6)) {
                Any* g = m->move();
                if (!throws([&] { m->str("x"); })) {
                    viol("moved-from-answers", "a moved-from HMAC returned a value");
                }
                m.reset(g);
                tally("moves");
            }
            if (rng().chance(1, 8)) {
                refusals(*m, t);
            }
            one(*m, t, key, rng().content(rng().below(400)), false);
        }
        tally("histories");
    }
}
