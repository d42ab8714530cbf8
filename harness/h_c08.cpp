// C08: the PRG is one seekable stream through every access path.
#include "heavy.hpp"
#include "oracle.hpp"
#include "reborn.hpp"
#include "secobs.hpp"
#include "sizes.hpp"
#include <sse/crypto/hmac.hpp>
#include <sse/crypto/hash.hpp>
#include <sse/crypto/prg.hpp>
using namespace vh;
using namespace sse::crypto;

static Key<32> K(const Bytes& kb)
{
    Bytes k = kb;
    return Key<32>(reinterpret_cast<uint8_t*>(&k[0]));
}
static void consumed(Key<32>& k, const char* how)
{
    if (!throws([&] { (void)Prg::derive(std::move(k), 16); })) {
        viol("key-not-consumed", "%s left the caller's key usable", how);
    }
    tally("consumed_checks");
}
static void one(const Prg& g, const Bytes& key, uint64_t off, size_t len)
{
    note("prg key=%s off=%llu len=%zu", hex(key).c_str(), (unsigned long long)off, len);
    Bytes       want = orc::prg(key, off, len);
    std::string a = "old", b;
    Guard       raw(len);
    if (!must("derive-throws", [&] {
            g.derive(off, len, a);
            b = g.derive(off, len);
            g.derive(off, len, raw.p);
        })) {
        return;
    }
    CHECK_EQ_BYTES("derive-string", a, want);
    CHECK_EQ_BYTES("derive-return", b, want);
    CHECK_EQ_BYTES("derive-raw", raw.str(), want);
    EXPECT("derive-underrun", raw.front_ok());
    if (off == 0) {
        std::string c = "zz", d;
        if (must("derive-throws", [&] { g.derive(len, c); d = g.derive(len); })) {
            CHECK_EQ_BYTES("derive-prefix", c, want);
            CHECK_EQ_BYTES("derive-prefix", d, want);
        }
        Key<32>     k1 = K(key), k2 = K(key);
        std::string e = "yy", f;
        if (must("static-throws", [&] { Prg::derive(std::move(k1), len, e); f = Prg::derive(std::move(k2), len); })) {
            CHECK_EQ_BYTES("static-prefix", e, want);
            CHECK_EQ_BYTES("static-prefix", f, want);
        }
        consumed(k1, "derive(key,len,out)");
        consumed(k2, "derive(key,len)");
    }
    Key<32>     k1 = K(key), k2 = K(key), k3 = K(key);
    std::string c = "old", d;
    Guard       r2(len);
    if (must("static-throws", [&] {
            Prg::derive(std::move(k1), off, len, c);
            d = Prg::derive(std::move(k2), off, len);
            Prg::derive(std::move(k3), off, len, r2.p);
        })) {
        CHECK_EQ_BYTES("static-string", c, want);
        CHECK_EQ_BYTES("static-return", d, want);
        CHECK_EQ_BYTES("static-raw", r2.str(), want);
        EXPECT("derive-underrun", r2.front_ok());
    }
    consumed(k1, "derive(key,off,len,string)");
    consumed(k2, "derive(key,off,len)");
    consumed(k3, "derive(key,off,len,raw)");
    seenf("%llu/%zu", (unsigned long long)off, len);
    tally(off % 64 == 0 ? "aligned" : (off / 64 == (off + len) / 64 ? "inside_one_block" : "straddling"));
    if (len > 8 && len < 40) {
        sample("off=%llu len=%zu out=%s", (unsigned long long)off, len, hex(b, 16).c_str());
    }
}
template<size_t N>
static void arr(const Bytes& key, size_t off)
{
    Key<32>                k = K(key);
    std::array<uint8_t, N> a;
    note("prg array N=%zu off=%zu key=%s", N, off, hex(key).c_str());
    if (must("static-array-throws", [&] { Prg::derive(std::move(k), off, a); })) {
        CHECK_EQ_BYTES("static-array", from_arr(a), orc::prg(key, off, N));
    }
    consumed(k, "derive(key,off,array)");
    tally("arrays");
}
// derived keys, type-erased over K
struct KeyOps
{
    size_t k;
    void (*single)(Prg&, const Bytes& key, uint16_t off);
    void (*multi)(Prg&, const Bytes& key, uint16_t n, uint16_t off);
};
template<size_t N>
static void use_key(Key<N>& k, const Bytes& want, std::true_type)
{
    Bytes         m = rng().bytes(24);
    HMac<Hash, N> h(std::move(k));
    CHECK_EQ_BYTES("derived-key-use", from_arr(h.hmac(m)), orc::hmac("BLAKE2B-512", want, m));
    tally("derived_keys_used");
}
template<size_t N>
static void use_key(Key<N>&, const Bytes&, std::false_type)
{
}
template<size_t N>
using Usable = std::integral_constant<bool, (N >= 16 && N <= 128)>;
static void look(const char* how, size_t N, uint64_t m, const std::vector<Bytes>& want)
{
    auto b = sec::blocks_since(m, N);
    if (b.size() == want.size()) {
        for (size_t i = 0; i < b.size(); i++) {
            if (b[i] != want[i]) {
                viol(how, "derived key %zu of %zu bytes is %s want %s", i, N, hex(b[i]).c_str(), hex(want[i]).c_str());
            }
        }
        tally("derived_keys", b.size());
    }
}
template<size_t N>
static void single(Prg& g, const Bytes& key, uint16_t off)
{
    note("derive_key<%zu> off=%u key=%s", N, off, hex(key).c_str());
    Bytes    want = orc::prg(key, (uint64_t)off * N, N);
    uint64_t m    = sec::mark();
    if (!must("derive-key-throws", [&] {
            Key<N> k = g.template derive_key<N>(off);
            look("derive-key", N, m, {want});
            use_key<N>(k, want, Usable<N>());
        })) {
        return;
    }
    m          = sec::mark();
    Key<32> mk = K(key);
    m          = sec::mark();
    must("derive-key-static-throws", [&] {
        Key<N> k = Prg::derive_key<N>(std::move(mk), off);
        look("derive-key-static", N, m, {want});
        use_key<N>(k, want, Usable<N>());
    });
    consumed(mk, "derive_key(key)");
    seenf("key%zu/%u", N, off);
}
template<size_t N>
static void multi(Prg& g, const Bytes& key, uint16_t n, uint16_t off)
{
    note("derive_keys<%zu> n=%u off=%u key=%s", N, n, off, hex(key).c_str());
    std::vector<Bytes> want;
    for (unsigned i = 0; i < n; i++) {
        want.push_back(orc::prg(key, ((uint64_t)off + i) * N, N));
    }
    uint64_t m = sec::mark();
    if (!must("derive-keys-throws", [&] {
            std::vector<Key<N>> v = g.template derive_keys<N>(n, off);
            EXPECT("derive-keys-count", v.size() == n);
            if (v.size() == n) {
                look("derive-keys", N, m, want);
                for (unsigned i = 0; i < n; i++) {
                    use_key<N>(v[i], want[i], Usable<N>());
                }
            }
        })) {
        return;
    }
    Key<32> mk = K(key);
    m          = sec::mark();
    must("derive-keys-static-throws", [&] {
        std::vector<Key<N>> v = Prg::derive_keys<N>(std::move(mk), n, off);
        EXPECT("derive-keys-count", v.size() == n);
        if (v.size() == n) {
            look("derive-keys-static", N, m, want);
            for (unsigned i = 0; i < n; i++) {
                use_key<N>(v[i], want[i], Usable<N>());
            }
        }
    });
    if (n > 0) {
        consumed(mk, "derive_keys(key)");
    }
    seenf("keys%zu/%u/%u", N, n, off);
}
static void heavy_part(bool T)
{
    uint64_t i = 0;
    for (size_t l : big_lengths(T)) {
        if (!mine(i++) || l > (4u << 20)) continue;
        Bytes key = rng().bytes(32);
        Prg   g(K(key));
        one(g, key, 0, l);
        one(g, key, rng().below(70000), l);
        one(g, key, l, rng().below(300));
        tally("big_slices");
    }
    if (mine(2)) { // many calls on one object
        Bytes key = rng().bytes(32), stream = orc::prg(key, 0, 70000);
        Prg   g(K(key));
        Bytes out(300, 0);
        for (int k = 0; k < (T ? 1000000 : 200000); k++) {
            uint64_t off = rng().below(69000);
            size_t   len = rng().below(300);
            if (k % 64 == 0) note("prg marathon call %d", k);
            g.derive(off, len, (unsigned char*)&out[0]);
            if (out.compare(0, len, stream, off, len) != 0) {
                viol("prg-marathon", "call %d off %zu len %zu", k, (size_t)off, len);
                break;
            }
            tally("marathon_calls");
        }
    }
    if (mine(3) && available_gb() >= 10) { // longer than 32 bits can count
        size_t   n   = giant(), off = rng().below(200);
        Bytes    key = rng().bytes(32);
        Prg      g(K(key));
        uint8_t* p = (uint8_t*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) harness_error("mmap");
        note("prg off=%zu len=%zu key=%s", off, n, hex(key).c_str());
        if (must("derive-throws", [&] { g.derive(off, n, p); })) {
            const size_t C = 1u << 24;
            Bytes        zero(C + 64, 0);
            for (size_t o = 0; o < n; o += C) {
                uint64_t blk = (off + o) / 64, nonce = 0;
                uint8_t  iv[16];
                memcpy(iv, &blk, 8), memcpy(iv + 8, &nonce, 8);
                size_t m = std::min(C, n - o), skip = (off + o) % 64;
                Bytes  w = orc::chacha20_xor(key, iv, zero);
                if (memcmp(p + o, w.data() + skip, m) != 0) {
                    viol("derive-giant", "off %zu len %zu: differs in the 16 MiB from %zu", off, n, o);
                    break;
                }
            }
        }
        munmap(p, n);
        tally("giant_outputs");
    }
}
static void reborn(int steps)
{
    Slot<Prg> slot;
    Bytes     keys[3];
    for (auto& k : keys) k = rng().bytes(32);
    keys[2] = keys[0];
    keys[2][rng().below(32)] ^= char(1 << rng().below(8));
    uint64_t offs[3] = {0, rng().below(200), rng().below(5000)};
    reborn_walk(steps, 3, 3, [&](unsigned k, unsigned i, bool fresh) {
        if (fresh) slot.put(K(keys[k]));
        if (rng().chance(1, 4)) {
            single<16>(slot.get(), keys[k], (uint16_t)offs[i]);
            multi<32>(slot.get(), keys[k], 3, (uint16_t)offs[i]);
        } else {
            one(slot.get(), keys[k], offs[i], rng().below(2) ? 64 : rng().below(150));
        }
    });
    // one call at a time
    reborn_walk(3 * steps, 3, 3, [&](unsigned k, unsigned i, bool fresh) {
        if (fresh) slot.put(K(keys[k]));
        size_t len = rng().chance(1, 2) ? 64 : 32;
        note("rebuilt prg key=%s off=%llu len=%zu", hex(keys[k]).c_str(), (unsigned long long)offs[i], len);
        Bytes want = orc::prg(keys[k], offs[i], len), got(len, 0);
        must("reborn-call", [&] {
            if (rng().chance(1, 2)) slot.get().derive(offs[i], len, (unsigned char*)&got[0]);
            else got = slot.get().derive(offs[i], len);
            CHECK_EQ_BYTES("reborn-call", got, want);
        });
    });
}
void vh::run()
{
    for (int r = 0; r < (ctx().thorough ? 60 : 4); r++) reborn(80);
    const bool T = ctx().thorough;
    uint64_t   i = 0;
    if (heavy()) heavy_part(T);
    // dense offsets and lengths
    for (size_t off = 0; off < (T ? 400 : 200); off++) {
        if (!mine(i++)) {
            continue;
        }
        Bytes key = rng().chance(1, 10) ? rng().content(32) : rng().bytes(32);
        Prg   g(K(key));
        for (size_t len = 0; len < (T ? 330 : 200); len += (T ? 1 : 1 + rng().below(6))) {
            one(g, key, off, len);
        }
    }
    // long outputs and large offsets (64-bit block counter, carries)
    for (int r = 0; r < (T ? 6000 : 300); r++) {
        Bytes    key = rng().bytes(32);
        Prg      g(K(key));
        uint64_t off;
        switch (rng().below(6)) {
        case 0: off = rng().below(100000); break;
        case 5: off = ~0ull - rng().below(rng().chance(1, 2) ? 5000 : 200); break; // the last offsets there are
        case 1: off = (1ull << rng().range(8, 63)) - rng().below(200); break;
        case 2: off = ((uint64_t)rng().range(1, 1000) << 38) - rng().below(300); break; // around 2^32 blocks
        case 3: off = rng().next() >> rng().range(0, 60); break;
        default: off = (1ull << 38) - 64 * rng().below(8) - rng().below(64); break;
        }
        one(g, key, off, rng().chance(1, 8) ? rng().below(T ? 300000 : 6000) : rng().below(300));
        tally("large_offsets", off > (1ull << 32));
    }
    // arrays
    for (int r = 0; r < (T ? 200 : 8); r++) {
        Bytes  key = rng().bytes(32);
        size_t off = rng().below(300);
        arr<1>(key, off);
        arr<16>(key, off);
        arr<63>(key, off);
        arr<64>(key, off);
        arr<65>(key, off);
        arr<128>(key, off);
        arr<255>(key, off);
        arr<256>(key, off);
        arr<257>(key, off);
        arr<1000>(key, off);
        arr<65535>(key, off);
        arr<65536>(key, off);
        arr<65600>(key, off);
    }
    // derived keys
    std::vector<KeyOps> ops;
    auto reg = [&](auto n) { ops.push_back({n, &single<decltype(n)::value>, &multi<decltype(n)::value>}); };
    each_size(reg, std::index_sequence<1, 2, 7, 10, 12, 15, 16, 17, 18, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 96, 100, 127, 128, 129, 200, 256, 264, 1000>());
    for (auto& o : ops) {
        for (uint16_t off : {0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 63, 64, 100, 255, 256, 257, 1000, 4095, 32767, 32768, 65535}) {
            if (mine(i++)) {
                Bytes key = rng().bytes(32);
                Prg   g(K(key));
                o.single(g, key, off);
                o.single(g, key, (uint16_t)rng().next());
            }
        }
        for (auto p : {std::pair<int, int>(0, 0), {1, 0}, {2, 0}, {3, 1}, {4, 5}, {5, 0}, {8, 3}, {16, 7}, {33, 2}, {3, 1000}, {2, 65533}, {64, 64}}) {
            if (mine(i++)) {
                Bytes key = rng().bytes(32);
                Prg   g(K(key));
                o.multi(g, key, p.first, p.second);
            }
        }
    }
    for (int r = 0; r < (T ? 2000 : 60); r++) {
        Bytes key = rng().bytes(32);
        Prg   g(K(key));
        auto& o = ops[rng().below(ops.size())];
        o.single(g, key, rng().below(65536));
        o.multi(g, key, rng().below(20), rng().below(rng().chance(1, 2) ? 20 : 60000));
    }
    if (mine(3)) { // many keys: 16-bit arithmetic on the key index
        Bytes key = rng().bytes(32);
        Prg   g(K(key));
        multi<16>(g, key, 300, 65535 - 100);
        multi<16>(g, key, 5000, 0);
        multi<1000>(g, key, 70, 30000);
    }
    // histories with refusals in between
    for (int h = 0; h < (T ? 500 : 20); h++) {
        Bytes                key = rng().bytes(32);
        std::unique_ptr<Prg> g(new Prg(K(key)));
        for (int s = 0; s < 20; s++) {
            switch (rng().below(6)) {
            case 0: {
                note("null output");
                Outcome o = outcome([&] { g->derive(rng().below(100), 1 + rng().below(100), (unsigned char*)nullptr); });
                if (o != INVALID_ARG) {
                    viol("null-output", "null output buffer: %s", oname(o));
                }
                Key<32> k = K(key);
                o         = outcome([&] { Prg::derive(std::move(k), 3, 10, (unsigned char*)nullptr); });
                if (o != INVALID_ARG) {
                    viol("null-output", "static, null output buffer: %s", oname(o));
                }
                tally("refusals", 2);
                break;
            }
            case 1: {
                std::unique_ptr<Prg> n(new Prg(std::move(*g)));
                if (!throws([&] { (void)g->derive(0, 10); })) {
                    viol("moved-from-answers", "a moved-from PRG returned a value");
                }
                g = std::move(n);
                tally("moves");
                break;
            }
            case 2: {
                auto& o = ops[rng().below(ops.size())];
                o.single(*g, key, rng().below(500));
                o.multi(*g, key, rng().below(6), rng().below(50));
                break;
            }
            default: one(*g, key, rng().below(500), rng().below(300));
            }
        }
        tally("histories");
    }
}
