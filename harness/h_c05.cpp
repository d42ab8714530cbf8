// C05: the PRF is one fixed keyed function through every overload and size.
#include "heavy.hpp"
#include "oracle.hpp"
#include "reborn.hpp"
#include "secobs.hpp"
#include "sizes.hpp"
#include <sse/crypto/hmac.hpp>
#include <sse/crypto/prf.hpp>
using namespace vh;
using namespace sse::crypto;

// type-erased access to Prf<N>
struct Any
{
    virtual ~Any() {}
    virtual size_t n() const = 0;
    virtual Bytes raw(const uint8_t* p, size_t l) const = 0;
    virtual Bytes str(const Bytes& s) const = 0;
    virtual Bytes arr(const Bytes& s, bool& ok) const = 0;
    virtual void* key_raw(const uint8_t* p, size_t l) const = 0;
    virtual void* key_str(const Bytes& s) const = 0;
    virtual void* key_arr(const Bytes& s) const = 0;
    virtual void  key_free(void*) const = 0;
    virtual Any*  move() = 0;
};
template<uint16_t N>
struct P : Any
{
    Prf<N> f;
    explicit P(Prf<N>&& x) : f(std::move(x)) {}
    size_t n() const override { return N; }
    Bytes raw(const uint8_t* p, size_t l) const override { return from_arr(f.prf(p, l)); }
    Bytes str(const Bytes& s) const override { return from_arr(f.prf(s)); }
    Bytes arr(const Bytes& s, bool& ok) const override
    {
        ok = true;
        switch (s.size()) {
        case 1: return from_arr(f.prf(to_arr<1>(s)));
        case 20: return from_arr(f.prf(to_arr<20>(s)));
        case 128: return from_arr(f.prf(to_arr<128>(s)));
        }
        ok = false;
        return "";
    }
    void* key_raw(const uint8_t* p, size_t l) const override { return new Key<N>(f.derive_key(p, l)); }
    void* key_str(const Bytes& s) const override { return new Key<N>(f.derive_key(s)); }
    void* key_arr(const Bytes& s) const override
    {
        switch (s.size()) {
        case 1: return new Key<N>(f.derive_key(to_arr<1>(s)));
        case 20: return new Key<N>(f.derive_key(to_arr<20>(s)));
        case 128: return new Key<N>(f.derive_key(to_arr<128>(s)));
        }
        return nullptr;
    }
    void key_free(void* k) const override { delete static_cast<Key<N>*>(k); }
    Any* move() override { return new P<N>(std::move(f)); }
};
template<uint16_t N>
static Any* mk(const Bytes& kb)
{
    Bytes k = kb;
    return new P<N>(Prf<N>(Key<32>(reinterpret_cast<uint8_t*>(&k[0]))));
}
typedef Any* (*Mk)(const Bytes&);
static std::vector<std::pair<size_t, Mk>> table;

static void check_derived(const Any& f, const char* how, void* k, uint64_t mk, const Bytes& want)
{
    if (k == nullptr) {
        return;
    }
    auto b = sec::blocks_since(mk, f.n());
    if (b.size() == 1) { // otherwise the key lives somewhere we cannot see
        CHECK_EQ_BYTES(how, b[0], want);
        tally("derived_keys");
    }
    f.key_free(k);
}
static void one(const Any& f, const Bytes& key, const Bytes& in)
{
    note("prf N=%zu key=%s in=%s", f.n(), hex(key).c_str(), hex(in, 200).c_str());
    Bytes want = orc::prf(key, in, f.n());
    Bytes r, s, a;
    Guard g(in);
    g.ro();
    if (!must("prf-throws", [&] { r = f.raw(g.p, in.size()); s = f.str(in); })) {
        return;
    }
    CHECK_EQ_BYTES("prf-raw", r, want);
    CHECK_EQ_BYTES("prf-string", s, want);
    bool ok = false;
    if (must("prf-throws", [&] { a = f.arr(in, ok); }) && ok) {
        CHECK_EQ_BYTES("prf-array", a, want);
        tally("array_calls");
    }
    if (f.n() >= 256) {
        std::unordered_set<std::string> blk;
        for (size_t i = 0; i + 64 <= r.size(); i += 64) {
            if (!blk.insert(r.substr(i, 64)).second) {
                viol("repeated-block", "N=%zu: 64-byte output block at %zu repeats", f.n(), i);
                break;
            }
        }
        tally("block_repeat_checks");
    }
    if (f.n() < 4096) {
        uint64_t m = sec::mark();
        void*    k = nullptr;
        if (must("derive-throws", [&] { k = f.key_raw(g.p, in.size()); })) {
            check_derived(f, "derive-key-raw", k, m, want);
        }
        m = sec::mark();
        k = nullptr;
        if (must("derive-throws", [&] { k = f.key_str(in); })) {
            check_derived(f, "derive-key-string", k, m, want);
        }
        m = sec::mark();
        k = nullptr;
        if (must("derive-throws", [&] { k = f.key_arr(in); })) {
            check_derived(f, "derive-key-array", k, m, want);
        }
    }
    seenf("%zu/%zu", f.n(), in.size());
    if (in.size() == 20) {
        sample("N=%zu in=%s out=%s", f.n(), hex(in, 20).c_str(), hex(r, 16).c_str());
    }
}
// derived keys observed through use, without looking at memory
template<uint16_t N>
static void used_key()
{
    Bytes  key = rng().bytes(32), in = rng().content(rng().below(200)), msg = rng().bytes(40), k = key;
    Prf<N> f{Key<32>(reinterpret_cast<uint8_t*>(&k[0]))};
    note("derive_key use N=%u key=%s in=%s", N, hex(key).c_str(), hex(in).c_str());
    HMac<Hash, N> h(f.derive_key(in));
    CHECK_EQ_BYTES("derived-key-use", from_arr(h.hmac(msg)), orc::hmac("BLAKE2B-512", orc::prf(key, in, N), msg));
    Prf<N>        f2(std::move(f));
    HMac<Hash, N> h2(f2.derive_key(U(in), in.size()));
    CHECK_EQ_BYTES("derived-key-use", from_arr(h2.hmac(msg)), orc::hmac("BLAKE2B-512", orc::prf(key, in, N), msg));
    seenf("use%u", N);
    tally("derived_keys_used");
}
// arrays of many sizes, for a few output sizes
template<uint16_t N, size_t L>
static void array_size()
{
    Bytes  key = rng().bytes(32), in = rng().content(L), kb = key;
    Prf<N> f(Key<32>(reinterpret_cast<uint8_t*>(&kb[0])));
    note("prf<%u> of an array of %zu bytes, key=%s", N, L, hex(key).c_str());
    Bytes want = orc::prf(key, in, N), got;
    std::unique_ptr<std::array<uint8_t, L>> a(new std::array<uint8_t, L>);
    if (L > 0) memcpy(a->data(), in.data(), L);
    if (!must("prf-throws", [&] { got = from_arr(f.prf(*a)); })) return;
    CHECK_EQ_BYTES("prf-array", got, want);
    uint64_t m = sec::mark();
    Key<N>   k = f.derive_key(*a);
    auto     b = sec::blocks_since(m, N);
    if (b.size() == 1) CHECK_EQ_BYTES("derive-array", b[0], want);
    tally("array_sizes");
    seenf("array/%u/%zu", N, L);
}
template<uint16_t N>
static void reborn(int steps)
{
    Slot<P<N>> slot;
    Bytes      keys[3], in[4];
    for (auto& k : keys) k = rng().bytes(32);
    keys[2] = keys[0];
    keys[2][rng().below(32)] ^= char(1 << rng().below(8));
    for (auto& x : in) x = rng().content(rng().below(200));
    reborn_walk(steps, 3, 4, [&](unsigned k, unsigned i, bool fresh) {
        Bytes b = keys[k];
        if (fresh) slot.put(Prf<N>(Key<32>(reinterpret_cast<uint8_t*>(&b[0]))));
        one(slot.get(), keys[k], in[i]);
    });
}
void vh::run()
{
    for (int r = 0; r < (ctx().thorough ? 40 : 2); r++) {
        reborn<12>(60);
        reborn<32>(60);
        reborn<64>(60);
        reborn<100>(60);
    }
    const bool T = ctx().thorough;
    auto       arrays = [&](auto l) {
        if (!mine((size_t)l)) return;
        array_size<12, decltype(l)::value>();
        array_size<32, decltype(l)::value>();
        array_size<200, decltype(l)::value>();
    };
    each_size_off<1>(arrays, std::make_index_sequence<70>());
    each_size(arrays, std::index_sequence<100, 127, 128, 129, 200, 254, 255, 256, 257, 258, 264, 300, 511, 512, 513, 1000, 4096, 65535, 65536, 65537, 70000>());
    auto       reg = [&](auto n) { table.emplace_back((size_t)n, &mk<decltype(n)::value>); };
    each_size_off<1>(reg, std::make_index_sequence<68>());
    each_size(reg, std::index_sequence<72, 80, 96, 100, 112, 120, 126, 127, 128, 129, 130, 160, 190, 191, 192, 193, 200, 255, 256, 257, 264, 300, 319, 320, 321, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2048, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 16385, 16448, 16449, 20000, 32768, 40000, 65472, 65473, 65535>());
    const bool slow = false;
    (void)slow;
    uint64_t i = 0;
    if (heavy()) {
        for (size_t l : big_lengths(T)) {
            for (size_t n : {12, 32, 200}) {
                if (!mine(i++) || (n == 200 && l > 1000000)) continue;
                for (auto& t : table) {
                    if (t.first != n) continue;
                    Bytes                key = rng().bytes(32);
                    std::unique_ptr<Any> f(t.second(key));
                    one(*f, key, rng().content(l));
                    tally("big_inputs");
                }
            }
        }
        if (mine(2)) { // many calls on one object
            Bytes                key = rng().bytes(32), in = rng().bytes(100), d = in;
            std::unique_ptr<Any> f(mk<32>(key));
            for (int k = 0; k < (T ? 300000 : 100000); k++) {
                size_t l = rng().below(100);
                in[l]    = (char)rng().next();
                if (k % 64 == 0) note("prf marathon call %d", k);
                Bytes g;
                if (k & 1) g = f->raw(U(in), l);
                else g = f->str(in.substr(0, l));
                if (g != orc::prf(key, in.substr(0, l), 32)) {
                    viol("prf-marathon", "call %d", k);
                    break;
                }
                tally("marathon_calls");
            }
        }
        if (mine(3) && available_gb() >= 10) { // longer than 32 bits can count
            Repeated             r(giant(), rng().bytes(1000));
            Bytes                key = rng().bytes(32), out;
            std::unique_ptr<Any> f(mk<32>(key));
            note("prf N=32 of %zu bytes", r.n);
            if (must("prf-throws", [&] { out = f->raw(r.p, r.n); })) CHECK_EQ_BYTES("prf-giant", out, orc::hmac_at("BLAKE2B-512", key, r.p, r.n).substr(0, 32));
            tally("giant_inputs");
        }
    }
    for (auto& t : table) {
        bool big = t.first > 3000;
        // every output size sees the boundary input lengths
        for (size_t l : {0, 1, 2, 19, 20, 21, 63, 64, 65, 126, 127, 128, 129, 130, 200, 255, 256, 257, 1000}) {
            if (!mine(i++) || (big && l % 2 == 1 && !T)) {
                continue;
            }
            Bytes                key = rng().chance(1, 12) ? rng().content(32) : rng().bytes(32);
            std::unique_ptr<Any> f(t.second(key));
            one(*f, key, rng().content(l));
        }
    }
    // dense input lengths for a few output sizes
    for (size_t l : lengths(T ? 1500 : 280, T ? 300000 : 9000, T ? 500 : 40)) {
        for (size_t n : {1, 12, 32, 64, 65, 128, 264}) {
            if (!mine(i++)) {
                continue;
            }
            for (auto& t : table) {
                if (t.first == n) {
                    Bytes                key = rng().bytes(32);
                    std::unique_ptr<Any> f(t.second(key));
                    one(*f, key, rng().content(l));
                }
            }
        }
    }
    // histories: interleaved objects of several sizes under the same key
    for (int h = 0; h < (T ? 400 : 15); h++) {
        Bytes                             key = rng().bytes(32);
        std::vector<std::unique_ptr<Any>> fs;
        for (int k = 0; k < 5; k++) {
            fs.emplace_back(table[rng().below(table.size() - 15)].second(key));
        }
        for (int s = 0; s < 30; s++) {
            auto& f = fs[rng().below(fs.size())];
            if (rng().chance(1, 6)) {
                Any* g = f->move();
                // the moved-from object must refuse, not answer
                if (!throws([&] { f->str("x"); })) {
                    viol("moved-from-answers", "a moved-from PRF (N=%zu) returned a value", f->n());
                }
                f.reset(g);
                tally("moves");
            }
            if (rng().chance(1, 8)) {
                if (outcome([&] { f->raw(nullptr, rng().below(3)); }) != INVALID_ARG) {
                    viol("null-input", "null input not refused");
                }
                tally("refusals");
            }
            one(*f, key, rng().content(rng().below(rng().chance(1, 5) ? 600 : 50)));
        }
        tally("histories");
    }
    for (int r = 0; r < (T ? 40 : 3); r++) {
        used_key<16>();
        used_key<17>();
        used_key<32>();
        used_key<48>();
        used_key<63>();
        used_key<64>();
        used_key<65>();
        used_key<100>();
        used_key<127>();
        used_key<128>();
    }
    // randomly keyed objects: self-consistent, distinct from one another
    for (int r = 0; r < (T ? 300 : 20); r++) {
        Prf<32> a, b;
        Bytes   in = rng().content(rng().below(100));
        note("random-key prf in=%s", hex(in).c_str());
        Bytes x = from_arr(a.prf(in)), y = from_arr(a.prf(U(in), in.size())), z = from_arr(b.prf(in));
        EXPECT("random-key-consistent", x == y);
        EXPECT("random-key-distinct", x != z);
        tally("random_key_objects");
    }
}
