// C18: key memory is inaccessible except while an operation uses it.
// Random sessions over live keys and key objects, with good calls, failing
// calls, moves, erasures and derivations. Between any two calls the monitor
// asks the kernel for the protection of every live secure block, compares every
// block with its first content, and (without sanitizers) searches all other
// writable memory but the stack for the keys.
#include <chrono>
#ifndef VH_NOSCAN
#include "memscan.hpp"
#endif
#include "objects.hpp"
#include "secobs.hpp"
#include <sse/crypto/hmac.hpp>
#include "hash/sha512.hpp"
using namespace vh;
using namespace sse::crypto;

// ------------------------------------------------------------- the monitor
struct Seen
{
    uint64_t serial;
    uint64_t hash;
};
static std::map<uint8_t*, Seen> g_seen;
static void between(const char* after)
{
    sec::Maps m;
    m.read();
    auto& live = sec::st().live;
    for (auto& kv : live) {
#ifdef ENABLE_MEMORY_LOCK
        sec::Prot p = m.at(kv.first), q = m.at(kv.first + kv.second.size - 1);
        if (!p.known || !q.known) viol("unmapped", "after %s: a live key is not mapped", after);
        else if (p.r || p.w || q.r || q.w) viol("accessible", "after %s: the memory of a live key of %zu bytes is %s%s", after, kv.second.size, p.r || q.r ? "readable " : "", p.w || q.w ? "writable" : "");
        tally("protections_read");
#endif
        Bytes    b = sec::peek(kv.first, kv.second.size);
        uint64_t h = fnv(b.data(), b.size());
        auto     it = g_seen.find(kv.first);
        if (it == g_seen.end() || it->second.serial != kv.second.serial) g_seen[kv.first] = Seen{kv.second.serial, h};
        else if (it->second.hash != h) {
            viol("changed", "after %s: a live key changed its value", after);
            it->second.hash = h;
        }
        tally("contents_compared");
    }
    for (auto it = g_seen.begin(); it != g_seen.end();)
        if (!live.count(it->first)) it = g_seen.erase(it);
        else ++it;
    tally("quiescent_points");
}
#ifndef VH_NOSCAN
// every key in a live secure block must be nowhere else, the stack excepted
static void nowhere_else(const char* after)
{
    scan::Secrets s;
    for (auto& kv : sec::st().live)
        if (kv.second.size >= 16) {
            Bytes b = sec::peek(kv.first, kv.second.size);
            s.key("a live key of " + std::to_string(kv.second.size) + " bytes", b);
        }
    sec::Maps m;
    m.read();
    uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
    for (auto& r : m.v) {
        if (!r.r || !r.w || (sp >= r.a && sp < r.b)) continue;
        bool secure = false;
        for (auto& kv : sec::st().live)
            if ((uintptr_t)kv.first >= r.a && (uintptr_t)kv.first < r.b) secure = true;
        if (secure) continue;
        if (r.b - r.a > (64u << 20)) continue; // the observer's arena
        size_t             at = 0;
        const std::string* n  = s.find((const uint8_t*)r.a, r.b - r.a, &at);
        if (n) viol("ordinary-memory", "after %s: ordinary writable memory holds %s", after, n->c_str());
        tally("scanned_kbytes", (r.b - r.a) >> 10);
    }
    tally("memory_scans");
}
#endif

// ------------------------------------------------------------- key objects
static Key<32> key32()
{
    Bytes   k = rng().bytes(32);
    Key<32> o(reinterpret_cast<uint8_t*>(&k[0]));
    if (k != Bytes(32, 0)) viol("buffer-kept", "the caller's buffer was not erased");
    tally("buffers_erased");
    return o;
}
template<size_t N>
static Key<N> keyN()
{
    if (rng().chance(1, 3)) return Key<N>();
    Guard g(rng().bytes(N));
    Key<N> o(g.data());
    if (g.str() != Bytes(N, 0) || !g.front_ok()) viol("buffer-kept", "the caller's buffer of %zu bytes was not erased", N);
    tally("buffers_erased");
    return o;
}
struct Sub
{
    std::string name;
    virtual ~Sub() {}
    virtual unsigned             nops()           = 0;
    virtual void                 op(unsigned i)   = 0; // needs the key: must work, or throw once the key is gone
    virtual void                 bad(unsigned)    = 0; // must throw
    virtual unsigned             nbad()           = 0;
    virtual std::unique_ptr<Sub> move()           = 0;
    // unusual arguments: may work or throw
    virtual unsigned nany()
    {
        return 0;
    }
    virtual void any(unsigned)
    {
    }
    virtual bool                 erase()
    {
        return false;
    }
};
static Wrapper& the_wrapper()
{
    static Wrapper* w = new Wrapper(key32());
    return *w;
}
template<class T>
struct Hold : Sub
{
    T o;
    template<class... A>
    explicit Hold(const char* n, A&&... a) : o(std::forward<A>(a)...)
    {
        name = n;
    }
};
static Bytes msg(size_t n)
{
    return rng().bytes(1 + rng().below(rng().chance(1, 20) ? 70000 : n));
}
// lengths at which code likes to branch
static size_t edge()
{
    static const size_t e[] = {0, 0, 0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, 192, 255, 256, 257, 511, 512, 1024, 4096, 65535, 65536};
    return e[rng().below(sizeof e / sizeof *e)];
}
template<size_t N>
struct SKey : Hold<Key<N>>
{
    using Hold<Key<N>>::Hold;
    unsigned nops() override { return 0; }
    void     op(unsigned) override {}
    unsigned nbad() override { return 1; }
    void     bad(unsigned) override { Key<N> k((uint8_t*)nullptr); }
    std::unique_ptr<Sub> move() override
    {
        if (rng().chance(1, 2)) return std::unique_ptr<Sub>(new SKey<N>("Key", std::move(this->o)));
        std::unique_ptr<SKey<N>> n(new SKey<N>("Key"));
        n->o = std::move(this->o);
        return n;
    }
    bool erase() override
    {
        this->o.erase();
        if (rng().chance(1, 2)) this->o.erase();
        return true;
    }
};
struct SCipher : Hold<Cipher>
{
    Bytes ct;
    std::array<uint8_t, 40> act;
    using Hold::Hold;
    unsigned nops() override { return 5; }
    void op(unsigned i) override
    {
        std::string            c, p;
        std::array<uint8_t, 8> a = to_arr<8>(rng().bytes(8)), b;
        switch (i) {
        case 0: o.encrypt(msg(300), c); ct = c; break;
        case 1:
            if (ct.empty()) o.encrypt(msg(50), ct);
            o.decrypt(ct, p);
            break;
        case 2: o.encrypt(a, act); break;
        case 3:
            o.encrypt(a, act);
            o.decrypt<8>(act, b);
            break;
        default: the_wrapper().wrap(o);
        }
    }
    unsigned nany() override { return 7; }
    void any(unsigned i) override
    {
        std::string              c, p;
        std::array<uint8_t, 1>   a1{{7}}, b1;
        std::array<uint8_t, 33>  e1;
        std::array<uint8_t, 300> a3, b3;
        std::array<uint8_t, 332> e3;
        a3.fill(3);
        switch (i) {
        case 0: o.encrypt(rng().bytes(edge()), c); break;
        case 1: o.decrypt(rng().bytes(edge()), p); break;
        case 2: o.decrypt(rng().bytes(30 + rng().below(5)), p); break;
        case 3: o.encrypt(a1, e1); o.decrypt<1>(e1, b1); break;
        case 4: o.encrypt(a3, e3); o.decrypt<300>(e3, b3); break;
        case 5: o.encrypt(a3, e3); e3[rng().below(332)] ^= 1; o.decrypt<300>(e3, b3); break;
        default: o.encrypt(rng().bytes(1 + rng().below(50)), c); c.resize(rng().below(c.size() + 3)); o.decrypt(c, p);
        }
    }
    unsigned nbad() override { return 4; }
    void bad(unsigned i) override
    {
        std::string p;
        switch (i) {
        case 0: o.encrypt("", p); break;
        case 1: o.decrypt(msg(30), p); break;
        case 2: o.decrypt(rng().bytes(33 + rng().below(200)), p); break;
        default: {
            std::array<uint8_t, 40> c = to_arr<40>(rng().bytes(40));
            std::array<uint8_t, 8>  b;
            o.decrypt<8>(c, b);
        }
        }
    }
    std::unique_ptr<Sub> move() override
    {
        std::unique_ptr<SCipher> n(new SCipher("Cipher", std::move(o)));
        n->ct = ct;
        return n;
    }
};
template<uint16_t N>
struct SPrf : Hold<Prf<N>>
{
    using Hold<Prf<N>>::Hold;
    unsigned nops() override { return 6; }
    void op(unsigned i) override
    {
        std::array<uint8_t, 20> a = to_arr<20>(rng().bytes(20));
        Bytes                   m = msg(200);
        switch (i) {
        case 0: this->o.prf(m); break;
        case 1: this->o.prf(U(m), m.size()); break;
        case 2: this->o.prf(a); break;
        case 3: this->o.derive_key(m); break;
        case 4: this->o.derive_key(a); break;
        default: the_wrapper().wrap(this->o);
        }
    }
    unsigned nany() override { return 6; }
    void any(unsigned i) override
    {
        Bytes                   m = rng().bytes(edge());
        std::array<uint8_t, 1>  a{{9}};
        std::array<uint8_t, 64> b;
        b.fill(4);
        switch (i) {
        case 0: this->o.prf(m); break;
        case 1: this->o.prf(U(m), m.size()); break;
        case 2: this->o.derive_key(m); break;
        case 3: this->o.prf(a), this->o.prf(b); break;
        case 4: this->o.derive_key(a), this->o.derive_key(b); break;
        default: this->o.prf(nullptr, 0);
        }
    }
    unsigned nbad() override { return 2; }
    void bad(unsigned i) override
    {
        if (i == 0) this->o.prf(nullptr, 3);
        else this->o.derive_key(nullptr, 3);
    }
    std::unique_ptr<Sub> move() override
    {
        if (rng().chance(1, 2)) return std::unique_ptr<Sub>(new SPrf<N>("Prf", std::move(this->o)));
        std::unique_ptr<SPrf<N>> n(new SPrf<N>("Prf"));
        n->o = std::move(this->o);
        return n;
    }
};
template<class H, uint16_t N>
struct SMac : Hold<HMac<H, N>>
{
    using Hold<HMac<H, N>>::Hold;
    unsigned nops() override { return 3; }
    void op(unsigned i) override
    {
        Bytes   m = msg(200);
        uint8_t out[64];
        switch (i) {
        case 0: this->o.hmac(m); break;
        case 1: this->o.hmac(U(m), m.size(), out, 1 + rng().below(64)); break;
        default: this->o.hmac(U(m), m.size());
        }
    }
    unsigned nany() override { return 6; }
    void any(unsigned i) override
    {
        Bytes   m = rng().bytes(edge());
        uint8_t out[64];
        switch (i) {
        case 0: this->o.hmac(U(m), m.size(), out, 0); break;
        case 1: this->o.hmac(U(m), m.size(), out, rng().below(65)); break;
        case 2: this->o.hmac(U(m), m.size(), out, 65 + edge()); break;
        case 3: this->o.hmac(U(m), m.size(), out); break;
        case 4: this->o.hmac(U(m), m.size(), nullptr, 0); break;
        default: this->o.hmac(nullptr, 0, out, 0);
        }
    }
    unsigned nbad() override { return 3; }
    void bad(unsigned i) override
    {
        uint8_t out[80];
        Bytes   m = msg(20);
        if (i == 0) this->o.hmac(U(m), m.size(), out, 65);
        else if (i == 1) this->o.hmac(nullptr, 4, out, 20);
        else this->o.hmac(U(m), m.size(), nullptr, 20);
    }
    std::unique_ptr<Sub> move() override
    {
        if (rng().chance(1, 2)) return std::unique_ptr<Sub>(new SMac<H, N>("HMac", std::move(this->o)));
        std::unique_ptr<SMac<H, N>> n(new SMac<H, N>("HMac"));
        n->o = std::move(this->o);
        return n;
    }
};
struct SPrg : Hold<Prg>
{
    using Hold::Hold;
    unsigned nops() override { return 7; }
    void op(unsigned i) override
    {
        std::string s;
        uint8_t     b[300];
        switch (i) {
        case 0: o.derive(1 + rng().below(rng().chance(1, 20) ? 70000 : 200)); break;
        case 1: o.derive(rng().below(200), 1 + rng().below(200), s); break;
        case 2: o.derive(rng().below(200), 1 + rng().below(299), b); break;
        case 3: o.derive_key<32>((uint16_t)rng().below(1000)); break;
        case 4: o.derive_keys<24>((uint16_t)(1 + rng().below(rng().chance(1, 20) ? 80 : 6)), (uint16_t)rng().below(50)); break;
        case 5: o.derive(rng().below(90), 1 + rng().below(90)); break;
        default: the_wrapper().wrap(o);
        }
    }
    unsigned nany() override { return 9; }
    void any(unsigned i) override
    {
        std::string s;
        Bytes       b(70000, 0);
        size_t      off = rng().chance(1, 3) ? rng().next() >> rng().below(60) : edge() * (1 + rng().below(3));
        switch (i) {
        case 0: o.derive(edge()); break;
        case 1: o.derive(off, edge(), s); break;
        case 2: o.derive(off, edge(), (unsigned char*)&b[0]); break;
        case 3: o.derive(off, edge(), (unsigned char*)nullptr); break;
        case 4: o.derive_key<64>((uint16_t)edge()); break;
        case 5: o.derive_keys<16>(0, (uint16_t)edge()); break;
        case 6: o.derive_keys<16>((uint16_t)rng().below(9), (uint16_t)edge()); break;
        case 7: {
            Key<32> k(key32());
            Prg::derive(std::move(k), off, edge(), (unsigned char*)(rng().chance(1, 3) ? nullptr : &b[0]));
            break;
        }
        default: {
            Key<32> k(key32());
            if (rng().chance(1, 2)) Prg::derive_keys<24>(std::move(k), (uint16_t)rng().below(4), (uint16_t)edge());
            else Prg::derive(std::move(k), edge(), s);
        }
        }
    }
    unsigned nbad() override { return 1; }
    void bad(unsigned) override { o.derive(rng().below(100), 1 + rng().below(100), (unsigned char*)nullptr); }
    std::unique_ptr<Sub> move() override { return std::unique_ptr<Sub>(new SPrg("Prg", std::move(o))); }
};
struct SPrp : Hold<Prp>
{
    using Hold::Hold;
    unsigned nops() override { return 7; }
    void op(unsigned i) override
    {
        std::string s;
        switch (i) {
        case 0: o.encrypt(msg(100), s); break;
        case 1: o.decrypt(msg(100), s); break;
        case 2: o.encrypt((uint32_t)rng().next()); break;
        case 3: o.decrypt((uint32_t)rng().next()); break;
        case 4: o.encrypt_64(rng().next()); break;
        case 5: o.decrypt_64(rng().next()); break;
        default: the_wrapper().wrap(o);
        }
    }
    unsigned nany() override { return 4; }
    void any(unsigned i) override
    {
        std::string s = rng().bytes(edge()), t;
        uint8_t     b[300];
        switch (i) {
        case 0: o.encrypt(s, t); break;
        case 1: o.decrypt(s, t); break;
        case 2: o.encrypt(U(s), (unsigned)std::min<size_t>(s.size(), 300), b); break;
        default: o.decrypt(U(s), (unsigned)std::min<size_t>(s.size(), 300), b);
        }
    }
    unsigned nbad() override { return 0; }
    void bad(unsigned) override {}
    std::unique_ptr<Sub> move() override { return std::unique_ptr<Sub>(new SPrp("Prp", std::move(o))); }
};
template<uint16_t N>
struct SCon : Hold<ConstrainedRCPrf<N>>
{
    using Hold<ConstrainedRCPrf<N>>::Hold;
    unsigned nops() override { return 3; }
    void op(unsigned i) override
    {
        bool     e = this->o.is_empty();
        uint64_t a = e ? 0 : rc::leaf_in(this->o.min_leaf(), this->o.max_leaf()), b = e ? 0 : std::min(this->o.max_leaf() - a, (uint64_t)4) + a;
        switch (i) {
        case 0: this->o.eval(a); break;
        case 1: this->o.eval_range(a, b, [](uint64_t, std::array<uint8_t, N>) {}); break;
        default: this->o.constrain(a, b);
        }
    }
    unsigned nany() override { return 5; }
    void any(unsigned i) override
    {
        uint64_t a = rng().chance(1, 2) ? rng().next() >> rng().below(64) : this->o.is_empty() ? 0 : rc::leaf_in(this->o.min_leaf(), this->o.max_leaf());
        uint64_t b = rng().chance(1, 2) ? a : a + rng().below(4) - 1;
        int      n = 0;
        switch (i) {
        case 0: this->o.eval(a); break;
        case 1: this->o.eval_range(a, b, [&](uint64_t, std::array<uint8_t, N>) { if (n++ > 2) throw std::runtime_error("callback"); }); break;
        case 2: this->o.constrain(a, b); break;
        case 3:
            if (!this->o.is_empty()) this->o.eval_range(this->o.min_leaf(), this->o.max_leaf(), [&](uint64_t, std::array<uint8_t, N>) { if (n++ > 40) throw std::runtime_error("callback"); });
            break;
        default: the_wrapper().wrap(this->o);
        }
    }
    unsigned nbad() override { return 3; }
    void bad(unsigned i) override
    {
        uint64_t out = this->o.max_leaf() + 1;
        if (i == 0) this->o.eval(out);
        else if (i == 1) this->o.eval_range(this->o.min_leaf(), out, [](uint64_t, std::array<uint8_t, N>) {});
        else this->o.constrain(this->o.min_leaf(), out);
    }
    std::unique_ptr<Sub> move() override { return std::unique_ptr<Sub>(new SCon<N>("ConstrainedRCPrf", std::move(this->o))); }
};
template<uint16_t N>
struct SRc : Hold<RCPrf<N>>
{
    using Hold<RCPrf<N>>::Hold;
    uint64_t last() { return (1ull << (this->o.tree_height() - 1)) - 1; }
    unsigned nops() override { return 4; }
    void op(unsigned i) override
    {
        uint64_t a = rc::leaf_in(0, last()), b = std::min(last() - a, (uint64_t)4) + a;
        if (a == 0 && b == last()) b = 0;
        switch (i) {
        case 0: this->o.eval(a); break;
        case 1: this->o.eval_range(a, b, [](uint64_t, std::array<uint8_t, N>) {}); break;
        case 2: this->o.constrain(a, b); break;
        default: the_wrapper().wrap(this->o);
        }
    }
    unsigned nany() override { return 4; }
    void any(unsigned i) override
    {
        uint64_t a = rng().chance(1, 2) ? rng().next() >> rng().below(64) : rc::leaf_in(0, last());
        uint64_t b = rng().chance(1, 2) ? a : a + rng().below(4) - 1;
        int      n = 0;
        switch (i) {
        case 0: this->o.eval(a); break;
        case 1: this->o.eval_range(a, b, [&](uint64_t, std::array<uint8_t, N>) { if (n++ > 2) throw std::runtime_error("callback"); }); break;
        case 2: this->o.constrain(a, b); break;
        default: this->o.eval_range(0, last(), [&](uint64_t, std::array<uint8_t, N>) { if (n++ > 40) throw std::runtime_error("callback"); });
        }
    }
    unsigned nbad() override { return 4; }
    void bad(unsigned i) override
    {
        if (i == 0) this->o.eval(last() + 1);
        else if (i == 1) this->o.eval_range(0, last() + 1, [](uint64_t, std::array<uint8_t, N>) {});
        else if (i == 2) this->o.constrain(1, 0);
        else this->o.eval_range(0, last(), [](uint64_t, std::array<uint8_t, N>) { throw std::runtime_error("callback"); });
    }
    std::unique_ptr<Sub> move() override { return std::unique_ptr<Sub>(new SRc<N>("RCPrf", std::move(this->o))); }
    ConstrainedRCPrf<N> sub()
    {
        uint64_t a = rc::leaf_in(0, last()), b = rc::leaf_in(0, last());
        if (a > b) std::swap(a, b);
        if (a == 0 && b == last()) b = 0;
        return this->o.constrain(a, b);
    }
};
struct SWrapper : Hold<Wrapper>
{
    Prg                  sample;
    std::vector<uint8_t> blob;
    explicit SWrapper(Key<32>&& k) : Hold("Wrapper", std::move(k)), sample(key32())
    {
        blob = o.wrap(sample);
    }
    SWrapper(Wrapper&& w, Prg&& p, const std::vector<uint8_t>& b) : Hold("Wrapper", std::move(w)), sample(std::move(p)), blob(b) {}
    unsigned nops() override { return 2; }
    void op(unsigned i) override
    {
        auto b = blob;
        if (i == 0) o.wrap(the_prg());
        else o.unwrap<Prg>(b);
    }
    static Prg& the_prg()
    {
        static Prg* p = new Prg(key32());
        return *p;
    }
    unsigned nany() override { return 5; }
    void any(unsigned i) override
    {
        auto b = blob;
        switch (i) {
        case 0: b.resize(edge() % 200); o.unwrap<Prg>(b); break;
        case 1: b.resize(26 + rng().below(5)); o.unwrap<Prg>(b); break;
        case 2: o.unwrap<Prf<32>>(b); break;
        case 3: o.unwrap<ConstrainedRCPrf<16>>(b); break;
        default: {
            Prp                  p(keyN<48>());
            std::vector<uint8_t> w = o.wrap(p);
            if (rng().chance(1, 2)) w[rng().below(w.size())] ^= 2;
            o.unwrap<Prp>(w);
        }
        }
    }
    unsigned nbad() override { return 3; }
    void bad(unsigned i) override
    {
        auto b = blob;
        if (i == 0) b[rng().below(b.size())] ^= 1;
        else if (i == 1) b.resize(rng().below(28));
        if (i < 2) o.unwrap<Prg>(b);
        else o.unwrap<Cipher>(b);
    }
    std::unique_ptr<Sub> move() override
    {
        return std::unique_ptr<Sub>(new SWrapper(std::move(o), std::move(sample), blob));
    }
};
typedef std::unique_ptr<Sub> P;
static P make(unsigned i)
{
    switch (i % 24) {
    case 0: return P(new SKey<1>("Key", keyN<1>()));
    case 1: return P(new SKey<16>("Key", keyN<16>()));
    case 2: return P(new SKey<32>("Key", keyN<32>()));
    case 3: return P(new SKey<100>("Key", keyN<100>()));
    case 4: return P(new SKey<4096>("Key", keyN<4096>()));
    case 5: return P(new SKey<5000>("Key", keyN<5000>()));
    case 6:
    case 7: return P(new SCipher("Cipher", keyN<32>()));
    case 8: return P(new SPrf<1>("Prf", keyN<32>()));
    case 9: return P(new SPrf<32>("Prf", keyN<32>()));
    case 10: return P(new SPrf<64>("Prf", keyN<32>()));
    case 11: return P(new SPrf<300>("Prf", keyN<32>()));
    case 12: return P(new SMac<Hash, 16>("HMac", keyN<16>()));
    case 13: return P(new SMac<Hash, 200>("HMac", keyN<200>()));
    case 14: return P(new SMac<hash::sha512, 64>("HMac", keyN<64>()));
    case 15:
    case 16: return P(new SPrg("Prg", keyN<32>()));
    case 17: return P(new SPrp("Prp", keyN<48>()));
    case 18: return P(new SRc<16>("RCPrf", keyN<32>(), (uint8_t)rng().range(2, 12)));
    case 19: return P(new SRc<32>("RCPrf", keyN<32>(), (uint8_t)rng().range(2, 60)));
    case 20: {
        SRc<16> r("RCPrf", keyN<32>(), (uint8_t)rng().range(2, 12));
        return P(new SCon<16>("ConstrainedRCPrf", r.sub()));
    }
    case 21: {
        SRc<64> r("RCPrf", keyN<32>(), (uint8_t)rng().range(2, 40));
        return P(new SCon<64>("ConstrainedRCPrf", r.sub()));
    }
    case 22: {
        Prg g(keyN<32>());
        return P(new SKey<32>("Key", g.derive_key<32>((uint16_t)rng().below(9))));
    }
    default: return P(new SWrapper(keyN<32>()));
    }
}
// a key which was moved away or erased is never read
static void dead(Sub& s, const char* how)
{
    for (unsigned i = 0; i < s.nops(); i++) {
        note("%s after %s, operation %u", s.name.c_str(), how, i);
        std::string w;
        Outcome     o = outcome([&] { s.op(i); }, &w);
        if (o == OK) viol("dead-key-used", "%s: operation %u works after %s", s.name.c_str(), i, how);
        else tally("dead_uses");
        between("a use of a dead key");
    }
}
template<size_t N>
static void dead_key(Key<N>&& k, const char* how)
{
    note("Key<%zu> after %s", N, how);
    // every consumer of a key has to refuse it
    switch (rng().below(4)) {
    case 0: EXPECT("dead-key-used", throws([&] { HMac<Hash, N> h(std::move(k)); h.hmac("x"); })); break;
    case 1: EXPECT("dead-key-used", throws([&] { HMac<hash::sha512, N> h(std::move(k)); h.hmac("x"); })); break;
    default: {
        Key<N> t(std::move(k));
        EXPECT("dead-key-used", throws([&] {
                   HMac<Hash, N> h;
                   h = HMac<Hash, N>(std::move(t));
                   h.hmac("x");
               }));
    }
    }
    tally("dead_uses");
    between("a use of a dead key");
}
static void dead32(Key<32>&& k, const char* how)
{
    note("Key<32> after %s", how);
    uint8_t     b[40];
    std::string s;
    switch (rng().below(9)) {
    case 0: EXPECT("dead-key-used", throws([&] { Cipher c(std::move(k)); c.encrypt("x", s); })); break;
    case 1: EXPECT("dead-key-used", throws([&] { Prf<32> c(std::move(k)); c.prf("x"); })); break;
    case 2: EXPECT("dead-key-used", throws([&] { Prg c(std::move(k)); c.derive(5); })); break;
    case 3: EXPECT("dead-key-used", throws([&] { Prg::derive(std::move(k), 5); })); break;
    case 4: EXPECT("dead-key-used", throws([&] { Prg::derive(std::move(k), 3, 5, b); })); break;
    case 5: EXPECT("dead-key-used", throws([&] { Prg::derive_key<16>(std::move(k), 3); })); break;
    case 6: EXPECT("dead-key-used", throws([&] { Prg::derive_keys<16>(std::move(k), 3); })); break;
    case 7: EXPECT("dead-key-used", throws([&] { Wrapper c(std::move(k)); })); break;
    default: EXPECT("dead-key-used", throws([&] { RCPrf<16> c(std::move(k), 4); c.eval(1); }));
    }
    tally("dead_uses");
    between("a use of a dead key");
}
// whoever takes a key over leaves nothing usable with the caller
template<size_t N>
static void gone(Key<N>& k, const char* who)
{
    note("the key which %s took over", who);
    if (!throws([&] {
            HMac<Hash, N> h(std::move(k));
            h.hmac("x");
        }))
        viol("key-kept", "a key of %zu bytes is still usable after %s took it over", N, who);
    tally("handed_over");
    seenf("handed/%s", who);
    between("a use of a key which was handed over");
}
template<size_t N, class F>
static void hand(const char* who, F&& f)
{
    Key<N> k(keyN<N>());
    note("handing a key of %zu bytes to %s", N, who);
    if (must("operation", [&] { f(k); })) {
        between(who);
        gone(k, who);
    }
}
template<class T, size_t N, class... A>
static void hand_to(const char* who, A... a)
{
    hand<N>(who, [&](Key<N>& k) { T o(std::move(k), a...); });
}
static void handed_over()
{
    hand_to<Cipher, 32>("Cipher");
    hand_to<Prf<1>, 32>("Prf<1>");
    hand_to<Prf<64>, 32>("Prf<64>");
    hand_to<Prf<300>, 32>("Prf<300>");
    hand_to<HMac<Hash, 16>, 16>("HMac<16>");
    hand_to<HMac<Hash, 128>, 128>("HMac<128>");
    hand_to<HMac<Hash, 200>, 200>("HMac<200>");
    hand_to<HMac<hash::sha512, 25>, 25>("HMac<sha512>");
    hand_to<Prg, 32>("Prg");
    hand_to<Prp, 48>("Prp");
    hand_to<RCPrf<16>, 32>("RCPrf<16>", (uint8_t)rng().range(2, 64));
    hand_to<RCPrf<32>, 32>("RCPrf<32>", (uint8_t)rng().range(2, 64));
    hand_to<Wrapper, 32>("Wrapper");
    hand_to<Key<40>, 40>("Key");
    hand<40>("assignment", [](Key<40>& k) { Key<40> o; o = std::move(k); });
    hand<32>("inner element", [](Key<32>& k) { ConstrainedRCPrfInnerElement<16> e(std::move(k), 5, 3, 4, 7); });
    static const size_t len[] = {0, 1, 31, 32, 63, 64, 65, 128, 1000, 5000};
    for (size_t n : len) {
        size_t off = rng().chance(1, 2) ? 64 * rng().below(5) : rng().below(300);
        Bytes  b(5001, 0);
        hand<32>("Prg::derive to a string", [&](Key<32>& k) { std::string s; Prg::derive(std::move(k), n, s); });
        hand<32>("Prg::derive at an offset to a string", [&](Key<32>& k) { std::string s; Prg::derive(std::move(k), off, n, s); });
        hand<32>("Prg::derive to a buffer", [&](Key<32>& k) { Prg::derive(std::move(k), off, n, (unsigned char*)&b[0]); });
        hand<32>("Prg::derive returning", [&](Key<32>& k) { Prg::derive(std::move(k), n); });
        hand<32>("Prg::derive at an offset returning", [&](Key<32>& k) { Prg::derive(std::move(k), off, n); });
        hand<32>("Prg::derive_keys", [&](Key<32>& k) { Prg::derive_keys<16>(std::move(k), (uint16_t)(n % 7), (uint16_t)off); });
        hand<32>("Prg::derive_key", [&](Key<32>& k) { Prg::derive_key<16>(std::move(k), (uint16_t)off); });
        hand<32>("Prg::derive_key", [&](Key<32>& k) { Prg::derive_key<100>(std::move(k), (uint16_t)n); });
    }
    hand<32>("Prg::derive to an array", [](Key<32>& k) { std::array<uint8_t, 33> a; Prg::derive(std::move(k), 7, a); });
    static orc::Rsa rsa = orc::make_rsa(rng(), 2048, orc::exponent(0));
    static Tdp        pub(rsa.pem_pub());
    static TdpInverse inv(rsa.pem_priv());
    hand<32>("Tdp::generate", [](Key<32>& k) { pub.generate(std::move(k), "seed"); });
    hand<32>("Tdp::generate_array", [](Key<32>& k) { pub.generate_array(std::move(k), ""); });
    hand<32>("TdpInverse::generate", [](Key<32>& k) { inv.generate(std::move(k), ""); });
    hand<32>("TdpInverse::generate_array", [](Key<32>& k) { inv.generate_array(std::move(k), "seed"); });
}
static void session(unsigned id)
{
    std::vector<P> v;
    the_wrapper();
    SWrapper::the_prg();
    size_t base  = sec::st().live.size();
    size_t steps = 20 + rng().below(30);
    for (size_t i = 0; i < steps; i++) {
        unsigned a = (unsigned)rng().below(15);
        if (v.size() < 3 || a == 0) {
            unsigned k = (unsigned)rng().below(24);
            note("session %u step %zu: make %u", id, i, k);
            must("make", [&] { v.push_back(make(k)); });
            between("a construction");
            continue;
        }
        size_t j = rng().below(v.size());
        Sub&   s = *v[j];
        if (a >= 12 && s.nany()) {
            unsigned o = (unsigned)rng().below(s.nany());
            note("session %u step %zu: %s unusual operation %u", id, i, s.name.c_str(), o);
            bool t = throws([&] { s.any(o); });
            tally(t ? "unusual_refused" : "unusual_done");
            between((s.name + " unusual operation " + std::to_string(o)).c_str());
        } else if (a <= 5 && s.nops()) {
            unsigned o = (unsigned)rng().below(s.nops());
            note("session %u step %zu: %s operation %u", id, i, s.name.c_str(), o);
            must("operation", [&] { s.op(o); });
            tally("good_calls");
            between((s.name + " operation " + std::to_string(o)).c_str());
        } else if (a <= 7 && s.nbad()) {
            unsigned o = (unsigned)rng().below(s.nbad());
            note("session %u step %zu: %s failing operation %u", id, i, s.name.c_str(), o);
            if (!throws([&] { s.bad(o); })) viol("not-refused", "%s: bad operation %u was accepted", s.name.c_str(), o);
            tally("failing_calls");
            between((s.name + " failing operation " + std::to_string(o)).c_str());
        } else if (a <= 9) {
            note("session %u step %zu: move of %s", id, i, s.name.c_str());
            P n = s.move();
            between("a move");
            tally("moves");
            dead(s, "a move");
            if (rng().chance(1, 2)) s.erase(), dead(s, "a move and an erasure");
            v[j] = std::move(n);
            between("a destruction");
        } else if (a == 10) {
            note("session %u step %zu: end of %s", id, i, s.name.c_str());
            if (s.erase()) {
                dead(s, "an erasure");
                between("an erasure");
                tally("erasures");
            }
            v.erase(v.begin() + (long)j);
            between("a destruction");
        } else {
            note("session %u step %zu: dead keys", id, i);
            Key<32> k(keyN<32>());
            if (rng().chance(1, 2)) k.erase();
            else Key<32> other(std::move(k));
            dead32(std::move(k), "a move or an erasure");
            Key<40> q(keyN<40>());
            if (rng().chance(1, 2)) q.erase();
            else {
                Key<40> other;
                other = std::move(q);
            }
            dead_key<40>(std::move(q), "a move or an erasure");
            // moving a key onto itself keeps it
            Key<32>  me(keyN<32>());
            Key<32>& r = me;
            me         = std::move(r);
            between("a self-move");
            must("self-move", [&] { Prg::derive(std::move(me), 5); });
        }
#ifndef VH_NOSCAN
        if (i % 8 == 3) nowhere_else("a session step");
#endif
    }
#ifndef VH_NOSCAN
    nowhere_else("a session");
#endif
    seenf("session/%u/%u", id, (unsigned)ctx().shard);
    v.clear();
    between("the end of a session");
    if (sec::st().live.size() != base) viol("not-released", "session %u: %zu secure blocks were not released", id, sec::st().live.size() - base);
    tally("sessions");
}
// many calls on one object, and many objects at once
static void marathon()
{
    the_wrapper();
    SWrapper::the_prg();
    for (unsigned k = 0; k < 24; k++) {
        if (!mine(k)) continue;
        P s = make(k);
        if (s->nops() == 0) continue;
        unsigned o = (unsigned)rng().below(s->nops());
        unsigned n = ctx().thorough ? 200000 : 3000;
        if (k % 6 == 1) n = ctx().thorough ? 400000 : 70000;
        auto stop = std::chrono::steady_clock::now() + std::chrono::seconds(ctx().thorough ? 60 : 8);
        for (unsigned i = 0; i < n && std::chrono::steady_clock::now() < stop; i++) {
            if (i % 64 == 0) note("%s operation %u, call %u of a marathon", s->name.c_str(), o, i);
            if (!must("operation", [&] { s->op(o); })) break;
            tally("marathon_calls");
        }
        between((s->name + " operation " + std::to_string(o) + ", many times").c_str());
    }
    if (!mine(5)) return;
    size_t         base = sec::st().live.size();
    std::vector<P> v;
    for (unsigned i = 0; i < (ctx().thorough ? 4000u : 1200u); i++) {
        note("object %u of many", i);
        must("make", [&] { v.push_back(make((unsigned)rng().below(24))); });
        if (i % 400 == 0) between("a construction among many");
    }
    for (int i = 0; i < 300; i++) {
        Sub& s = *v[rng().below(v.size())];
        note("operation among many live objects: %s", s.name.c_str());
        if (s.nops()) must("operation", [&] { s.op((unsigned)rng().below(s.nops())); });
        if (i % 30 == 0) between("an operation among many live objects");
    }
    tally("many_live", sec::st().live.size());
    while (!v.empty()) {
        std::swap(v[rng().below(v.size())], v.back());
        v.pop_back();
    }
    between("the end of many objects");
    if (sec::st().live.size() != base) viol("not-released", "%zu secure blocks were not released", sec::st().live.size() - base);
}
void vh::run()
{
    if (getenv("VH_HUGE")) marathon();
    unsigned n = ctx().thorough ? 900 : 40;
    for (unsigned i = 0; i < n; i++) session(i);
    for (unsigned i = 0; i < (ctx().thorough ? 40u : 4u); i++) handed_over();
    // every kind, once, thoroughly
    for (unsigned k = 0; k < 24; k++) {
        if (!mine(k)) continue;
        for (int rep = 0; rep < 2; rep++) {
            P s = make(k);
            for (unsigned o = 0; o < s->nops(); o++) {
                note("kind %u operation %u", k, o);
                must("operation", [&] { s->op(o); });
                between((s->name + " operation " + std::to_string(o)).c_str());
            }
            for (unsigned o = 0; o < s->nbad(); o++) {
                note("kind %u failing operation %u", k, o);
                if (!throws([&] { s->bad(o); })) viol("not-refused", "%s: bad operation %u was accepted", s->name.c_str(), o);
                between((s->name + " failing operation " + std::to_string(o)).c_str());
            }
            for (unsigned q = 0; q < s->nany() * 12; q++) {
                unsigned o = q % s->nany();
                note("kind %u unusual operation %u", k, o);
                bool t = throws([&] { s->any(o); });
                tally(t ? "unusual_refused" : "unusual_done");
                between((s->name + " unusual operation " + std::to_string(o)).c_str());
            }
            P t = s->move();
            dead(*s, "a move");
            for (unsigned o = 0; o < t->nops(); o++) must("operation", [&] { t->op(o); });
            between("a moved object");
            tally("kinds_swept");
            seenf("kind/%u/%d", k, rep);
        }
    }
    auto& s = sec::st();
    tally("secure_allocations", s.nalloc);
    tally("secure_frees", s.nfree);
    tally("locks", s.n_noaccess);
    tally("unlocks", s.n_readonly);
}
