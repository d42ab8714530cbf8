// C20: no public operation has a memory error, undefined behaviour or leak.
// Random sessions over every public operation with hostile arguments. Raw
// inputs lie in read-only memory which ends at an unreadable page; raw outputs
// are exactly as large as documented and end at an unwritable page. The oracle
// is the sanitizer (or valgrind), the guards, and the accounts of memory.
#include "objects.hpp"
#include "secobs.hpp"
#include "hash/blake2b.hpp"
#include "hash/sha512.hpp"
#include <sse/crypto/hash.hpp>
#include <sse/crypto/hmac.hpp>
#include <sse/crypto/random.hpp>
#include <sse/crypto/set_hash.hpp>
#include <sse/crypto/utils.hpp>
#include <sstream>
using namespace vh;
using namespace sse::crypto;

// ----------------------------------------------------------------- arguments
static size_t alen()
{
    static const size_t e[] = {0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 127, 128, 129, 191, 192, 255, 256, 257, 511, 512, 513, 1000, 1024, 4095, 4096, 4097};
    switch (rng().below(4)) {
    case 0: return e[rng().below(sizeof e / sizeof *e)];
    case 1: return rng().below(20);
    default: return rng().chance(1, 60) ? (rng().chance(1, 2) ? 65500 + rng().below(100) : rng().below(140000)) : rng().below(300);
    }
}
static uint64_t anum()
{
    switch (rng().below(6)) {
    case 0: return rng().below(4);
    case 1: return ~0ull - rng().below(4);
    case 2: return (1ull << rng().below(64)) - rng().below(2);
    case 3: return rng().next();
    case 4: return (1ull << rng().below(64)) + rng().below(3);
    default: return rng().below(100);
    }
}
// a raw read-only input
struct In
{
    Guard g;
    Bytes copy;
    bool  null;
    explicit In(size_t n, bool may_null = true) : g(n), copy(rng().bytes(n)), null(may_null && rng().chance(1, 12))
    {
        if (n) memcpy(g.p, copy.data(), n);
        g.ro();
    }
    explicit In(const Bytes& b) : g(b), copy(b), null(false)
    {
        g.ro();
    }
    const uint8_t* p()
    {
        return null ? nullptr : g.p;
    }
    ~In()
    {
        if (g.str() != copy || !g.front_ok()) viol("input-changed", "a read-only input was changed");
        tally("guarded_inputs");
    }
};
// a raw output of exactly n bytes
struct Out
{
    Guard g;
    bool  null;
    explicit Out(size_t n, bool may_null = true) : g(n), null(may_null && rng().chance(1, 12))
    {
    }
    uint8_t* p()
    {
        return null ? nullptr : g.p;
    }
    ~Out()
    {
        if (!g.front_ok()) viol("output-overrun", "bytes before an output were written");
        tally("guarded_outputs");
    }
};
static std::string astr()
{
    std::string s = rng().bytes(alen());
    s.shrink_to_fit();
    return s;
}
// an output string in any earlier state
static std::string ostr()
{
    return rng().chance(1, 2) ? std::string() : rng().bytes(rng().below(80));
}
template<size_t N>
static Key<N> nkey()
{
    switch (rng().below(8)) {
    case 0: return Key<N>();
    case 1: {
        Key<N> k;
        if (rng().chance(1, 2)) k.erase();
        else Key<N> t(std::move(k));
        tally("dead_keys_given");
        return k;
    }
    default: {
        Guard g(rng().bytes(N));
        return Key<N>(g.data());
    }
    }
}
template<size_t N>
static Key<N> live_key()
{
    return Key<N>();
}
// a set of live objects of one kind, some of them moved from
template<class T>
struct Pool
{
    std::vector<std::unique_ptr<T>>     v;
    std::function<std::unique_ptr<T>()> make;
    bool                                movable = true;
    T&                                  get()
    {
        if (v.empty() || rng().chance(1, 12)) v.push_back(make());
        return *v[rng().below(v.size())];
    }
    void trim()
    {
        while (v.size() > 4) v.erase(v.begin() + (long)rng().below(v.size()));
    }
    void move_one()
    {
        T& o = get();
        v.emplace_back(new T(std::move(o))); // o stays in the pool, moved from
        tally("moves");
    }
};
template<class T>
static Pool<T>& pool()
{
    static Pool<T>* p = new Pool<T>;
    return *p;
}
struct Op
{
    std::string           name;
    std::function<void()> f;
    unsigned              weight;
};
static std::vector<Op> g_ops;
static void            add(const std::string& n, unsigned w, std::function<void()> f)
{
    g_ops.push_back(Op{n, std::move(f), w});
}
static std::vector<std::function<void()>> g_clear, g_trim;
template<class T>
static void kind(const char* n, std::function<std::unique_ptr<T>()> m)
{
    pool<T>().make = std::move(m);
    g_clear.push_back([] { pool<T>().v.clear(); });
    g_trim.push_back([] { pool<T>().trim(); });
    add(std::string(n) + " construction", 2, [] { pool<T>().v.push_back(pool<T>().make()); });
    add(std::string(n) + " destruction", 1, [] { if (!pool<T>().v.empty()) pool<T>().v.pop_back(); });
}
template<class T>
static void movable(const char* n)
{
    add(std::string(n) + " move", 1, [] { pool<T>().move_one(); });
}

// ---------------------------------------------------------------- the ops
template<size_t N>
static void key_ops()
{
    typedef Key<N> K;
    std::string    n = "Key<" + std::to_string(N) + ">";
    kind<K>(n.c_str(), [] { return std::unique_ptr<K>(new K(nkey<N>())); });
    movable<K>(n.c_str());
    add(n + " from buffer", 2, [] {
        Out o(N);
        if (!o.null) memcpy(o.p(), rng().bytes(N).data(), N);
        K k(o.p());
    });
    add(n + " erase", 1, [] { pool<K>().get().erase(); });
    add(n + " move assignment", 1, [] {
        K &a = pool<K>().get(), &b = pool<K>().get();
        a = std::move(b);
    });
}
template<class H>
static void hash_ops(const char* n)
{
    add(std::string(n) + " hash raw", 2, [] {
        In  i(alen(), false); // internal classes: the callers refuse null
        Out o(H::kDigestSize, false);
        H::hash(i.p(), i.copy.size(), o.p());
    });
}
static void Hash_ops()
{
    add("Hash raw", 2, [] {
        In  i(alen());
        Out o(64);
        Hash::hash(i.p(), i.copy.size(), o.p());
    });
    add("Hash raw truncated", 4, [] {
        In     i(alen());
        size_t l = rng().chance(1, 8) ? 65 + rng().below(4) : rng().below(65);
        if (rng().chance(1, 20)) l = (size_t)anum();
        Out o(l > 200 ? 0 : l);
        Hash::hash(i.p(), i.copy.size(), l, o.p());
    });
    add("Hash string", 2, [] {
        std::string s = astr(), c = s, o = ostr();
        Hash::hash(s, o);
        if (s != c) viol("input-changed", "Hash changed its input");
    });
    add("Hash same string", 1, [] {
        std::string s = astr();
        if (rng().chance(1, 2)) Hash::hash(s, s);
        else Hash::hash(s, rng().below(70), s);
    });
    add("Hash string truncated", 2, [] {
        std::string s = astr(), o = ostr();
        if (rng().chance(1, 2)) Hash::hash(s, (size_t)anum(), o);
        else o = Hash::hash(s, rng().below(70));
    });
    add("Hash string value", 1, [] { Hash::hash(astr()); });
}
template<class H, uint16_t N>
static void mac_ops(const char* hn)
{
    typedef HMac<H, N> M;
    std::string        n = std::string("HMac<") + hn + "," + std::to_string(N) + ">";
    kind<M>(n.c_str(), [] { return std::unique_ptr<M>(rng().chance(1, 3) ? new M() : new M(nkey<N>())); });
    movable<M>(n.c_str());
    add(n + " raw", 3, [] {
        In     i(alen());
        size_t l = rng().chance(1, 8) ? 65 + rng().below(300) : rng().below(65);
        Out    o(l > 64 ? 0 : l);
        pool<M>().get().hmac(i.p(), i.copy.size(), o.p(), l);
    });
    add(n + " raw array", 1, [] {
        In i(alen());
        pool<M>().get().hmac(i.p(), i.copy.size());
    });
    add(n + " string", 2, [] { pool<M>().get().hmac(astr()); });
    add(n + " move assignment", 1, [] {
        M &a = pool<M>().get(), &b = pool<M>().get();
        a = std::move(b);
    });
}
template<uint16_t N>
static void prf_ops()
{
    typedef Prf<N> M;
    std::string    n = "Prf<" + std::to_string(N) + ">";
    kind<M>(n.c_str(), [] { return std::unique_ptr<M>(rng().chance(1, 3) ? new M() : new M(nkey<32>())); });
    movable<M>(n.c_str());
    add(n + " raw", 2, [] {
        In i(alen());
        pool<M>().get().prf(i.p(), i.copy.size());
    });
    add(n + " string", 1, [] { pool<M>().get().prf(astr()); });
    add(n + " array", 1, [] {
        pool<M>().get().prf(std::array<uint8_t, 0>());
        pool<M>().get().prf(to_arr<1>(rng().bytes(1)));
        pool<M>().get().prf(to_arr<100>(rng().bytes(100)));
    });
    add(n + " derive_key", 2, [] {
        In i(alen());
        pool<M>().get().derive_key(i.p(), i.copy.size());
        pool<M>().get().derive_key(astr());
        pool<M>().get().derive_key(to_arr<16>(rng().bytes(16)));
    });
    add(n + " move assignment", 1, [] {
        M &a = pool<M>().get(), &b = pool<M>().get();
        a = std::move(b);
    });
}
static size_t aoff()
{
    return rng().chance(1, 2) ? (size_t)anum() : alen();
}
static void prg_ops()
{
    typedef Prg M;
    kind<M>("Prg", [] { return std::unique_ptr<M>(new M(nkey<32>())); });
    movable<M>("Prg");
    add("Prg raw", 5, [] {
        size_t l = alen();
        Out    o(l);
        pool<M>().get().derive(aoff(), l, o.p());
    });
    add("Prg string", 3, [] {
        std::string o = ostr();
        switch (rng().below(5)) {
        case 0: pool<M>().get().derive(alen(), o); break;
        case 1: pool<M>().get().derive(alen()); break;
        case 2: pool<M>().get().derive(aoff(), alen(), o); break;
        case 3: pool<M>().get().derive(aoff(), alen()); break;
        default: pool<M>().get().derive(aoff(), ~(size_t)0 - rng().below(9), o); // no such string
        }
    });
    add("Prg static", 4, [] {
        std::string o = ostr();
        size_t      l = alen();
        switch (rng().below(7)) {
        case 0: Prg::derive(nkey<32>(), l, o); break;
        case 1: Prg::derive(nkey<32>(), aoff(), l, o); break;
        case 2: Prg::derive(nkey<32>(), l); break;
        case 3: Prg::derive(nkey<32>(), aoff(), l); break;
        case 4: {
            Out b(l);
            Prg::derive(nkey<32>(), aoff(), l, b.p());
            break;
        }
        case 5: {
            std::array<uint8_t, 1> a;
            Prg::derive(nkey<32>(), aoff(), a);
            break;
        }
        default: {
            Guard g((size_t)77);
            Prg::derive(nkey<32>(), aoff(), *reinterpret_cast<std::array<uint8_t, 77>*>(g.data()));
        }
        }
    });
    add("Prg keys", 4, [] {
        uint16_t off = (uint16_t)anum(), n = (uint16_t)rng().below(6);
        switch (rng().below(8)) {
        case 0: pool<M>().get().derive_key<1>(off); break;
        case 1: pool<M>().get().derive_key<16>(off); break;
        case 2: pool<M>().get().derive_key<200>(off); break;
        case 3: pool<M>().get().derive_keys<24>(n, off); break;
        case 4: pool<M>().get().derive_keys<32>(n); break;
        case 5: Prg::derive_key<32>(nkey<32>(), off); break;
        case 6: Prg::derive_keys<10>(nkey<32>(), n, off); break;
        default: Prg::derive_keys<65>(nkey<32>(), n, off);
        }
    });
}
static void prp_ops()
{
    typedef Prp M;
    kind<M>("Prp", [] { return std::unique_ptr<M>(rng().chance(1, 3) ? new M() : new M(nkey<48>())); });
    movable<M>("Prp");
    add("Prp raw", 6, [] {
        size_t l = alen();
        In     i(l, false);
        Out    o(l, false);
        if (rng().chance(1, 2)) pool<M>().get().encrypt(i.p(), (unsigned)l, o.p());
        else pool<M>().get().decrypt(i.p(), (unsigned)l, o.p());
    });
    add("Prp raw in place", 2, [] {
        size_t l = alen();
        Out    o(l, false);
        if (rng().chance(1, 2)) pool<M>().get().encrypt(o.p(), (unsigned)l, o.p());
        else pool<M>().get().decrypt(o.p(), (unsigned)l, o.p());
    });
    add("Prp string", 4, [] {
        std::string s = astr(), c = s, o = ostr();
        switch (rng().below(5)) {
        case 0: pool<M>().get().encrypt(s, o); break;
        case 1: pool<M>().get().decrypt(s, o); break;
        case 2: pool<M>().get().encrypt(s); break;
        case 3: pool<M>().get().decrypt(s); break;
        default:
            pool<M>().get().encrypt(s, s);
            c = s;
        }
        if (s != c) viol("input-changed", "Prp changed its input");
    });
    add("Prp numbers", 3, [] {
        M& m = pool<M>().get();
        m.encrypt((uint32_t)anum());
        m.decrypt((uint32_t)anum());
        m.encrypt_64(anum());
        m.decrypt_64(anum());
    });
}
static std::vector<Bytes>& ciphertexts()
{
    static auto* v = new std::vector<Bytes>;
    return *v;
}
static void cipher_ops()
{
    typedef Cipher M;
    kind<M>("Cipher", [] { return std::unique_ptr<M>(new M(nkey<32>())); });
    movable<M>("Cipher");
    add("Cipher encrypt", 5, [] {
        std::string s = astr(), c = s, o = ostr();
        if (rng().chance(1, 8)) {
            pool<M>().get().encrypt(s, s);
            return;
        }
        pool<M>().get().encrypt(s, o);
        if (s != c) viol("input-changed", "Cipher changed its input");
        ciphertexts().push_back(o);
        if (ciphertexts().size() > 20) ciphertexts().erase(ciphertexts().begin());
    });
    add("Cipher decrypt", 8, [] {
        std::string o = ostr(), c = astr();
        if (!ciphertexts().empty() && rng().chance(3, 4)) {
            c = ciphertexts()[rng().below(ciphertexts().size())];
            if (rng().chance(1, 3)) c.resize(rng().below(c.size() + 1));
            if (rng().chance(1, 3) && !c.empty()) c[rng().below(c.size())] ^= 4;
        }
        if (rng().chance(1, 8)) pool<M>().get().decrypt(c, c);
        else pool<M>().get().decrypt(c, o);
    });
    add("Cipher arrays", 3, [] {
        Guard m((size_t)9), c((size_t)41), r((size_t)9);
        auto& A = *reinterpret_cast<std::array<uint8_t, 9>*>(m.data());
        auto& B = *reinterpret_cast<std::array<uint8_t, 41>*>(c.data());
        auto& C = *reinterpret_cast<std::array<uint8_t, 9>*>(r.data());
        M&    x = pool<M>().get();
        m.ro();
        x.encrypt(A, B);
        c.ro();
        x.decrypt<9>(B, C);
        if (!c.front_ok() || !r.front_ok()) viol("output-overrun", "Cipher arrays");
        if (C != A) viol("wrong", "Cipher arrays do not round-trip");
        c.rw();
        B[rng().below(41)] ^= 1;
        c.ro();
        x.decrypt<9>(B, C);
    });
}
template<uint16_t N>
static void rc_ops()
{
    typedef RCPrf<N>            M;
    typedef ConstrainedRCPrf<N> C;
    std::string                 n = "RCPrf<" + std::to_string(N) + ">";
    kind<M>(n.c_str(), [] {
        uint8_t h = rng().chance(1, 3) ? (uint8_t)rng().next() : (uint8_t)rng().range(1, 66);
        if (rng().chance(1, 2)) h = (uint8_t)rng().range(2, 8);
        return std::unique_ptr<M>(new M(nkey<32>(), h));
    });
    movable<M>(n.c_str());
    pool<C>().make = [] {
        M& m = pool<M>().get();
        return std::unique_ptr<C>(new C(m.constrain(anum(), anum())));
    };
    kind<C>(("Constrained" + n).c_str(), pool<C>().make);
    movable<C>(("Constrained" + n).c_str());
    auto leaf = [](uint8_t h) {
        uint64_t m = h >= 65 ? ~0ull : h == 0 ? 0 : h == 64 ? (1ull << 63) - 1 : (1ull << (h - 1)) - 1;
        switch (rng().below(4)) {
        case 0: return anum();
        case 1: return m + rng().below(3) - 1;
        default: return rc::leaf_in(0, m);
        }
    };
    // a range the test can afford to enumerate, or a refused one
    auto range = [leaf](uint8_t h, uint64_t& a, uint64_t& b) {
        a = leaf(h);
        b = leaf(h);
        if (b >= a && b - a > 40) b = a + rng().below(40);
    };
    add(n + " eval", 4, [leaf] {
        M& m = pool<M>().get();
        m.eval(leaf(m.tree_height()));
    });
    add(n + " eval_range", 3, [range] {
        M&       m = pool<M>().get();
        uint64_t a, b;
        range(m.tree_height(), a, b);
        bool     thr = rng().chance(1, 5);
        unsigned k   = 0;
        m.eval_range(a, b, [&](uint64_t, std::array<uint8_t, N>) {
            if (thr && ++k == 2) throw std::runtime_error("callback");
        });
    });
    add(n + " eval_range no callback", 1, [range] {
        M&       m = pool<M>().get();
        uint64_t a, b;
        range(m.tree_height(), a, b);
        m.eval_range(a, b, std::function<void(uint64_t, std::array<uint8_t, N>)>());
    });
    add(n + " constrain", 4, [leaf] {
        M& m = pool<M>().get();
        pool<C>().v.emplace_back(new C(m.constrain(leaf(m.tree_height()), leaf(m.tree_height()))));
    });
    add("Constrained" + n + " eval", 4, [leaf] {
        C& c = pool<C>().get();
        if (rng().chance(1, 2) && !c.is_empty()) c.eval(rc::leaf_in(c.min_leaf(), c.max_leaf()));
        else c.eval(leaf(c.tree_height()));
    });
    add("Constrained" + n + " eval_range", 3, [range] {
        C&       c = pool<C>().get();
        uint64_t a, b;
        range(c.tree_height(), a, b);
        if (!c.is_empty() && rng().chance(2, 3)) {
            a = rc::leaf_in(c.min_leaf(), c.max_leaf());
            b = c.max_leaf();
            if (b - a > 40) b = a + rng().below(40);
        }
        bool     thr = rng().chance(1, 5);
        unsigned k   = 0;
        c.eval_range(a, b, [&](uint64_t, std::array<uint8_t, N>) {
            if (thr && ++k == 2) throw std::runtime_error("callback");
        });
    });
    add("Constrained" + n + " constrain", 4, [leaf] {
        C& c = pool<C>().get();
        if (rng().chance(2, 3) && !c.is_empty()) {
            uint64_t a = rc::leaf_in(c.min_leaf(), c.max_leaf()), b = rc::leaf_in(c.min_leaf(), c.max_leaf());
            if (a > b) std::swap(a, b);
            pool<C>().v.emplace_back(new C(c.constrain(a, b)));
        } else pool<C>().v.emplace_back(new C(c.constrain(leaf(c.tree_height()), leaf(c.tree_height()))));
    });
    add("Constrained" + n + " move assignment", 1, [] {
        C &a = pool<C>().get(), &b = pool<C>().get();
        a = std::move(b);
    });
    add("Constrained" + n + " bounds", 1, [] {
        C& c = pool<C>().get();
        c.min_leaf();
        c.max_leaf();
        c.is_empty();
        c.tree_height();
    });
}
static std::vector<std::vector<uint8_t>>& blobs()
{
    static auto* v = new std::vector<std::vector<uint8_t>>;
    return *v;
}
template<class T>
static void wrap_ops(const char* n, unsigned w)
{
    add(std::string("wrap ") + n, w, [] {
        blobs().push_back(pool<Wrapper>().get().wrap(pool<T>().get()));
        if (blobs().size() > 30) blobs().erase(blobs().begin() + (long)rng().below(20));
    });
    add(std::string("unwrap ") + n, w + 1, [] {
        std::vector<uint8_t> b(alen());
        rng().fill(b.data(), b.size());
        if (!blobs().empty() && rng().chance(7, 8)) {
            b = blobs()[rng().below(blobs().size())];
            if (rng().chance(1, 6)) b.resize(rng().below(b.size() + 1));
            if (rng().chance(1, 6) && !b.empty()) b[rng().below(b.size())] ^= 8;
        }
        b.shrink_to_fit();
        T t = pool<Wrapper>().get().template unwrap<T>(b);
        if (rng().chance(1, 2)) pool<T>().v.emplace_back(new T(std::move(t)));
    });
}
static std::vector<orc::Rsa>& rsas()
{
    static auto* v = new std::vector<orc::Rsa>;
    return *v;
}
static Bytes keytext(bool priv)
{
    orc::Rsa& r = rsas()[rng().below(rsas().size())];
    Bytes     t = (priv != rng().chance(1, 10)) ? r.pem_priv() : r.pem_pub();
    switch (rng().below(14)) {
    case 0: t.resize(rng().below(t.size() + 1)); break;
    case 1: t[rng().below(t.size())] ^= (char)(1 << rng().below(7)); break;
    case 2: t = astr(); break;
    case 3: t.insert(rng().below(t.size()), astr()); break;
    case 4: t.erase(rng().below(t.size()), rng().below(40)); break;
    default:;
    }
    t.shrink_to_fit();
    return t;
}
static Bytes amsg()
{
    switch (rng().below(6)) {
    case 0: return Bytes(256, '\xff');
    case 1: return Bytes(256, 0);
    case 2: return rng().bytes(alen());
    case 3: return Bytes(255, 0) + Bytes(1, (char)rng().below(3));
    default: return rng().bytes(256);
    }
}
static std::array<uint8_t, 256> aarr()
{
    Bytes m = amsg();
    m.resize(256);
    return to_arr<256>(m);
}
template<class T>
static void common_tdp_ops(const char* n)
{
    add(std::string(n) + " eval", 3, [] {
        std::string m = amsg(), c = m, o = ostr();
        if (rng().chance(1, 6)) pool<T>().get().eval(m, m);
        else {
            pool<T>().get().eval(m, o);
            if (m != c) viol("input-changed", "eval changed its input");
        }
    });
    add(std::string(n) + " eval array", 1, [] { pool<T>().get().eval(aarr()); });
    add(std::string(n) + " sample", 1, [] {
        pool<T>().get().sample();
        pool<T>().get().sample_array();
    });
    add(std::string(n) + " generate", 1, [] {
        T&                     t = pool<T>().get();
        Prf<Tdp::kRSAPrfSize>  f(nkey<32>());
        t.generate(f, astr());
        t.generate_array(f, astr());
    });
    add(std::string(n) + " generate from key", 1, [] {
        T& t = pool<T>().get();
        if (rng().chance(1, 2)) t.generate(nkey<32>(), astr());
        else t.generate_array(nkey<32>(), astr());
    });
    add(std::string(n) + " public key", 1, [] { pool<T>().get().public_key(); });
}
static void tdp_ops()
{
    kind<Tdp>("Tdp", [] { return std::unique_ptr<Tdp>(new Tdp(keytext(false))); });
    kind<TdpMultPool>("TdpMultPool", [] { return std::unique_ptr<TdpMultPool>(new TdpMultPool(keytext(false), (uint8_t)(rng().chance(1, 4) ? rng().below(256) : rng().below(6)))); });
    kind<TdpInverse>("TdpInverse", [] { return std::unique_ptr<TdpInverse>(new TdpInverse(keytext(true))); });
    common_tdp_ops<Tdp>("Tdp");
    common_tdp_ops<TdpInverse>("TdpInverse");
    common_tdp_ops<TdpMultPool>("TdpMultPool");
    add("Tdp copy", 1, [] { pool<Tdp>().v.emplace_back(new Tdp(pool<Tdp>().get())); });
    add("Tdp assignment", 1, [] {
        Tdp &a = pool<Tdp>().get(), &b = pool<Tdp>().get();
        a = b;
    });
    add("TdpMultPool copy", 1, [] { pool<TdpMultPool>().v.emplace_back(new TdpMultPool(pool<TdpMultPool>().get())); });
    add("TdpMultPool assignment", 1, [] {
        TdpMultPool &a = pool<TdpMultPool>().get(), &b = pool<TdpMultPool>().get();
        a = b;
    });
    add("TdpMultPool orders", 2, [] {
        TdpMultPool& p = pool<TdpMultPool>().get();
        std::string  m = amsg(), o = ostr();
        uint8_t      k = (uint8_t)(rng().chance(1, 3) ? rng().below(256) : rng().below(8));
        switch (rng().below(4)) {
        case 0: p.eval(m, o, k); break;
        case 1: p.eval(m, m, k); break;
        case 2: p.eval(m, k); break;
        default: p.eval(aarr(), k);
        }
        p.maximum_order();
    });
    add("TdpInverse invert", 1, [] {
        TdpInverse& p = pool<TdpInverse>().get();
        std::string m = amsg(), o = ostr();
        switch (rng().below(4)) {
        case 0: p.invert(m, o); break;
        case 1: p.invert(m, m); break;
        case 2: p.invert(m); break;
        default: p.invert(aarr());
        }
    });
    add("TdpInverse invert_mult", 1, [] {
        TdpInverse& p = pool<TdpInverse>().get();
        std::string m = amsg(), o = ostr();
        uint32_t    k = (uint32_t)anum();
        switch (rng().below(4)) {
        case 0: p.invert_mult(m, o, k); break;
        case 1: p.invert_mult(m, m, k); break;
        case 2: p.invert_mult(m, k); break;
        default: p.invert_mult(aarr(), k);
        }
    });
    add("TdpInverse private key", 1, [] { pool<TdpInverse>().get().private_key(); });
}
static void set_ops()
{
    typedef SetHash M;
    kind<M>("SetHash", []() -> std::unique_ptr<M> {
        switch (rng().below(5)) {
        case 0: return std::unique_ptr<M>(new M());
        case 1: return std::unique_ptr<M>(new M(to_arr<SetHash::kSetHashSize>(rng().bytes(SetHash::kSetHashSize))));
        case 2: {
            std::vector<std::string> l(rng().below(5));
            for (auto& s : l) s = astr();
            return std::unique_ptr<M>(new M(l));
        }
        case 3:
            if (!pool<M>().v.empty()) return std::unique_ptr<M>(new M(pool<M>().v.back()->data()));
            // fallthrough
        default: return std::unique_ptr<M>(pool<M>().v.empty() ? new M() : new M(*pool<M>().v.back()));
        }
    });
    movable<M>("SetHash");
    add("SetHash elements", 4, [] {
        pool<M>().get().add_element(astr());
        pool<M>().get().remove_element(astr());
    });
    add("SetHash sets", 3, [] {
        M &a = pool<M>().get(), &b = pool<M>().get();
        if (rng().chance(1, 2)) a.add_set(b);
        else a.remove_set(b);
    });
    add("SetHash comparison", 1, [] {
        M &a = pool<M>().get(), &b = pool<M>().get();
        if ((a == b) == (a != b)) viol("wrong", "SetHash comparison");
        std::ostringstream s;
        s << a;
        a = b;
    });
}
static void other_ops()
{
    add("random", 2, [] {
        size_t l = alen();
        Out    o(l, false);
        random_bytes(l, o.p());
        random_string(alen());
        random_bytes<uint16_t, 3>();
        std::array<uint32_t, 5> a;
        random_bytes(a);
    });
    add("strstrn", 3, [] {
        In a(rng().below(40), false), b(rng().below(4), false);
        strstrn_uint8(a.p(), a.copy.size(), b.p(), b.copy.size());
        In c(Bytes(rng().below(9), 'x')), d(Bytes(rng().below(4), 'x'));
        strstrn_uint8(c.p(), c.copy.size(), d.p(), d.copy.size());
    });
}

static void init_cycles()
{
    // the library is started and stopped again, as a program may do
    for (int i = 0; i < 3; i++) {
        note("stop and start %d", i);
        cleanup_crypto_lib();
        init_crypto_lib();
        tally("restarts");
    }
    note("start twice");
    init_crypto_lib();
    Prp p;
    p.encrypt("still working");
}
void vh::run()
{
    for (unsigned e : {0u, 1u}) rsas().push_back(orc::make_rsa(rng(), 2048, orc::exponent(e)));
    if (ctx().shard % 3 == 1) rsas().push_back(orc::make_rsa(rng(), 1024, orc::exponent(0)));
    size_t base = sec::st().live.size();
    key_ops<1>();
    key_ops<32>();
    key_ops<100>();
    key_ops<5000>();
    Hash_ops();
    hash_ops<hash::blake2b>("blake2b");
    hash_ops<hash::sha512>("sha512");
    mac_ops<Hash, 16>("Hash");
    mac_ops<Hash, 128>("Hash");
    mac_ops<Hash, 129>("Hash");
    mac_ops<hash::sha512, 300>("sha512");
    prf_ops<1>();
    prf_ops<64>();
    prf_ops<65>();
    prf_ops<128>();
    prf_ops<1024>();
    prf_ops<16385>();
    prg_ops();
    prp_ops();
    cipher_ops();
    rc_ops<1>();
    rc_ops<16>();
    rc_ops<64>();
    kind<Wrapper>("Wrapper", [] {
        static Bytes* k = new Bytes(rng().bytes(32));
        if (rng().chance(2, 3)) {
            Bytes c = *k;
            return std::unique_ptr<Wrapper>(new Wrapper(Key<32>(reinterpret_cast<uint8_t*>(&c[0]))));
        }
        return std::unique_ptr<Wrapper>(new Wrapper(nkey<32>()));
    });
    movable<Wrapper>("Wrapper");
    add("Wrapper move assignment", 1, [] {
        Wrapper &a = pool<Wrapper>().get(), &b = pool<Wrapper>().get();
        a = std::move(b);
    });
    wrap_ops<Cipher>("Cipher", 2);
    wrap_ops<Prg>("Prg", 2);
    wrap_ops<Prp>("Prp", 2);
    wrap_ops<Prf<64>>("Prf<64>", 2);
    wrap_ops<Prf<1024>>("Prf<1024>", 2);
    wrap_ops<RCPrf<16>>("RCPrf<16>", 3);
    wrap_ops<ConstrainedRCPrf<16>>("ConstrainedRCPrf<16>", 4);
    wrap_ops<RCPrf<64>>("RCPrf<64>", 1);
    wrap_ops<ConstrainedRCPrf<64>>("ConstrainedRCPrf<64>", 2);
    wrap_ops<TdpInverse>("TdpInverse", 1);
    tdp_ops();
    set_ops();
    other_ops();

    std::vector<unsigned> bag;
    for (unsigned i = 0; i < g_ops.size(); i++) bag.insert(bag.end(), g_ops[i].weight, i);
    std::vector<uint64_t> good(g_ops.size(), 0), bad(g_ops.size(), 0);
    uint64_t              n = ctx().thorough ? 200000 : 12000;
    if (const char* e = getenv("VH_STEPS")) n = strtoull(e, nullptr, 10);
    for (uint64_t s = 0; s < n; s++) {
        unsigned k = s < g_ops.size() ? (unsigned)s : bag[rng().below(bag.size())];
        note("step %llu: %s", (unsigned long long)s, g_ops[k].name.c_str());
        try {
            g_ops[k].f();
            good[k]++;
        } catch (const std::exception&) {
            bad[k]++;
        }
        for (auto& c : g_trim) c();
        // everything goes away now and then; nothing may remain
        if (rng().chance(1, 600)) {
            for (auto& c : g_clear) c();
            if (sec::st().live.size() != base) {
                viol("secure-leak", "%zu blocks of key memory remain after every object was destroyed", sec::st().live.size() - base);
                base = sec::st().live.size();
            }
            tally("clearances");
        }
        if (s % 3000 == 1500 && ctx().shard % 4 == 0) init_cycles();
    }
    for (auto& c : g_clear) c();
    if (sec::st().live.size() != base) viol("secure-leak", "%zu blocks of key memory remain at the end", sec::st().live.size() - base);
    for (unsigned i = 0; i < g_ops.size(); i++) {
        tally("calls_returned", good[i]);
        tally("calls_thrown", bad[i]);
        if (good[i]) seen("returned/" + g_ops[i].name);
        if (bad[i]) seen("thrown/" + g_ops[i].name);
        tally("operations_which_returned", good[i] != 0);
        tally("operations_which_threw", bad[i] != 0);
    }
    // the harness's own keepsakes
    blobs().clear();
    ciphertexts().clear();
}
