// Every kind of object a Wrapper can handle, behind one interface.
#pragma once
#include "golden_aez.hpp"
#include "rcadapt.hpp"
#include "rsakeys.hpp"
#include <sse/crypto/cipher.hpp>
#include <sse/crypto/prf.hpp>
#include <sse/crypto/prg.hpp>
#include <sse/crypto/prp.hpp>
#include <sse/crypto/tdp.hpp>
#include "tdp_impl/tdp_impl.hpp"
namespace obj {
using namespace sse::crypto;
struct Obj
{
    virtual ~Obj() {}
    virtual Bytes wrap(const Wrapper&) = 0;
    // outputs observed through the public interface on the probe `x`
    virtual Bytes probe(const Bytes& x) = 0;
    virtual void  bounce() {}
};
struct Kind
{
    std::string name;
    uint8_t     type;
    Bytes       context;
    size_t      keylen; // bytes of secret needed to make one
    // make an object; want_content receives the expected serialisation and
    // want_probe a predictor of its outputs
    std::function<std::unique_ptr<Obj>(const Bytes& secret, Bytes* content)> make;
    std::function<Bytes(const Bytes& secret, const Bytes& x)>               predict;
    std::function<std::unique_ptr<Obj>(const Wrapper&, std::vector<uint8_t>& blob)> unwrap;
    bool slow = false;
};
template<size_t N>
inline Key<N> K(const Bytes& b)
{
    Bytes k = b.substr(0, N);
    if (k.size() != N) {
        vh::harness_error("key size");
    }
    return Key<N>(reinterpret_cast<uint8_t*>(&k[0]));
}
template<class T>
struct Base : Obj
{
    std::unique_ptr<T> o;
    explicit Base(T&& x) : o(new T(std::move(x)))
    {
    }
    Bytes wrap(const Wrapper& w) override
    {
        auto v = w.wrap(*o);
        return Bytes(v.begin(), v.end());
    }
    void bounce() override
    {
        o.reset(new T(std::move(*o)));
    }
};
struct OCipher : Base<Cipher>
{
    using Base::Base;
    Bytes master; // for the oracle side of the probe
    Bytes probe(const Bytes& x) override
    {
        // deterministic part: decrypt a ciphertext made by the oracle
        std::string p, c;
        o->decrypt(x, p);
        o->encrypt(p, c);
        std::string p2;
        o->decrypt(c, p2);
        return p + p2;
    }
};
template<uint16_t N>
struct OPrf : Base<Prf<N>>
{
    using Base<Prf<N>>::Base;
    Bytes probe(const Bytes& x) override
    {
        return vh::from_arr(this->o->prf(x));
    }
};
struct OPrg : Base<Prg>
{
    using Base::Base;
    Bytes probe(const Bytes& x) override
    {
        size_t off = x.size() > 2 ? (uint8_t)x[0] * 7 + (uint8_t)x[1] : 0;
        return o->derive(off, 77) + o->derive(200);
    }
};
struct OPrp : Base<Prp>
{
    using Base::Base;
    Bytes probe(const Bytes& x) override
    {
        std::string c = o->encrypt(x), d = o->decrypt(c);
        return c + d;
    }
};
struct OTdp : Base<TdpInverse>
{
    using Base::Base;
    Bytes probe(const Bytes& x) override
    {
        Bytes m = Bytes(256 - 32, 0) + orc::blake2b512(x).substr(0, 32);
        return o->public_key() + o->private_key() + o->invert(m) + o->eval(m) + o->invert_mult(m, 3);
    }
};
template<uint16_t N>
Kind prf_kind()
{
    Kind k;
    k.name    = "Prf<" + std::to_string(N) + ">";
    k.type    = 2;
    k.context = orc::be16(N);
    k.keylen  = 32;
    k.make    = [](const Bytes& s, Bytes* c) {
        if (c) *c = s;
        return std::unique_ptr<Obj>(new OPrf<N>(Prf<N>(K<32>(s))));
    };
    k.predict = [](const Bytes& s, const Bytes& x) { return orc::prf(s, x, N); };
    k.unwrap  = [](const Wrapper& w, std::vector<uint8_t>& b) { return std::unique_ptr<Obj>(new OPrf<N>(w.unwrap<Prf<N>>(b))); };
    return k;
}
// secret of the tree kinds: key32 || height || min8 || max8 (LE)
inline uint64_t le(const Bytes& s, size_t o)
{
    uint64_t v;
    memcpy(&v, s.data() + o, 8);
    return v;
}
inline Bytes tree_secret(const Bytes& key, unsigned h, uint64_t a, uint64_t b)
{
    Bytes s = key + char(h);
    s.append((char*)&a, 8);
    s.append((char*)&b, 8);
    return s;
}
struct OTree : Obj
{
    std::unique_ptr<rc::Any> p;
    Bytes wrap(const Wrapper& w) override
    {
        return p->wrap(w);
    }
    void bounce() override
    {
        p->bounce();
    }
    Bytes probe(const Bytes& x) override
    {
        Bytes o = std::to_string(p->height()) + "/" + std::to_string(p->min()) + "/" + std::to_string(p->max()) + "/";
        if (p->empty()) {
            return o + "empty";
        }
        uint64_t w = p->max() - p->min();
        uint64_t s = x.size() >= 8 ? le(x, 0) : 0;
        uint64_t l = p->min() + (w == ~0ull ? s : s % (w + 1));
        o += p->eval(p->min()) + p->eval(p->max()) + p->eval(l);
        p->eval_range(l, std::min(p->max() - l, (uint64_t)5) + l, [&](uint64_t i, const Bytes& v) { o += std::to_string(i) + v; });
        return o;
    }
};
inline Bytes tree_predict(size_t n, const Bytes& s, const Bytes& x, bool con)
{
    orc::Tree t{(unsigned)(uint8_t)s[32], s.substr(0, 32), n};
    uint64_t  a = con ? le(s, 33) : 0, b = con ? le(s, 41) : t.last();
    Bytes     o = std::to_string(t.h) + "/" + std::to_string(a) + "/" + std::to_string(b) + "/";
    uint64_t  w = b - a;
    uint64_t  sd = x.size() >= 8 ? le(x, 0) : 0;
    uint64_t  l = a + (w == ~0ull ? sd : sd % (w + 1));
    o += t.leaf(a) + t.leaf(b) + t.leaf(l);
    for (uint64_t i = l;; i++) {
        o += std::to_string(i) + t.leaf(i);
        if (i == std::min(b - l, (uint64_t)5) + l) {
            break;
        }
    }
    return o;
}
// minimal exact cover of [a,b], as the tree construction yields it
inline void cover(const orc::Tree& t, unsigned sh, uint64_t lo, uint64_t a, uint64_t b, std::vector<orc::Elt>& out)
{
    uint64_t w = (1ull << (sh - 1)) - 1, hi = lo + w;
    if (b < lo || a > hi) {
        return;
    }
    if (a <= lo && hi <= b) {
        orc::Elt e;
        e.sh  = sh;
        e.min = lo;
        e.max = hi;
        e.key = sh == 1 ? t.leaf(lo) : t.node(sh, lo);
        out.push_back(e);
        return;
    }
    cover(t, sh - 1, lo, a, b, out);
    cover(t, sh - 1, lo + (w + 1) / 2, a, b, out);
}
inline Bytes con_content(const orc::Tree& t, uint64_t a, uint64_t b)
{
    std::vector<orc::Elt> e;
    cover(t, t.h, 0, a, b, e);
    Bytes    o(1, char(t.h));
    uint32_t n = (uint32_t)e.size();
    o.append((char*)&n, 4);
    for (auto& x : e) {
        o += char(x.sh);
        o.append((char*)&x.min, 8);
        o.append((char*)&x.max, 8);
        o += x.key;
    }
    return o;
}
inline Kind tree_kind(const rc::Kind& r, bool con)
{
    Kind k;
    k.name    = (con ? "ConstrainedRCPrf<" : "RCPrf<") + std::to_string(r.n) + ">";
    k.type    = con ? 6 : 5;
    k.context = orc::be16(r.n);
    k.keylen  = 49;
    k.make    = [r, con](const Bytes& s, Bytes* c) {
        std::unique_ptr<OTree> o(new OTree);
        o->p = r.master(s.substr(0, 32), (uint8_t)s[32]);
        if (con) {
            o->p = o->p->constrain(le(s, 33), le(s, 41));
        }
        if (c) {
            // the elements are exported by increasing index: the same cover
            *c = con ? con_content(orc::Tree{(unsigned)(uint8_t)s[32], s.substr(0, 32), r.n}, le(s, 33), le(s, 41)) : Bytes(1, s[32]) + s.substr(0, 32);
        }
        return std::unique_ptr<Obj>(std::move(o));
    };
    k.predict = [r, con](const Bytes& s, const Bytes& x) { return tree_predict(r.n, s, x, con); };
    k.unwrap  = [r, con](const Wrapper& w, std::vector<uint8_t>& b) {
        std::unique_ptr<OTree> o(new OTree);
        Bytes                  s(b.begin(), b.end());
        try {
            o->p = con ? r.unwrap_con(w, s) : r.unwrap_mas(w, s);
        } catch (...) {
            b.assign(s.begin(), s.end());
            throw;
        }
        b.assign(s.begin(), s.end());
        return std::unique_ptr<Obj>(std::move(o));
    };
    return k;
}
// a random secret for a kind
inline Bytes secret_for(const Kind& k)
{
    auto& r = vh::rng();
    if (k.keylen != 49) {
        return r.bytes(k.keylen);
    }
    unsigned h = r.chance(1, 3) ? (unsigned)r.range(2, 6) : (unsigned)r.range(2, 64);
    uint64_t L = (1ull << (h - 1)) - 1, a = rc::leaf_in(0, L), b = rc::leaf_in(0, L);
    if (a > b) {
        std::swap(a, b);
    }
    if (a == 0 && b == L) {
        a = 1;
    }
    return tree_secret(r.bytes(32), h, a, b);
}
inline std::vector<orc::Rsa>& rsa_pool()
{
    static std::vector<orc::Rsa> v;
    return v;
}
inline unsigned ctx_shift()
{
    return vh::ctx().shard;
}
inline void fill_rsa_pool(unsigned n)
{
    while (rsa_pool().size() < n) {
        unsigned i = (unsigned)rsa_pool().size();
        rsa_pool().push_back(orc::make_rsa(vh::rng(), 2048, orc::exponent(i + ctx_shift())));
    }
}
} // namespace obj
namespace obj {
// all kinds but the trapdoor permutation
inline const std::vector<Kind>& kinds()
{
    static std::vector<Kind> v;
    if (v.empty()) {
        Kind c;
        c.name   = "Cipher";
        c.type   = 1;
        c.keylen = 32;
        c.make   = [](const Bytes& s, Bytes* o) {
            if (o) *o = s;
            return std::unique_ptr<Obj>(new OCipher(Cipher(K<32>(s))));
        };
        c.unwrap = [](const Wrapper& w, std::vector<uint8_t>& b) { return std::unique_ptr<Obj>(new OCipher(w.unwrap<Cipher>(b))); };
        v.push_back(c);
        v.push_back(prf_kind<1>());
        v.push_back(prf_kind<12>());
        v.push_back(prf_kind<16>());
        v.push_back(prf_kind<32>());
        v.push_back(prf_kind<64>());
        v.push_back(prf_kind<100>());
        v.push_back(prf_kind<256>());
        v.push_back(prf_kind<257>());
        v.push_back(prf_kind<264>());
        v.push_back(prf_kind<512>());
        Kind g;
        g.name   = "Prg";
        g.type   = 3;
        g.keylen = 32;
        g.make   = [](const Bytes& s, Bytes* o) {
            if (o) *o = s;
            return std::unique_ptr<Obj>(new OPrg(Prg(K<32>(s))));
        };
        g.predict = [](const Bytes& s, const Bytes& x) {
            size_t off = x.size() > 2 ? (uint8_t)x[0] * 7 + (uint8_t)x[1] : 0;
            return orc::prg(s, off, 77) + orc::prg(s, 0, 200);
        };
        g.unwrap = [](const Wrapper& w, std::vector<uint8_t>& b) { return std::unique_ptr<Obj>(new OPrg(w.unwrap<Prg>(b))); };
        v.push_back(g);
        Kind p;
        p.name   = "Prp";
        p.type   = 4;
        p.keylen = 48;
        p.make   = [](const Bytes& s, Bytes* o) {
            if (o) {
                GoldenPrp r(s);
                *o = Bytes((char*)&r.c, sizeof r.c);
            }
            return std::unique_ptr<Obj>(new OPrp(Prp(K<48>(s))));
        };
        p.predict = [](const Bytes& s, const Bytes& x) { return GoldenPrp(s).enc(x) + x; };
        p.unwrap  = [](const Wrapper& w, std::vector<uint8_t>& b) { return std::unique_ptr<Obj>(new OPrp(w.unwrap<Prp>(b))); };
        v.push_back(p);
        for (auto& r : rc::kinds()) {
            v.push_back(tree_kind(r, false));
            v.push_back(tree_kind(r, true));
        }
    }
    return v;
}
inline std::vector<Kind> big_kinds()
{
    std::vector<Kind> v = {prf_kind<40000>(), prf_kind<65535>()};
    for (auto& r : rc::big_kinds()) {
        v.push_back(tree_kind(r, false));
        v.push_back(tree_kind(r, true));
    }
    return v;
}
inline Kind tdp_kind()
{
    // the secret is the index of a key of the pool (1 byte)
    Kind k;
    k.name   = "TdpInverse";
    k.type   = 7;
    k.keylen = 1;
    k.slow   = true;
    k.make   = [](const Bytes& s, Bytes* o) {
        const orc::Rsa& r = rsa_pool()[(uint8_t)s[0] % rsa_pool().size()];
        if (o) *o = r.pem_priv();
        return std::unique_ptr<Obj>(new OTdp(TdpInverse(r.pem_priv())));
    };
    k.predict = [](const Bytes& s, const Bytes& x) {
        const orc::Rsa& r = rsa_pool()[(uint8_t)s[0] % rsa_pool().size()];
        Bytes           m = Bytes(256 - 32, 0) + orc::blake2b512(x).substr(0, 32);
        return r.pem_pub() + r.pem_priv() + r.inv(m) + r.eval(m) + r.inv(r.inv(r.inv(m)));
    };
    k.unwrap = [](const Wrapper& w, std::vector<uint8_t>& b) { return std::unique_ptr<Obj>(new OTdp(w.unwrap<TdpInverse>(b))); };
    return k;
}
// a probe input for the kind, and the predicted result
inline Bytes probe_for(const Kind& k, const Bytes& secret, Bytes* want)
{
    auto& r = vh::rng();
    if (k.type == 1) {
        Bytes m = r.bytes(1 + r.below(90)), c = orc::cipher_encrypt(secret, r.bytes(16), m);
        *want = m + m;
        return c;
    }
    Bytes x = k.type == 4 ? r.bytes(1 + r.below(70)) : r.bytes(8 + r.below(60));
    *want   = k.predict(secret, x);
    return x;
}
} // namespace obj
