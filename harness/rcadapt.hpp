// Type-erased view of RCPrf<N>/ConstrainedRCPrf<N>, so that workloads are
// compiled once.
#pragma once
#include "rcmodel.hpp"
#include <sse/crypto/rcprf.hpp>
#include <sse/crypto/wrapper.hpp>
namespace rc {
using namespace sse::crypto;
typedef std::function<void(uint64_t, const Bytes&)> CB;
struct Any
{
    virtual ~Any() {}
    virtual Bytes                eval(uint64_t)                         = 0;
    virtual void                 eval_range(uint64_t, uint64_t, const CB&) = 0;
    virtual std::unique_ptr<Any> constrain(uint64_t, uint64_t)          = 0;
    virtual Bytes                wrap(const Wrapper&)                   = 0;
    virtual void                 bounce()                               = 0; // move out and back
    virtual unsigned             height()                               = 0;
    virtual uint64_t             min()                                  = 0;
    virtual uint64_t             max()                                  = 0;
    virtual bool                 empty()                                = 0;
};
template<uint16_t N>
struct Con : Any
{
    ConstrainedRCPrf<N> p;
    explicit Con(ConstrainedRCPrf<N>&& x) : p(std::move(x))
    {
    }
    Bytes eval(uint64_t l) override
    {
        return vh::from_arr(p.eval(l));
    }
    void eval_range(uint64_t a, uint64_t b, const CB& f) override
    {
        p.eval_range(a, b, [&](uint64_t l, const std::array<uint8_t, N>& v) { f(l, vh::from_arr(v)); });
    }
    std::unique_ptr<Any> constrain(uint64_t a, uint64_t b) override
    {
        return std::unique_ptr<Any>(new Con<N>(p.constrain(a, b)));
    }
    Bytes wrap(const Wrapper& w) override
    {
        auto v = w.wrap(p);
        return Bytes(v.begin(), v.end());
    }
    void bounce() override
    {
        ConstrainedRCPrf<N> q(std::move(p));
        p = std::move(q);
    }
    unsigned height() override
    {
        return p.tree_height();
    }
    uint64_t min() override
    {
        return p.min_leaf();
    }
    uint64_t max() override
    {
        return p.max_leaf();
    }
    bool empty() override
    {
        return p.is_empty();
    }
};
template<uint16_t N>
struct Mas : Any
{
    std::unique_ptr<RCPrf<N>> p;
    explicit Mas(RCPrf<N>&& x) : p(new RCPrf<N>(std::move(x)))
    {
    }
    Bytes eval(uint64_t l) override
    {
        return vh::from_arr(p->eval(l));
    }
    void eval_range(uint64_t a, uint64_t b, const CB& f) override
    {
        p->eval_range(a, b, [&](uint64_t l, const std::array<uint8_t, N>& v) { f(l, vh::from_arr(v)); });
    }
    std::unique_ptr<Any> constrain(uint64_t a, uint64_t b) override
    {
        return std::unique_ptr<Any>(new Con<N>(p->constrain(a, b)));
    }
    Bytes wrap(const Wrapper& w) override
    {
        auto v = w.wrap(*p);
        return Bytes(v.begin(), v.end());
    }
    void bounce() override
    {
        p.reset(new RCPrf<N>(std::move(*p)));
    }
    unsigned height() override
    {
        return p->tree_height();
    }
    uint64_t min() override
    {
        return 0;
    }
    uint64_t max() override
    {
        return height() >= 65 ? ~0ull : (1ull << (height() - 1)) - 1;
    }
    bool empty() override
    {
        return false;
    }
};
struct Kind
{
    unsigned n;
    std::unique_ptr<Any> (*master)(const Bytes& key, unsigned h);
    std::unique_ptr<Any> (*unwrap_con)(const Wrapper&, Bytes& blob);
    std::unique_ptr<Any> (*unwrap_mas)(const Wrapper&, Bytes& blob);
    // a constrained PRF put together from parts, in the order given; the
    // tree height is given for each part
    std::unique_ptr<Any> (*assemble)(const std::vector<orc::Elt>& parts, const std::vector<unsigned>& heights);
};
template<uint16_t N>
std::unique_ptr<ConstrainedRCPrfElement<N>> part(const orc::Elt& e, unsigned h)
{
    if (e.sh == 1) {
        std::array<uint8_t, N> v;
        memcpy(v.data(), e.key.data(), N);
        return std::unique_ptr<ConstrainedRCPrfElement<N>>(new ConstrainedRCPrfLeafElement<N>(v, (uint8_t)h, e.min));
    }
    Bytes b = e.key;
    return std::unique_ptr<ConstrainedRCPrfElement<N>>(
        new ConstrainedRCPrfInnerElement<N>(Key<32>(reinterpret_cast<uint8_t*>(&b[0])), (uint8_t)h, (uint8_t)e.sh, e.min, e.max));
}
// the parts of the tree which cover [a,b]; some are split further
inline void cover(const orc::Tree& t, unsigned sh, uint64_t lo, uint64_t a, uint64_t b, unsigned split, std::vector<orc::Elt>& out)
{
    uint64_t hi = lo + ((1ull << (sh - 1)) - 1);
    if (b < lo || a > hi) {
        return;
    }
    if (sh < t.h && a <= lo && hi <= b && !(sh > 1 && split && vh::rng().chance(1, split))) {
        out.push_back(orc::Elt{sh, lo, hi, sh == 1 ? t.leaf(lo) : t.node(sh, lo)});
        return;
    }
    uint64_t mid = lo + (1ull << (sh - 2));
    cover(t, sh - 1, lo, a, b, split, out);
    cover(t, sh - 1, mid, a, b, split, out);
}
template<class V>
void shuffle(V& v)
{
    for (size_t i = v.size(); i > 1; i--) {
        std::swap(v[i - 1], v[vh::rng().below(i)]);
    }
}
template<uint16_t N>
Kind kind()
{
    Kind k;
    k.n      = N;
    k.master = [](const Bytes& key, unsigned h) {
        Bytes b = key;
        return std::unique_ptr<Any>(new Mas<N>(RCPrf<N>(Key<32>(reinterpret_cast<uint8_t*>(&b[0])), (uint8_t)h)));
    };
    k.unwrap_con = [](const Wrapper& w, Bytes& blob) {
        std::vector<uint8_t> v(blob.begin(), blob.end());
        std::unique_ptr<Any> r;
        try {
            r.reset(new Con<N>(w.unwrap<ConstrainedRCPrf<N>>(v)));
        } catch (...) {
            blob.assign(v.begin(), v.end());
            throw;
        }
        blob.assign(v.begin(), v.end());
        return r;
    };
    k.unwrap_mas = [](const Wrapper& w, Bytes& blob) {
        std::vector<uint8_t> v(blob.begin(), blob.end());
        std::unique_ptr<Any> r;
        try {
            r.reset(new Mas<N>(w.unwrap<RCPrf<N>>(v)));
        } catch (...) {
            blob.assign(v.begin(), v.end());
            throw;
        }
        blob.assign(v.begin(), v.end());
        return r;
    };
    k.assemble = [](const std::vector<orc::Elt>& parts, const std::vector<unsigned>& heights) {
        std::vector<std::unique_ptr<ConstrainedRCPrfElement<N>>> v;
        for (size_t i = 0; i < parts.size(); i++) {
            v.push_back(part<N>(parts[i], heights[i]));
        }
        return std::unique_ptr<Any>(new Con<N>(ConstrainedRCPrf<N>(std::move(v))));
    };
    return k;
}
inline const std::vector<Kind>& kinds()
{
    static const std::vector<Kind> v = {kind<16>(), kind<32>(), kind<1>(), kind<20>(), kind<33>(), kind<64>(), kind<100>(), kind<300>()};
    return v;
}
// leaves so long that a few of them do not fit in 64 KiB
inline const std::vector<Kind>& big_kinds()
{
    static const std::vector<Kind> v = {kind<5000>(), kind<40000>(), kind<65535>()};
    return v;
}
inline Wrapper wrapper(const Bytes& key)
{
    Bytes b = key;
    return Wrapper(Key<32>(reinterpret_cast<uint8_t*>(&b[0])));
}
// an interesting leaf index of [0,last]: near 0, last, powers of two, middle
inline uint64_t leaf_in(uint64_t lo, uint64_t hi)
{
    auto& r = vh::rng();
    uint64_t w = hi - lo, x;
    switch (r.below(6)) {
    case 0: x = r.below(4); break;
    case 1: x = w - std::min<uint64_t>(w, r.below(4)); break;
    case 2:
    case 3: {
        // absolute position near a multiple of a power of two
        uint64_t b = r.below(63);
        uint64_t base = b == 0 ? 0 : ((lo + r.range(0, w)) >> b) << b;
        uint64_t y = base + r.below(3) - 1;
        return std::min(hi, std::max(lo, y));
    }
    default: x = r.range(0, w);
    }
    return lo + std::min(w, x);
}
} // namespace rc
