// C09: constrained evaluation agrees with the master PRF and the tree model.
#include "reborn.hpp"
#include "rcadapt.hpp"
using namespace vh;
using rc::Any;
typedef std::vector<std::pair<uint64_t, uint64_t>> Chain;
static std::string show(const Chain& c)
{
    std::string s;
    for (auto& x : c) {
        s += "[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]";
    }
    return s;
}
struct Ref
{
    orc::Tree t;
    std::map<uint64_t, Bytes> memo;
    const Bytes& leaf(uint64_t l)
    {
        auto it = memo.find(l);
        if (it == memo.end()) {
            if (memo.size() > 20000) {
                memo.clear();
            }
            it = memo.emplace(l, t.leaf(l)).first;
        }
        return it->second;
    }
};
static void check_eval(Any& p, Ref& t, uint64_t l)
{
    Bytes v;
    if (must("eval-throws", [&] { v = p.eval(l); }) && v != t.leaf(l)) {
        viol("eval", "leaf %llu: got %s want %s", (unsigned long long)l, hex(v).c_str(), hex(t.leaf(l)).c_str());
    }
    tally("leaf_evals");
}
static void check_range(Any& p, Ref& t, uint64_t a, uint64_t b, bool reenter = false)
{
    uint64_t next = a;
    bool     ok = true, over = false;
    if (!must("eval_range-throws", [&] {
            p.eval_range(a, b, [&](uint64_t l, const Bytes& v) {
                if (over || l != next) {
                    ok = false;
                }
                if (l >= a && l <= b && v != t.leaf(l)) {
                    viol("range-value", "range [%llu,%llu] leaf %llu: got %s want %s", (unsigned long long)a, (unsigned long long)b,
                         (unsigned long long)l, hex(v).c_str(), hex(t.leaf(l)).c_str());
                }
                over = l == b;
                next = l + 1;
                if (reenter) {
                    check_eval(p, t, l);
                }
            });
        })) {
        return;
    }
    if (!ok || !over) {
        viol("range-visit", "range [%llu,%llu]: leaves are not visited once each in order (stopped before %llu)", (unsigned long long)a,
             (unsigned long long)b, (unsigned long long)next);
    }
    tally("range_evals");
    tally("range_leaves", b - a + 1);
}
static void bounds(Any& p, uint64_t a, uint64_t b, unsigned h)
{
    if (p.min() != a || p.max() != b || p.height() != h || p.empty()) {
        viol("bounds", "reported [%llu,%llu] height %u empty %d", (unsigned long long)p.min(), (unsigned long long)p.max(), p.height(), p.empty());
    }
}
// every range, every leaf, every sub-range of small trees
static void exhaustive(const rc::Kind& k, unsigned h, unsigned nest)
{
    Bytes key = rng().bytes(32);
    Ref   t{orc::Tree{h, key, k.n}, {}};
    auto  m = k.master(key, h);
    uint64_t L = t.t.last();
    note("exhaustive N=%u h=%u key=%s", k.n, h, hex(key).c_str());
    bounds(*m, 0, L, h);
    for (uint64_t l = 0; l <= L; l++) {
        check_eval(*m, t, l);
    }
    for (uint64_t a = 0; a <= L; a++) {
        for (uint64_t b = a; b <= L; b++) {
            note("exhaustive N=%u h=%u range=[%llu,%llu]", k.n, h, (unsigned long long)a, (unsigned long long)b);
            check_range(*m, t, a, b);
            if (a == 0 && b == L) {
                continue;
            }
            std::unique_ptr<Any> c;
            if (!must("constrain-throws", [&] { c = m->constrain(a, b); })) {
                continue;
            }
            bounds(*c, a, b, h);
            for (uint64_t l = a; l <= b; l++) {
                check_eval(*c, t, l);
            }
            check_range(*c, t, a, b);
            seenf("ex/%u/%u/%llu/%llu", k.n, h, (unsigned long long)a, (unsigned long long)b);
            if (h > nest) {
                continue;
            }
            for (uint64_t x = a; x <= b; x++) {
                for (uint64_t y = x; y <= b; y++) {
                    note("exhaustive N=%u h=%u range=[%llu,%llu]>[%llu,%llu]", k.n, h, (unsigned long long)a, (unsigned long long)b,
                         (unsigned long long)x, (unsigned long long)y);
                    check_range(*c, t, x, y);
                    std::unique_ptr<Any> d;
                    if (must("constrain-throws", [&] { d = c->constrain(x, y); })) {
                        bounds(*d, x, y, h);
                        check_range(*d, t, x, y);
                        check_eval(*d, t, x);
                        check_eval(*d, t, y);
                        seenf("ex2/%u/%u/%llu/%llu/%llu/%llu", k.n, h, (unsigned long long)a, (unsigned long long)b, (unsigned long long)x, (unsigned long long)y);
                        tally("nested");
                    }
                }
            }
        }
    }
}
static void pick(uint64_t lo, uint64_t hi, uint64_t& a, uint64_t& b)
{
    a = rc::leaf_in(lo, hi);
    if (rng().chance(1, 4)) {
        // a narrow range
        uint64_t w = rng().below(20);
        b          = hi - a < w ? hi : a + w;
    } else {
        b = rc::leaf_in(lo, hi);
    }
    if (a > b) {
        std::swap(a, b);
    }
}
static void probe(Any& p, Ref& t, uint64_t a, uint64_t b)
{
    check_eval(p, t, a);
    check_eval(p, t, b);
    for (int i = 0; i < 6; i++) {
        check_eval(p, t, rc::leaf_in(a, b));
    }
    for (int i = 0; i < 3; i++) {
        uint64_t x = rc::leaf_in(a, b), w = rng().chance(1, 100) ? 1000 : rng().below(40);
        if (rng().chance(1, 2)) {
            // straddle x
            uint64_t lo = x - std::min(x - a, w / 2);
            check_range(p, t, lo, std::min(b - lo, w) + lo, rng().chance(1, 8));
        } else {
            check_range(p, t, x, x + std::min(b - x, w));
        }
    }
}
static void deep(const rc::Kind& k, unsigned h)
{
    Bytes key = rng().bytes(32);
    Ref   t{orc::Tree{h, key, k.n}, {}};
    auto  cur = k.master(key, h);
    auto  master = k.master(key, h);
    uint64_t lo = 0, hi = t.t.last();
    Chain ch;
    probe(*cur, t, lo, hi);
    unsigned depth = 1 + rng().below(6);
    for (unsigned i = 0; i < depth; i++) {
        uint64_t a, b;
        pick(lo, hi, a, b);
        if (i == 0 && a == 0 && b == hi) {
            b--;
        }
        ch.emplace_back(a, b);
        note("chain N=%u h=%u key=%s %s", k.n, h, hex(key).c_str(), show(ch).c_str());
        std::unique_ptr<Any> c;
        if (!must("constrain-throws", [&] { c = cur->constrain(a, b); })) {
            return;
        }
        bounds(*c, a, b, h);
        if (rng().chance(1, 3)) {
            c->bounce();
            bounds(*c, a, b, h);
        }
        probe(*c, t, a, b);
        if (rng().chance(1, 3)) {
            // the parent is unchanged by having been constrained
            probe(*cur, t, lo, hi);
        }
        cur = std::move(c);
        lo  = a;
        hi  = b;
        if (rng().chance(1, 4)) {
            // a throwing callback does not disturb later evaluations
            int n = 0;
            try {
                cur->eval_range(a, a + std::min<uint64_t>(b - a, 5), [&](uint64_t, const Bytes&) { if (++n == 1) throw std::runtime_error("cb"); });
                viol("callback-exception", "an exception of the callback was swallowed");
            } catch (const std::runtime_error&) {
            }
            check_eval(*cur, t, a);
            tally("throwing_callbacks");
        }
    }
    check_eval(*master, t, lo);
    seenf("deep/%u/%u/%s", k.n, h, show(ch).c_str());
    tally("chains");
    tally(h > 33 ? "chains_tall" : "chains_short");
    sample("N=%u height=%u chain=%s", k.n, h, show(ch).c_str());
}
// a constrained PRF put together from consecutive parts, in any order
static void assembled(const rc::Kind& k, unsigned h)
{
    Bytes key = rng().bytes(32);
    Ref   t{orc::Tree{h, key, k.n}, {}};
    uint64_t a, b;
    pick(0, t.t.last(), a, b);
    std::vector<orc::Elt> v;
    rc::cover(t.t, h, 0, a, b, 2 + rng().below(8), v);
    rc::shuffle(v);
    note("assembled N=%u h=%u key=%s [%llu,%llu] of %zu parts", k.n, h, hex(key).c_str(), (unsigned long long)a, (unsigned long long)b, v.size());
    std::unique_ptr<Any> c;
    if (!must("assemble-throws", [&] { c = k.assemble(v, std::vector<unsigned>(v.size(), h)); })) {
        return;
    }
    bounds(*c, a, b, h);
    probe(*c, t, a, b);
    uint64_t x, y;
    pick(a, b, x, y);
    std::unique_ptr<Any> d;
    if (must("constrain-throws", [&] { d = c->constrain(x, y); })) {
        bounds(*d, x, y, h);
        probe(*d, t, x, y);
    }
    tally("assembled");
    seenf("as/%u/%u/%zu/%llu/%llu", k.n, h, v.size(), (unsigned long long)a, (unsigned long long)b);
}
// more leaves than 16 bits count
static void wide(const rc::Kind& k)
{
    Bytes key = rng().bytes(32);
    unsigned h = 18 + rng().below(47);
    Ref   t{orc::Tree{h, key, k.n}, {}};
    auto  m = k.master(key, h);
    uint64_t last = t.t.last(), a = rc::leaf_in(0, last), b;
    uint64_t w = 65536 + rng().below(2000);
    a = a > last - w ? last - w : a;
    b = a + w;
    note("wide N=%u h=%u key=%s [%llu,%llu]", k.n, h, hex(key).c_str(), (unsigned long long)a, (unsigned long long)b);
    uint64_t next = a, bad = 0;
    auto     one = [&](Any& p) {
        next = a;
        p.eval_range(a, b, [&](uint64_t l, const Bytes& v) {
            if (l != next++) {
                bad++;
            }
            // all values are compared near the edges and the powers of two
            if ((l - a < 40 || b - l < 40 || ((l + 1) & 0xfff) < 3 || rng().chance(1, 50)) && v != t.leaf(l)) {
                viol("range-value", "wide range, leaf %llu", (unsigned long long)l);
            }
        });
        if (bad || next != b + 1) {
            viol("range-visit", "wide range [%llu,%llu]: %llu leaves out of order, stopped before %llu", (unsigned long long)a, (unsigned long long)b, (unsigned long long)bad, (unsigned long long)next);
        }
        tally("wide_leaves", w + 1);
    };
    must("eval_range-throws", [&] {
        if (h > 18 && rng().chance(1, 2)) {
            one(*m->constrain(a, b));
        } else {
            one(*m);
        }
    });
}
// many evaluations of one object
static void marathon(const rc::Kind& k, int n)
{
    Bytes    key = rng().bytes(32);
    unsigned h = 12;
    Ref      t{orc::Tree{h, key, k.n}, {}};
    auto     m = k.master(key, h);
    uint64_t last = t.t.last(), a = rng().below(last / 2), b = a + last / 3;
    auto     c = m->constrain(a, b);
    std::vector<Bytes> all;
    for (uint64_t l = 0; l <= last; l++) all.push_back(t.leaf(l));
    for (int i = 0; i < n; i++) {
        uint64_t l = rng().below(last + 1);
        if (i % 64 == 0) note("marathon N=%u evaluation %d", k.n, i);
        if (m->eval(l) != all[l] || (l >= a && l <= b && c->eval(l) != all[l])) {
            viol("marathon", "N=%u evaluation %d of leaf %llu", k.n, i, (unsigned long long)l);
            break;
        }
        tally("marathon_evals");
    }
}
template<uint16_t N>
static void reborn(int steps)
{
    Slot<sse::crypto::RCPrf<N>>            slot;
    Slot<sse::crypto::ConstrainedRCPrf<N>> con;
    unsigned                               h = 4 + (unsigned)rng().below(40);
    Bytes                                  keys[3] = {rng().bytes(32), rng().bytes(32), ""};
    keys[2] = keys[0];
    keys[2][rng().below(32)] ^= char(1 << rng().below(8));
    orc::Tree t[3] = {{h, keys[0], N}, {h, keys[1], N}, {h, keys[2], N}};
    uint64_t  last = t[0].last(), a = rc::leaf_in(0, last / 2), b = std::min(a + 5, last), leaf[4] = {a, b, rc::leaf_in(a, b), rc::leaf_in(0, last)};
    reborn_walk(steps, 3, 4, [&](unsigned k, unsigned i, bool fresh) {
        note("rebuilt range PRF N=%u h=%u key=%s leaf %llu", N, h, hex(keys[k]).c_str(), (unsigned long long)leaf[i]);
        Bytes kb = keys[k];
        Bytes x, want = t[k].leaf(leaf[i]);
        must("reborn", [&] {
            if (fresh) {
                con.clear();
                slot.put(sse::crypto::Key<32>(reinterpret_cast<uint8_t*>(&kb[0])), (uint8_t)h);
                con.put(slot.get().constrain(a, b));
            }
            x = from_arr(slot.get().eval(leaf[i]));
            CHECK_EQ_BYTES("reborn", x, want);
            if (leaf[i] >= a && leaf[i] <= b) {
                x = from_arr(con.get().eval(leaf[i]));
                CHECK_EQ_BYTES("reborn-constrained", x, want);
            }
            if (rng().chance(1, 4)) {
                auto f = [&](uint64_t l, const std::array<uint8_t, N>& v) {
                    if (from_arr(v) != t[k].leaf(l)) viol("reborn-range", "leaf %llu of a rebuilt object", (unsigned long long)l);
                };
                slot.get().eval_range(a, b, f);
                con.get().eval_range(a, b, f);
            }
        });
    });
}
void vh::run()
{
    for (int r = 0; r < (ctx().thorough ? 40 : 3); r++) {
        reborn<16>(60);
        reborn<32>(60);
        reborn<100>(30);
    }
    uint64_t i = 0;
    if (getenv("VH_HUGE") && mine(1)) marathon(rc::kinds()[rng().below(rc::kinds().size())], ctx().thorough ? 300000 : 70000);
    for (unsigned r = 0; r < (ctx().thorough ? 40u : 1u); r++) {
        wide(rc::kinds()[rng().below(rc::kinds().size())]);
    }
    for (auto& k : rc::kinds()) {
        for (unsigned h = 2; h <= (ctx().thorough ? 8u : 6u); h++) {
            if ((k.n == 16 || k.n == 32 || h <= 4) && mine(i++)) {
                exhaustive(k, h, ctx().thorough ? 5 : 4);
            }
        }
    }
    if (getenv("VH_HUGE")) {
        for (auto& k : rc::big_kinds()) {
            for (unsigned h : {2u, 3u, 4u, 5u, 8u, 33u, 64u}) {
                if (mine(i++)) {
                    deep(k, h);
                    tally("large_leaves");
                }
            }
        }
    }
    unsigned reps = ctx().thorough ? 12 : 2;
    for (unsigned r = 0; r < reps; r++) {
        for (unsigned h = 2; h <= 64; h++) {
            for (auto& k : rc::kinds()) {
                if (mine(i++)) {
                    deep(k, h);
                    assembled(k, h);
                }
            }
        }
    }
}
