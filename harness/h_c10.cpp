// C10: a constrained PRF answers only inside its range and holds only the
// keys of sub-trees inside its range.
#include "reborn.hpp"
#include "rcadapt.hpp"
#include "secobs.hpp"
using namespace vh;
using rc::Any;
typedef unsigned long long ull;
static const rc::Kind* g_k;
static unsigned        g_h;
static std::string     g_chain;
static void nothing_outside(Any& p, uint64_t a, uint64_t b, uint64_t x, uint64_t y, bool con)
{
    // x..y is not inside [a,b] (or x > y)
    unsigned calls = 0;
    std::string where = "[" + std::to_string(x) + "," + std::to_string(y) + "] of [" + std::to_string(a) + "," + std::to_string(b) + "]";
    bool t = throws([&] {
        p.eval_range(x, y, [&](uint64_t, const Bytes&) {
            if (++calls > 64) {
                throw std::runtime_error("enough");
            }
        });
    });
    if (calls != 0) {
        viol("range-callback-outside", "eval_range %s called back %u times", where.c_str(), calls);
    } else if (!t) {
        viol("range-outside", "eval_range %s did not throw", where.c_str());
    }
    if (con && !throws([&] { (void)p.constrain(x, y); })) {
        viol("constrain-outside", "constrain %s did not throw", where.c_str());
    }
    tally("outside_ranges");
}
static void eval_outside(Any& p, uint64_t a, uint64_t b, uint64_t l)
{
    Bytes v;
    if (!throws([&] { v = p.eval(l); })) {
        viol("eval-outside", "leaf %llu of range [%llu,%llu] evaluates to %s", (ull)l, (ull)a, (ull)b, hex(v, 16).c_str());
    }
    tally("outside_evals");
}
static std::vector<uint64_t> outside(uint64_t a, uint64_t b, uint64_t last)
{
    std::vector<uint64_t> v;
    auto                  add = [&](uint64_t x) {
        if (x < a || x > b) {
            v.push_back(x);
        }
    };
    for (uint64_t d : {1, 2, 3}) {
        if (a >= d) add(a - d);
        if (b <= ~0ull - d) add(b + d);
    }
    add(0);
    add(last);
    add(last + 1);
    add(last + 2);
    add(~0ull);
    add(~0ull - 1);
    add(1ull << 63);
    add((1ull << 63) - 1);
    for (unsigned s = 0; s < 64; s += 1 + rng().below(4)) {
        add((1ull << s) + rng().below(3) - 1);
        add(a ^ (1ull << s));
        add(b ^ (1ull << s));
        // same low bits, beyond the tree
        add(a + (last + 1) * (1 + rng().below(3)));
    }
    for (int i = 0; i < 4; i++) {
        add(rng().next());
        add(rng().next() & (last | (last + 1)));
    }
    // the nearest neighbours always, a sample of the rest
    while (v.size() > 16) {
        size_t i = 6 + rng().below(v.size() - 6);
        v[i]     = v.back();
        v.pop_back();
    }
    return v;
}
static void queries(Any& p, uint64_t a, uint64_t b, uint64_t last, bool master)
{
    auto o = outside(a, b, last);
    for (uint64_t x : o) {
        eval_outside(p, a, b, x);
        uint64_t in = rc::leaf_in(a, b);
        // one end outside, both ends outside, spanning, reversed
        nothing_outside(p, a, b, std::min(x, in), std::max(x, in), true);
        nothing_outside(p, a, b, x, x, rng().chance(1, 2));
        if (rng().chance(1, 3)) {
            nothing_outside(p, a, b, std::max(x, in), std::min(x, in), true);
        }
        uint64_t y = o[rng().below(o.size())];
        if (x != y && rng().chance(1, 3)) {
            nothing_outside(p, a, b, std::max(x, y), std::min(x, y), true);
        }
        if ((std::min(x, y) < a || std::max(x, y) > b) && rng().chance(1, 2)) {
            nothing_outside(p, a, b, std::min(x, y), std::max(x, y), true);
        }
    }
    if (a != b) {
        // reversed inside the range
        uint64_t u = rc::leaf_in(a, b), w = rc::leaf_in(a, b);
        if (u == w) {
            w = u == b ? u - 1 : u + 1;
        }
        nothing_outside(p, a, b, std::max(u, w), std::min(u, w), true);
        nothing_outside(p, a, b, b, a, true);
    }
    (void)master;
}
// the exported material, and the live protected memory
static void material(Any& p, const orc::Tree& t, const sse::crypto::Wrapper& w, const orc::WrapKeys& wk, uint64_t a, uint64_t b, uint64_t mk)
{
    Bytes blob, content;
    if (!must("wrap-throws", [&] { blob = p.wrap(w); })) {
        return;
    }
    if (!wk.open(blob, 6, orc::be16((unsigned)t.n), content)) {
        viol("export-format", "the exported blob is not the documented encoding");
        return;
    }
    unsigned              hh;
    std::vector<orc::Elt> e;
    std::string           why;
    if (!orc::parse_constrained(content, t.n, hh, e, why)) {
        viol("export-parse", "the exported content does not parse: %s", why.c_str());
        return;
    }
    if (hh != t.h) {
        viol("export-height", "exported height %u", hh);
    }
    // elements may come in any order, they must tile [a,b]
    std::sort(e.begin(), e.end(), [](const orc::Elt& x, const orc::Elt& y) { return x.min < y.min; });
    uint64_t next = a;
    bool     first = true;
    for (auto& x : e) {
        uint64_t w1 = x.sh >= 1 && x.sh < 65 ? (1ull << (x.sh - 1)) - 1 : ~0ull;
        if (x.sh < 1 || x.sh >= t.h || x.max - x.min != w1 || (x.min & w1) != 0) {
            viol("material-subtree", "element height %u [%llu,%llu] is not a sub-tree", x.sh, (ull)x.min, (ull)x.max);
            return;
        }
        if (x.min < a || x.max > b) {
            viol("material-outside", "element [%llu,%llu] reaches outside [%llu,%llu]", (ull)x.min, (ull)x.max, (ull)a, (ull)b);
        }
        if ((first && x.min != a) || (!first && x.min != next)) {
            viol("material-cover", "elements do not tile the range at %llu (element starts at %llu)", (ull)next, (ull)x.min);
        }
        Bytes want = x.sh == 1 ? t.leaf(x.min) : t.node(x.sh, x.min);
        if (x.key != want) {
            viol("material-key", "element [%llu,%llu]: key %s, the sub-tree's is %s", (ull)x.min, (ull)x.max, hex(x.key).c_str(), hex(want).c_str());
        }
        first = false;
        next  = x.max + 1;
        tally("elements");
    }
    if (e.empty() || next != b + 1) {
        viol("material-cover", "elements stop before %llu", (ull)next);
    }
    // no key of an enclosing sub-tree is held in protected memory either
    auto held = sec::blocks_since(mk, 32);
    std::map<Bytes, unsigned> anc;
    for (uint64_t l : {a, b}) {
        for (unsigned sh = t.h; sh >= 2; sh--) {
            uint64_t w1 = (1ull << (sh - 1)) - 1;
            if ((l & ~w1) < a || (l | w1) > b) {
                anc[t.node(sh, l)] = sh;
            }
        }
    }
    for (auto& x : held) {
        auto it = anc.find(x);
        if (it != anc.end()) {
            viol("held-ancestor", "the object of range [%llu,%llu] holds the key of an enclosing sub-tree of height %u", (ull)a, (ull)b, it->second);
        }
        tally("held_keys");
    }
    tally("materials");
}
static void one(const rc::Kind& k, unsigned h, const sse::crypto::Wrapper& w, const orc::WrapKeys& wk, const std::vector<std::pair<uint64_t, uint64_t>>& ranges)
{
    Bytes     key = rng().bytes(32);
    orc::Tree t{h, key, k.n};
    std::unique_ptr<Any> cur = k.master(key, h);
    std::string s;
    for (auto& r : ranges) {
        s += "[" + std::to_string(r.first) + "," + std::to_string(r.second) + "]";
        note("N=%u h=%u key=%s chain=%s", k.n, h, hex(key).c_str(), s.c_str());
        uint64_t             mk = sec::mark();
        std::unique_ptr<Any> c;
        if (!must("constrain-throws", [&] { c = cur->constrain(r.first, r.second); })) {
            return;
        }
        material(*c, t, w, wk, r.first, r.second, mk);
        queries(*c, r.first, r.second, t.last(), false);
        if (rng().chance(1, 4)) {
            Bytes blob = c->wrap(w);
            mk         = sec::mark();
            must("unwrap-throws", [&] { c = k.unwrap_con(w, blob); });
            material(*c, t, w, wk, r.first, r.second, mk);
            queries(*c, r.first, r.second, t.last(), false);
            tally("restored");
        }
        cur = std::move(c);
        seenf("%u/%u/%s", k.n, h, s.c_str());
    }
    sample("N=%u height=%u chain=%s", k.n, h, s.c_str());
}
static void master(const rc::Kind& k, unsigned h)
{
    Bytes key = rng().bytes(32);
    note("master N=%u h=%u key=%s", k.n, h, hex(key).c_str());
    auto     m    = k.master(key, h);
    uint64_t last = h >= 65 ? ~0ull : (1ull << (h - 1)) - 1;
    queries(*m, 0, last, last, true);
    // the complete range is not a constraint
    if (!throws([&] { (void)m->constrain(0, last); })) {
        viol("constrain-full", "constraining to the complete range was accepted");
    }
    tally("masters");
    seenf("m/%u/%u", k.n, h);
}
// parts which are not consecutive, or not of one tree, are refused, as are
// impossible parts
static void refused(const char* why, const rc::Kind& k, const std::vector<orc::Elt>& parts, const std::vector<unsigned>& hs)
{
    std::string s;
    for (size_t i = 0; i < parts.size(); i++) {
        s += " " + std::to_string(hs[i]) + ":" + std::to_string(parts[i].sh) + ":[" + std::to_string(parts[i].min) + "," + std::to_string(parts[i].max) + "]";
    }
    note("%s N=%u%s", why, k.n, s.c_str());
    if (!throws([&] { (void)k.assemble(parts, hs); })) {
        viol("assembled", "a constrained PRF was made from %s:%s", why, s.c_str());
    }
    tally("refused_assemblies");
    seenf("%s/%u/%s", why, k.n, s.c_str());
}
static void assemblies(const rc::Kind& k, unsigned h)
{
    orc::Tree t{h, rng().bytes(32), k.n};
    uint64_t  a = rc::leaf_in(0, t.last()), b = rc::leaf_in(0, t.last());
    if (a > b) {
        std::swap(a, b);
    }
    std::vector<orc::Elt> v;
    rc::cover(t, h, 0, a, b, 4, v);
    std::vector<unsigned> hs(v.size(), h);
    size_t n = v.size();
    if (n >= 3) { // a gap
        auto w = v;
        w.erase(w.begin() + 1 + rng().below(n - 2));
        rc::shuffle(w);
        refused("parts with a gap", k, w, std::vector<unsigned>(w.size(), h));
    }
    if (n >= 2) { // two trees
        auto x = hs;
        size_t j = rng().below(n);
        x[j]     = h + 1 + rng().below(3);
        refused("parts of different trees", k, v, x);
    }
    {
        auto w = v;
        w.push_back(v[rng().below(n)]);
        rc::shuffle(w);
        refused("repeated parts", k, w, std::vector<unsigned>(w.size(), h));
    }
    for (auto& e : v) {
        if (e.sh > 1) { // a part and a piece of it
            auto w = v;
            uint64_t off = rng().chance(1, 2) ? 0 : (1ull << (e.sh - 2));
            unsigned c = e.sh - 1;
            w.push_back(orc::Elt{c, e.min + off, e.min + off + ((1ull << (c - 1)) - 1), c == 1 ? t.leaf(e.min + off) : t.node(c, e.min + off)});
            rc::shuffle(w);
            refused("overlapping parts", k, w, std::vector<unsigned>(w.size(), h));
            break;
        }
    }
    // impossible parts
    for (auto e : v) {
        unsigned hh = h;
        uint64_t w = e.max - e.min;
        switch (rng().below(5)) {
        case 0: hh = 1 + rng().below(e.sh); break;              // not smaller than the tree
        case 1: if (e.sh == 1) continue; e.max--; break;          // too narrow
        case 2: if (e.sh == 1) continue; e.max++; break;          // too wide
        case 3: if (e.sh == 1) continue; std::swap(e.min, e.max); break;
        default: if (e.sh == 1) continue; e.sh = e.sh > 2 && rng().chance(1, 2) ? e.sh - 1 : e.sh + 1; hh = h + 2; break;
        }
        (void)w;
        refused("an impossible part", k, {e}, {hh});
    }
}
// a narrow object where a wide one lived, and the other way round
template<uint16_t N>
static void reborn(int steps)
{
    Slot<sse::crypto::ConstrainedRCPrf<N>> con;
    unsigned                               h = 4 + (unsigned)rng().below(40);
    Bytes                                  kb = rng().bytes(32), kb2 = kb;
    orc::Tree                              t{h, kb, N};
    sse::crypto::RCPrf<N>                  m(sse::crypto::Key<32>(reinterpret_cast<uint8_t*>(&kb2[0])), (uint8_t)h);
    uint64_t                               last = t.last(), a[3], b[3];
    a[0] = rc::leaf_in(1, last), b[0] = rc::leaf_in(a[0], last);
    for (int i = 1; i < 3; i++) a[i] = rc::leaf_in(a[i - 1], b[i - 1]), b[i] = rc::leaf_in(a[i], b[i - 1]);
    reborn_walk(steps, 3, 8, [&](unsigned k, unsigned i, bool fresh) {
        note("rebuilt constrained PRF N=%u h=%u key=%s [%llu,%llu]", N, h, hex(kb).c_str(), (unsigned long long)a[k], (unsigned long long)b[k]);
        must("reborn", [&] {
            if (fresh) con.put(m.constrain(a[k], b[k]));
            uint64_t cand[8] = {a[0], b[0], a[1], b[1], a[2], b[2], a[k] - 1, std::min(last, b[k] + 1)};
            uint64_t l = cand[i];
            bool     in = l >= a[k] && l <= b[k];
            Bytes    x;
            bool     threw = throws([&] { x = from_arr(con.get().eval(l)); });
            if (threw == in) viol("reborn", "leaf %llu: %s", (unsigned long long)l, in ? "refused" : "evaluated outside the range");
            if (!threw && in && x != t.leaf(l)) viol("reborn", "leaf %llu has another value", (unsigned long long)l);
            if (!in && !throws([&] { (void)con.get().constrain(l, l); })) viol("reborn", "constrained to %llu outside the range", (unsigned long long)l);
        });
    });
}
void vh::run()
{
    for (int r = 0; r < (ctx().thorough ? 40 : 3); r++) {
        reborn<16>(80);
        reborn<32>(80);
    }
    Bytes                wkey = rng().bytes(32);
    sse::crypto::Wrapper w    = rc::wrapper(wkey);
    orc::WrapKeys        wk(wkey);
    uint64_t             i = 0;
    for (auto& k : rc::kinds()) {
        for (unsigned h = 0; h <= 255; h++) {
            if (h >= 2 && h <= 64) {
                continue;
            }
            if (mine(i++)) {
                note("height %u N=%u", h, k.n);
                Bytes key = rng().bytes(32);
                if (!throws([&] { (void)k.master(key, h); })) {
                    viol("bad-height", "tree height %u was accepted", h);
                }
                tally("bad_heights");
            }
        }
    }
    // all ranges of small trees
    for (size_t ki = 0; ki < rc::kinds().size(); ki++) {
        auto& k = rc::kinds()[ki];
        for (unsigned h = 2; h <= (ctx().thorough ? 7u : 5u); h++) {
            if (ki >= 2 && h > 4) {
                continue;
            }
            uint64_t L = (1ull << (h - 1)) - 1;
            for (uint64_t a = 0; a <= L; a++) {
                for (uint64_t b = a; b <= L; b++) {
                    if ((a != 0 || b != L) && mine(i++)) {
                        std::vector<std::pair<uint64_t, uint64_t>> ch{{a, b}};
                        uint64_t x = rc::leaf_in(a, b), y = rc::leaf_in(a, b);
                        ch.emplace_back(std::min(x, y), std::max(x, y));
                        one(k, h, w, wk, ch);
                    }
                }
            }
        }
    }
    for (unsigned r = 0; r < (ctx().thorough ? 20u : 2u); r++) {
        for (unsigned h = 2; h <= 64; h++) {
            for (auto& k : rc::kinds()) {
                if (!mine(i++)) {
                    continue;
                }
                master(k, h);
                assemblies(k, h);
                uint64_t lo = 0, hi = (1ull << (h - 1)) - 1;
                std::vector<std::pair<uint64_t, uint64_t>> ch;
                unsigned d = 1 + rng().below(4);
                for (unsigned j = 0; j < d; j++) {
                    uint64_t a = rc::leaf_in(lo, hi), b = rc::leaf_in(lo, hi);
                    if (a > b) {
                        std::swap(a, b);
                    }
                    if (j == 0 && a == 0 && b == hi) {
                        a = 1;
                    }
                    ch.emplace_back(a, b);
                    lo = a;
                    hi = b;
                }
                one(k, h, w, wk, ch);
            }
        }
    }
}
