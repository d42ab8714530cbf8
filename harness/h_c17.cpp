// C17: the set hash depends only on the multiset of elements.
// Reference: our own Edwards-curve arithmetic over GMP; the element map is
// OpenSSL BLAKE2b followed by libsodium's Elligator map (trusted).
#include "oracle.hpp"
#include <sse/crypto/set_hash.hpp>
#include <sodium/crypto_core_ed25519.h>
#include <map>
#include <sstream>
#include <iomanip>
using namespace vh;
using namespace sse::crypto;
typedef std::array<uint8_t, 32> A;
static const Bytes kEmpty = Bytes(1, 1) + Bytes(31, 0);

namespace ed {
using orc::Z;
static Z P, D, L, SQM1;
static void init()
{
    mpz_ui_pow_ui(P.v, 2, 255);
    mpz_sub_ui(P.v, P.v, 19);
    Z t(121666);
    mpz_invert(t.v, t.v, P.v);
    mpz_mul_si(D.v, t.v, -121665);
    mpz_mod(D.v, D.v, P.v);
    mpz_ui_pow_ui(L.v, 2, 252);
    Z c;
    mpz_set_str(c.v, "27742317777372353535851937790883648493", 10);
    mpz_add(L.v, L.v, c.v);
    Z e;
    mpz_sub_ui(e.v, P.v, 1);
    mpz_fdiv_q_2exp(e.v, e.v, 2);
    Z two(2);
    mpz_powm(SQM1.v, two.v, e.v, P.v);
}
struct Pt
{
    Z x, y;
    Pt() : x(0), y(1)
    {
    }
    bool operator==(const Pt& o) const
    {
        return mpz_cmp(x.v, o.x.v) == 0 && mpz_cmp(y.v, o.y.v) == 0;
    }
};
static void mulm(Z& r, const Z& a, const Z& b)
{
    mpz_mul(r.v, a.v, b.v);
    mpz_mod(r.v, r.v, P.v);
}
static Pt add(const Pt& a, const Pt& b)
{
    Z x1y2, y1x2, xx, yy, t, num, den;
    mulm(x1y2, a.x, b.y);
    mulm(y1x2, a.y, b.x);
    mulm(xx, a.x, b.x);
    mulm(yy, a.y, b.y);
    mulm(t, xx, yy);
    mulm(t, t, D);
    Pt r;
    mpz_add(num.v, x1y2.v, y1x2.v);
    mpz_add_ui(den.v, t.v, 1);
    mpz_invert(den.v, den.v, P.v);
    mulm(r.x, num, den);
    mpz_add(num.v, yy.v, xx.v);
    mpz_ui_sub(den.v, 1, t.v);
    mpz_mod(den.v, den.v, P.v);
    mpz_invert(den.v, den.v, P.v);
    mulm(r.y, num, den);
    return r;
}
static Pt neg(const Pt& a)
{
    Pt r = a;
    if (mpz_sgn(r.x.v) != 0) {
        mpz_sub(r.x.v, P.v, a.x.v);
    }
    return r;
}
static Pt mul(const Pt& a, const Z& k)
{
    Pt r;
    for (long i = (long)mpz_sizeinbase(k.v, 2) - 1; i >= 0; i--) {
        r = add(r, r);
        if (mpz_tstbit(k.v, i)) {
            r = add(r, a);
        }
    }
    return r;
}
static Bytes enc(const Pt& a)
{
    Bytes b = a.y.to_be(32);
    std::reverse(b.begin(), b.end());
    if (mpz_tstbit(a.x.v, 0)) {
        b[31] = char(uint8_t(b[31]) | 0x80);
    }
    return b;
}
// canonical encoding of a curve point
static bool dec(Bytes b, Pt& r)
{
    bool sign = (uint8_t(b[31]) & 0x80) != 0;
    b[31]     = char(uint8_t(b[31]) & 0x7f);
    std::reverse(b.begin(), b.end());
    r.y = Z::be(b);
    if (mpz_cmp(r.y.v, P.v) >= 0) {
        return false;
    }
    Z yy, u, v, e, c;
    mulm(yy, r.y, r.y);
    mpz_sub_ui(u.v, yy.v, 1);
    mpz_mod(u.v, u.v, P.v);
    mulm(v, yy, D);
    mpz_add_ui(v.v, v.v, 1);
    mpz_invert(v.v, v.v, P.v);
    mulm(u, u, v); // x^2
    mpz_add_ui(e.v, P.v, 3);
    mpz_fdiv_q_2exp(e.v, e.v, 3);
    mpz_powm(r.x.v, u.v, e.v, P.v);
    mulm(c, r.x, r.x);
    if (mpz_cmp(c.v, u.v) != 0) {
        mulm(r.x, r.x, SQM1);
        mulm(c, r.x, r.x);
        if (mpz_cmp(c.v, u.v) != 0) {
            return false;
        }
    }
    if (mpz_sgn(r.x.v) == 0) {
        return !sign;
    }
    if ((mpz_tstbit(r.x.v, 0) != 0) != sign) {
        mpz_sub(r.x.v, P.v, r.x.v);
    }
    return true;
}
} // namespace ed

static ed::Pt element(const Bytes& s)
{
    Bytes h = orc::blake2b512(s).substr(0, 32);
    A     p;
    crypto_core_ed25519_from_uniform(p.data(), U(h));
    ed::Pt r;
    if (!ed::dec(from_arr(p), r)) {
        harness_error("element map gave an undecodable point");
    }
    return r;
}
static Bytes val(const SetHash& s)
{
    return from_arr(s.data());
}
static void check(const char* key, const SetHash& s, const ed::Pt& m)
{
    CHECK_EQ_BYTES(key, val(s), ed::enc(m));
    tally("values_checked");
}

// one live hash with its model: the multiset as (element -> count)
struct Live
{
    SetHash               h;
    std::map<int, long>   c;
    ed::Pt                m;
};
static void norm(std::map<int, long>& c)
{
    for (auto i = c.begin(); i != c.end();) {
        i = i->second == 0 ? c.erase(i) : std::next(i);
    }
}
static std::string text_of(const SetHash& h, unsigned how)
{
    std::ostringstream o;
    if (how == 1) {
        o << std::hex << std::uppercase;
        o << std::nouppercase;
    } else if (how == 2) {
        o << std::setfill('*') << std::showpos;
    }
    o << h;
    return o.str();
}

static void histories(unsigned n, unsigned ops)
{
    std::map<Bytes, std::string> by_value;
    std::vector<Bytes> el;
    for (unsigned i = 0; i < 14; i++) {
        size_t len;
        switch (i) {
        case 0: len = 0; break;
        case 1: len = 1; break;
        case 2: len = 128; break;
        case 3: len = 129; break;
        case 4: len = 4096; break;
        default: len = rng().below(300);
        }
        Bytes b = i % 3 == 2 && i > 4 ? rng().content(len) : rng().bytes(len);
        el.push_back(b);
    }
    el.push_back(el[5] + Bytes(1, 0)); // differs by a trailing zero byte
    el.push_back(Bytes(1, 0) + el[5]);
    el.push_back(Bytes("a\0b", 3));
    el.push_back(Bytes("a\0c", 3));
    std::sort(el.begin(), el.end());
    el.erase(std::unique(el.begin(), el.end()), el.end());
    std::vector<ed::Pt> pt;
    for (auto& e : el) {
        pt.push_back(element(e));
    }
    for (unsigned round = 0; round < n; round++) {
        std::vector<Live> v(3);
        std::string       script;
        for (unsigned i = 0; i < ops; i++) {
            size_t a = rng().below(v.size()), b = rng().below(v.size());
            int    x = (int)rng().below(rng().chance(1, 2) ? 4 : el.size());
            int    op = (int)rng().below(16);
            char   d[40];
            snprintf(d, sizeof d, "%d:%zu,%zu,%d ", op, a, b, x);
            script += d;
            note("set history %s", script.substr(script.size() > 1500 ? script.size() - 1500 : 0).c_str());
            switch (op) {
            case 0: case 1: case 2: case 3: case 4:
                v[a].h.add_element(el[x]);
                v[a].c[x]++;
                v[a].m = ed::add(v[a].m, pt[x]);
                tally("insertions");
                break;
            case 5: case 6: case 7:
                v[a].h.remove_element(el[x]);
                v[a].c[x]--;
                v[a].m = ed::add(v[a].m, ed::neg(pt[x]));
                tally("removals");
                break;
            case 8: case 9: {
                auto c = v[b].c;
                auto m = v[b].m;
                v[a].h.add_set(v[b].h); // a == b is a doubling
                for (auto& kv : c) v[a].c[kv.first] += kv.second;
                v[a].m = ed::add(v[a].m, m);
                tally(a == b ? "self_unions" : "unions");
                break;
            }
            case 10: {
                auto c = v[b].c;
                auto m = v[b].m;
                v[a].h.remove_set(v[b].h);
                for (auto& kv : c) v[a].c[kv.first] -= kv.second;
                v[a].m = ed::add(v[a].m, ed::neg(m));
                tally(a == b ? "self_differences" : "differences");
                break;
            }
            case 11:
                v[a].h = v[b].h;
                if (a != b) { v[a].c = v[b].c; v[a].m = v[b].m; }
                tally("assignments");
                break;
            case 12: {
                SetHash t(v[b].h);
                SetHash u(std::move(t));
                check("moved-value", u, v[b].m);
                v[a].h = u;
                if (a != b) { v[a].c = v[b].c; v[a].m = v[b].m; }
                tally("moves");
                break;
            }
            case 13: { // through the exported form
                must("own-export-refused", [&] {
                    SetHash t(v[b].h.data());
                    if (!(t == v[b].h) || t != v[b].h) viol("reimport-unequal", "%s", hex(val(t)).c_str());
                    check("reimport", t, v[b].m);
                    v[a].h = t;
                    if (a != b) { v[a].c = v[b].c; v[a].m = v[b].m; }
                });
                tally("reimports");
                break;
            }
            case 14: { // rebuild from a list, in another order
                norm(v[a].c);
                std::vector<std::string> l;
                for (auto& kv : v[a].c)
                    for (long k = 0; k < kv.second && k < 50; k++) l.push_back(el[kv.first]);
                bool whole = true;
                for (auto& kv : v[a].c)
                    if (kv.second < 0 || kv.second >= 50) whole = false;
                for (size_t k = l.size(); k > 1; k--) std::swap(l[k - 1], l[rng().below(k)]);
                SetHash t(l);
                if (whole) {
                    check("from-list", t, v[a].m);
                    if (!(t == v[a].h)) viol("from-list-unequal", "%zu elements", l.size());
                    tally("lists");
                }
                break;
            }
            default:
                v[a] = Live();
            }
            check("value", v[a].h, v[a].m);
            // equality matches the bytes, both ways
            bool same = val(v[a].h) == val(v[b].h);
            if ((v[a].h == v[b].h) != same || (v[a].h != v[b].h) == same || (v[b].h == v[a].h) != same) {
                viol("equality", "== is %d but bytes %s", int(v[a].h == v[b].h), same ? "equal" : "differ");
            }
            tally(same ? "equal_pairs" : "unequal_pairs");
            if (rng().chance(1, 8)) {
                std::string t = text_of(v[a].h, (unsigned)rng().below(2));
                if (t != hex(val(v[a].h))) viol("text-form", "printed %s for %s", t.c_str(), hex(val(v[a].h)).c_str());
                tally("texts");
            }
            // distinct multisets have distinct values
            norm(v[a].c);
            std::string id;
            for (auto& kv : v[a].c) id += std::to_string(kv.first) + "x" + std::to_string(kv.second) + " ";
            auto ins = by_value.insert({val(v[a].h), id});
            if (!ins.second && ins.first->second != id) {
                viol("collision", "multisets {%s} and {%s} have the same value", id.c_str(), ins.first->second.c_str());
            }
            seen("set" + id);
        }
    }
    tally("distinct_multisets", by_value.size());
}
// one byte/bit of difference anywhere is an inequality
static void equality()
{
    for (unsigned i = 0; i < 40; i++) {
        SetHash a, b;
        Bytes   s = rng().bytes(1 + rng().below(40));
        a.add_element(s);
        b = a;
        EXPECT("copy-equal", a == b && !(a != b));
        SetHash c;
        Bytes   t = s;
        t[rng().below(t.size())] ^= char(1u << rng().below(8));
        c.add_element(t);
        EXPECT("one-bit-elements-differ", !(a == c) && a != c);
        // -x and x differ only in the sign bit of the encoding
        SetHash m;
        m.remove_element(s);
        EXPECT("negated-differs", !(a == m) && a != m);
        m.add_set(a);
        EXPECT("sum-empty", m == SetHash() && val(m) == kEmpty);
        seenf("eq%zu/%u", s.size(), i);
    }
}
// element lengths: each maps to the documented encoding
static void elements(bool thorough)
{
    unsigned i = 0;
    for (size_t n : lengths(thorough ? 1024 : 300, thorough ? 262144 : 20000, thorough ? 200 : 20)) {
        if (!mine(i++)) continue;
        Bytes s = rng().content(n);
        note("element of %zu bytes", n);
        SetHash a, b(std::vector<std::string>{s}), c;
        a.add_element(s);
        c.remove_element(s);
        ed::Pt p = element(s);
        check("element", a, p);
        check("element-list", b, p);
        check("element-removed", c, ed::neg(p));
        seenf("el%zu", n);
        tally("elements");
    }
}
static bool good(const Bytes& b, ed::Pt& p)
{
    if (!ed::dec(b, p)) return false;
    if (mpz_sgn(p.x.v) == 0 && mpz_cmp_ui(p.y.v, 1) == 0) return true; // the empty set
    return ed::mul(p, ed::L) == ed::Pt();
}
static void import_one(const Bytes& b, const char* kind)
{
    ed::Pt p;
    bool   ok = good(b, p);
    note("import %s %s", kind, hex(b).c_str());
    std::unique_ptr<SetHash> s;
    Outcome                  o = outcome([&] { s.reset(new SetHash(to_arr<32>(b))); });
    if (ok && o != OK) {
        viol("valid-refused", "%s %s refused: %s", kind, hex(b).c_str(), oname(o));
    } else if (!ok && o == OK) {
        viol("invalid-accepted", "%s %s accepted", kind, hex(b).c_str());
    } else if (!ok && o != INVALID_ARG) {
        viol("invalid-error", "%s %s gave %s", kind, hex(b).c_str(), oname(o));
    } else if (ok) {
        check("import-value", *s, p);
        Bytes x = rng().bytes(9);
        s->add_element(x);
        check("import-then-add", *s, ed::add(p, element(x)));
    }
    tally(ok ? "imports_valid" : "imports_invalid");
    seenf("imp%s%s", kind, hex(b).c_str());
}
static void imports(bool thorough)
{
    // small-order points from a random curve point times L
    std::vector<ed::Pt> tors;
    while (tors.size() < 7) {
        ed::Pt p;
        Bytes  b = rng().bytes(32);
        if (!ed::dec(b, p)) continue;
        ed::Pt t = ed::mul(p, ed::L);
        for (int k = 0; k < 8; k++) {
            if (!(t == ed::Pt()) && std::find(tors.begin(), tors.end(), t) == tors.end()) tors.push_back(t);
            t = ed::add(t, t);
        }
        ed::Pt u = ed::mul(p, ed::L), w = u;
        for (int k = 0; k < 8; k++) {
            if (!(w == ed::Pt()) && std::find(tors.begin(), tors.end(), w) == tors.end()) tors.push_back(w);
            w = ed::add(w, u);
        }
    }
    for (auto& t : tors) {
        import_one(ed::enc(t), "small-order");
    }
    import_one(kEmpty, "empty");
    { // the empty set with the sign bit, and non-canonical forms of it
        Bytes b = kEmpty;
        b[31]   = char(0x80);
        import_one(b, "signed-empty");
        for (unsigned y = 0; y < 19; y++) { // p + y for y < 19
            ed::Z z;
            mpz_add_ui(z.v, ed::P.v, y);
            Bytes e = z.to_be(32);
            std::reverse(e.begin(), e.end());
            import_one(e, "non-canonical");
            e[31] = char(uint8_t(e[31]) | 0x80);
            import_one(e, "non-canonical");
        }
        import_one(Bytes(32, 0), "zero");
        import_one(Bytes(32, char(0xff)), "ones");
    }
    for (unsigned i = 0; i < (thorough ? 400 : 40); i++) {
        ed::Pt p = element(rng().bytes(8));
        import_one(ed::enc(p), "subgroup");
        import_one(ed::enc(ed::neg(p)), "subgroup");
        import_one(ed::enc(ed::add(p, tors[rng().below(tors.size())])), "with-torsion");
        Bytes b = ed::enc(p);
        b[rng().below(32)] ^= char(1u << rng().below(8));
        import_one(b, "bit-flip");
        import_one(rng().bytes(32), "random");
    }
}
// the same element many times, and large sets
static void multiplicity(unsigned n)
{
    Bytes  x = rng().bytes(20);
    ed::Pt p = element(x), m;
    SetHash h;
    std::vector<std::string> l;
    for (unsigned i = 1; i <= n; i++) {
        h.add_element(x);
        l.push_back(x);
        m = ed::add(m, p);
        note("element %s %u times", hex(x).c_str(), i);
        check("multiplicity", h, m);
        if (i % 37 == 0) {
            check("multiplicity-list", SetHash(l), m);
        }
        seenf("mult%u", i);
    }
    for (unsigned i = 0; i < n; i++) {
        h.remove_element(x);
    }
    check("multiplicity-undone", h, ed::Pt());
    ed::Pt  s;
    SetHash g;
    l.clear();
    for (unsigned i = 0; i < 4 * n; i++) {
        Bytes e = rng().bytes(rng().below(40));
        l.push_back(e);
        g.add_element(e);
        s = ed::add(s, element(e));
    }
    note("set of %u elements", 4 * n);
    check("large-set", g, s);
    check("large-list", SetHash(l), s);
    std::reverse(l.begin(), l.end());
    check("large-list-reversed", SetHash(l), s);
}
// more elements than 16 bits count
static void marathon(unsigned n)
{
    std::vector<Bytes>  e;
    std::vector<ed::Pt> p;
    for (int i = 0; i < 16; i++) e.push_back(rng().bytes(8 + rng().below(40))), p.push_back(element(e.back()));
    SetHash h;
    ed::Pt  m;
    std::vector<std::string> l;
    for (unsigned i = 0; i < n; i++) {
        unsigned k = rng().below(16);
        bool     r = rng().chance(1, 3);
        if (i % 64 == 0) note("set marathon step %u", i);
        if (r) h.remove_element(e[k]);
        else h.add_element(e[k]), l.push_back(e[k]);
        m = ed::add(m, r ? ed::neg(p[k]) : p[k]);
        if (i % 1000 == 0) check("marathon", h, m);
        tally("marathon_steps");
    }
    check("marathon", h, m);
    m = ed::Pt();
    for (int k = 0; k < 16; k++) {
        long c = 0;
        for (auto& s : l) c += s == e[k];
        m = ed::add(m, ed::mul(p[k], ed::Z(c)));
    }
    note("list of %zu elements", l.size());
    check("marathon-list", SetHash(l), m);
}
void vh::run()
{
    ed::init();
    if (getenv("VH_HUGE") && mine(1)) marathon(ctx().thorough ? 400000 : 140000);
    multiplicity(ctx().thorough ? 3000 : 300);
    bool t = ctx().thorough;
    elements(t);
    equality();
    histories(t ? 100 : 30, t ? 800 : 200);
    imports(t);
    sample("set hash of {\"\"} = %s", hex(ed::enc(element(""))).c_str());
}
