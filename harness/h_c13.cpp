// C13: the trapdoor permutation and its inverse undo each other.
#include "reborn.hpp"
#include "rsakeys.hpp"
#include <sse/crypto/tdp.hpp>
#include "tdp_impl/tdp_impl.hpp"
using namespace vh;
using namespace sse::crypto;
typedef std::array<uint8_t, 256> A;
static std::string g_key;
static Bytes domain_msg(const orc::Rsa& k)
{
    orc::Z x;
    switch (rng().below(12)) {
    case 0: mpz_set_ui(x.v, rng().below(4)); break;
    case 10: // where small powers begin to exceed the modulus, or its size
    case 11: {
        orc::Z b;
        if (rng().chance(1, 2)) mpz_set(b.v, k.n.v);
        else mpz_ui_pow_ui(b.v, 2, 2048);
        unsigned long e = rng().chance(1, 2) && mpz_cmp_ui(k.e.v, 1000) < 0 ? mpz_get_ui(k.e.v) : rng().range(2, 5);
        mpz_root(x.v, b.v, e);
        mpz_add_ui(x.v, x.v, rng().below(4));
        mpz_sub_ui(x.v, x.v, 1);
        tally("root_values");
        break;
    }
    case 1: mpz_sub_ui(x.v, k.n.v, 1 + rng().below(3)); break;
    case 2: // multiples of a factor
        mpz_mul_ui(x.v, k.p.v, 1 + rng().below(1000));
        break;
    case 3:
        mpz_mul_ui(x.v, k.q.v, 1 + rng().below(1000));
        break;
    case 4: // leading zero bytes
        x = orc::Z::be(rng().bytes(1 + rng().below(255)));
        break;
    case 5: mpz_ui_pow_ui(x.v, 2, rng().below(2047)); break;
    case 6: // around p and q
        mpz_set(x.v, rng().chance(1, 2) ? k.p.v : k.q.v);
        mpz_add_ui(x.v, x.v, rng().below(3));
        mpz_sub_ui(x.v, x.v, 1);
        break;
    default: x = orc::Z::be(rng().bytes(264));
    }
    mpz_mod(x.v, x.v, k.n.v);
    return x.to_be(256);
}
static Bytes over_msg(const orc::Rsa& k)
{
    orc::Z x, top;
    mpz_ui_pow_ui(top.v, 2, 2048);
    switch (rng().below(4)) {
    case 0: mpz_set(x.v, k.n.v); break;
    case 1: mpz_sub_ui(x.v, top.v, 1 + rng().below(3)); break;
    case 2: mpz_add_ui(x.v, k.n.v, rng().below(1000)); break;
    default: {
        orc::Z w;
        mpz_sub(w.v, top.v, k.n.v);
        x = orc::Z::be(rng().bytes(256));
        mpz_mod(x.v, x.v, w.v);
        mpz_add(x.v, x.v, k.n.v);
    }
    }
    if (mpz_cmp(x.v, top.v) >= 0 || mpz_cmp(x.v, k.n.v) < 0) {
        return over_msg(k);
    }
    return x.to_be(256);
}
template<class T>
static void check_eval(const char* who, const T& t, const orc::Rsa& k, const Bytes& m)
{
    note("%s eval key=%s m=%s", who, g_key.c_str(), hex(m, 256).c_str());
    Bytes       want = k.eval(m);
    std::string a, b = "old";
    A           c;
    if (must("eval-throws", [&] { a = t.eval(m); t.eval(m, b); c = t.eval(to_arr<256>(m)); })) {
        CHECK_EQ_BYTES("eval", a, want);
        CHECK_EQ_BYTES("eval-out", b, want);
        CHECK_EQ_BYTES("eval-array", from_arr(c), want);
    }
    tally("evals_checked");
}
static void check_inv(const TdpInverse& t, const orc::Rsa& k, const Bytes& m)
{
    note("invert key=%s m=%s", g_key.c_str(), hex(m, 256).c_str());
    Bytes       want = k.inv(m);
    std::string a, b = "old";
    A           c;
    if (must("invert-throws", [&] { a = t.invert(m); t.invert(m, b); c = t.invert(to_arr<256>(m)); })) {
        CHECK_EQ_BYTES("invert", a, want);
        CHECK_EQ_BYTES("invert-out", b, want);
        CHECK_EQ_BYTES("invert-array", from_arr(c), want);
    }
    tally("inverts_checked");
}
template<class T>
static void bad_sizes(const T& t)
{
    for (size_t n : {size_t(0), size_t(1), size_t(128), size_t(255), size_t(257), size_t(512), (size_t)rng().below(600)}) {
        if (n == 256) {
            continue;
        }
        note("eval of %zu bytes key=%s", n, g_key.c_str());
        std::string in = rng().bytes(n), out = "x";
        if (!throws([&] { t.eval(in, out); }) || !throws([&] { (void)t.eval(in); })) {
            viol("eval-size", "a message of %zu bytes was accepted", n);
        }
        tally("bad_sizes");
    }
}
static void session(const orc::Rsa& k, const std::string& priv_text, const std::string& pub_text, unsigned n)
{
    std::unique_ptr<TdpInverse> inv;
    std::unique_ptr<Tdp>        pub;
    if (!must("key-rejected", [&] { inv.reset(new TdpInverse(priv_text)); pub.reset(new Tdp(pub_text)); })) {
        return;
    }
    // exports are the same key
    std::string e1, e2, e3;
    if (must("export-throws", [&] { e1 = inv->public_key(); e2 = pub->public_key(); e3 = inv->private_key(); })) {
        CHECK_EQ_BYTES("export-public", e1, k.pem_pub());
        CHECK_EQ_BYTES("export-public", e2, k.pem_pub());
        CHECK_EQ_BYTES("export-private", e3, k.pem_priv());
    }
    for (unsigned i = 0; i < n; i++) {
        Bytes m = domain_msg(k);
        switch (rng().below(9)) {
        case 0:
            check_eval("Tdp", *pub, k, m);
            break;
        case 1:
            check_eval("TdpInverse", *inv, k, m);
            break;
        case 2: {
            check_inv(*inv, k, m);
            must("roundtrip", [&] {
                CHECK_EQ_BYTES("invert-eval", inv->invert(pub->eval(m)), m);
                CHECK_EQ_BYTES("eval-invert", pub->eval(inv->invert(m)), m);
            });
            tally("roundtrips");
            break;
        }
        case 3: {
            // outside the domain: evaluation reduces, inversion refuses
            Bytes x = over_msg(k);
            check_eval("Tdp", *pub, k, x);
            note("invert outside key=%s m=%s", g_key.c_str(), hex(x, 256).c_str());
            std::string o = "x";
            if (!throws([&] { inv->invert(x, o); }) || !throws([&] { (void)inv->invert(to_arr<256>(x)); }) || !throws([&] { (void)inv->invert(x); })) {
                viol("invert-outside", "a value not below the modulus was inverted");
            }
            tally("outside_values");
            break;
        }
        case 4: { // copies and assignments
            Tdp c(*pub);
            check_eval("copy", c, k, m);
            Tdp d(pub_text);
            d = c;
            check_eval("assigned", d, k, m);
            d = *&d;
            check_eval("self-assigned", d, k, m);
            CHECK_EQ_BYTES("copy-export", d.public_key(), k.pem_pub());
            std::unique_ptr<Tdp> e(new Tdp(d));
            pub.swap(e);
            e.reset();
            check_eval("original-destroyed", *pub, k, m);
            tally("copies");
            break;
        }
        case 5: { // export and import again
            note("re-import key=%s", g_key.c_str());
            must("reimport-throws", [&] {
                std::unique_ptr<TdpInverse> i2(new TdpInverse(inv->private_key()));
                std::unique_ptr<Tdp>        p2(new Tdp(i2->public_key()));
                CHECK_EQ_BYTES("reimport", i2->private_key(), k.pem_priv());
                inv.swap(i2);
                pub.swap(p2);
            });
            tally("reimports");
            break;
        }
        case 6: {
            TdpInverse moved(std::move(*inv));
            check_inv(moved, k, m);
            inv.reset(new TdpInverse(std::move(moved)));
            tally("moves");
            break;
        }
        case 7: {
            bad_sizes(*pub);
            bad_sizes(*inv);
            for (size_t z : {0, 1, 255, 257, 300}) {
                std::string in = rng().bytes(z), o;
                if (!throws([&] { inv->invert(in, o); }) || !throws([&] { (void)inv->invert(in); })) {
                    viol("invert-size", "a message of %zu bytes was inverted", z);
                }
            }
            break;
        }
        default: {
            // in and out the same string object
            std::string s = m;
            note("aliased string key=%s m=%s", g_key.c_str(), hex(m, 256).c_str());
            must("alias", [&] {
                pub->eval(s, s);
                CHECK_EQ_BYTES("eval-reuse", s, k.eval(m));
                inv->invert(s, s);
                CHECK_EQ_BYTES("invert-reuse", s, m);
                inv->eval(s, s);
                CHECK_EQ_BYTES("eval-reuse", s, k.eval(m));
                tally("in_place");
            });
        }
        }
        seenf("%llx/%llx", (unsigned long long)fnv(g_key.data(), g_key.size()), (unsigned long long)fnv(m.data(), m.size()));
    }
    // assignment between different keys
    tally("sessions");
}
static orc::Rsa from_private(const std::string& text)
{
    // independent parse of the PKCS#1 export
    Bytes der;
    orc::Rsa k;
    if (!orc::unpem(text, "RSA PRIVATE KEY", der)) {
        viol("export-private", "the private key is not PEM");
        return k;
    }
    size_t p = 0;
    auto   tl = [&](uint8_t tag) -> size_t {
        if (p + 2 > der.size() || (uint8_t)der[p] != tag) {
            return SIZE_MAX;
        }
        p++;
        size_t l = (uint8_t)der[p++];
        if (l & 0x80) {
            size_t c = l & 0x7f;
            l        = 0;
            while (c--) {
                l = (l << 8) | (uint8_t)der.at(p++);
            }
        }
        return l;
    };
    std::vector<orc::Z> v;
    if (tl(0x30) == der.size() - p) {
        while (p < der.size() && v.size() < 9) {
            size_t l = tl(2);
            if (l == SIZE_MAX || p + l > der.size()) {
                break;
            }
            v.push_back(orc::Z::be(der.substr(p, l)));
            p += l;
        }
    }
    if (v.size() != 9 || p != der.size()) {
        viol("export-private", "the exported private key does not parse");
        return k;
    }
    k.n = v[1]; k.e = v[2]; k.d = v[3]; k.p = v[4]; k.q = v[5]; k.dp = v[6]; k.dq = v[7]; k.qp = v[8];
    return k;
}
// many evaluations of one object
static void marathon(unsigned n)
{
    orc::Rsa k = orc::make_rsa(rng(), 2048, orc::exponent(0));
    g_key      = "marathon";
    Tdp   t(k.pem_pub());
    Bytes x = domain_msg(k), y = x;
    for (unsigned i = 0; i < n; i++) {
        if (i % 64 == 0) note("evaluation %u of a marathon", i);
        y = k.eval(y);
        if (!must("eval-throws", [&] { t.eval(x, x); })) break;
        if (x != y) {
            viol("eval-marathon", "evaluation %u", i);
            break;
        }
        tally("marathon_evals");
    }
    TdpInverse inv(k.pem_priv());
    for (unsigned i = 0; i < n / 60; i++) {
        if (i % 8 == 0) note("inversion %u of a marathon", i);
        std::string y;
        if (!must("invert-throws", [&] { inv.invert(x, y); })) break;
        if (k.eval(y) != x) {
            viol("invert-marathon", "inversion %u", i);
            break;
        }
        x = y;
        tally("marathon_inverts");
    }
}
static void reborn(int steps)
{
    Slot<Tdp>        pub;
    Slot<TdpInverse> inv;
    orc::Rsa         k[3] = {orc::make_rsa(rng(), 2048, orc::exponent(0)), orc::make_rsa(rng(), 2048, orc::exponent(0)), orc::make_rsa(rng(), 2048, orc::exponent(3))};
    Bytes            m[2];
    g_key = "rebuilt";
    // values below every modulus
    for (auto& x : m) x = Bytes(1, 0) + rng().bytes(255);
    reborn_walk(steps, 3, 2, [&](unsigned i, unsigned j, bool fresh) {
        note("rebuilt trapdoor permutation, key %u", i);
        must("reborn", [&] {
            if (fresh) pub.put(k[i].pem_pub()), inv.put(k[i].pem_priv());
            check_eval("rebuilt Tdp", pub.get(), k[i], m[j]);
            check_eval("rebuilt TdpInverse", inv.get(), k[i], m[j]);
            check_inv(inv.get(), k[i], m[j]);
            CHECK_EQ_BYTES("reborn-export", inv.get().private_key(), k[i].pem_priv());
            CHECK_EQ_BYTES("reborn-export", pub.get().public_key(), k[i].pem_pub());
        });
    });
}
void vh::run()
{
    for (int r = 0; r < (ctx().thorough ? 8 : 1); r++) reborn(14);
    if (getenv("VH_HUGE") && mine(1)) marathon(ctx().thorough ? 200000 : 70000);
    unsigned nk = ctx().thorough ? 24 : 4;
    for (unsigned i = 0; i < nk; i++) {
        orc::Rsa k = orc::make_rsa(rng(), 2048, orc::exponent(i + ctx().shard));
        g_key      = hex(k.p.to_be(128), 128) + "," + hex(k.q.to_be(128), 128) + ",e=" + k.e.str(10);
        note("key %s", g_key.c_str());
        session(k, rng().chance(1, 3) ? k.pem_pkcs8() : k.pem_priv(), k.pem_pub(), ctx().thorough ? 60 : 40);
        tally(("exponent_" + k.e.str(10)).c_str());
        sample("key p=%s... e=%s", hex(k.p.to_be(128), 8).c_str(), k.e.str(10).c_str());
    }
    // assignment replaces the key
    {
        orc::Rsa a = orc::make_rsa(rng(), 2048, orc::exponent(0)), b = orc::make_rsa(rng(), 2048, orc::exponent(1));
        g_key = "assign";
        Tdp ta(a.pem_pub()), tb(b.pem_pub());
        Bytes m = domain_msg(a);
        (void)ta.eval(m);
        (void)tb.eval(m);
        ta = tb;
        check_eval("reassigned", ta, b, m);
        CHECK_EQ_BYTES("reassigned", ta.public_key(), b.pem_pub());
        check_eval("source", tb, b, m);
    }
    // generated keys
    for (unsigned i = 0; i < (ctx().thorough ? 6u : 1u); i++) {
        note("generated key");
        std::string priv, pub;
        if (must("generate-throws", [&] { TdpInverse t; priv = t.private_key(); pub = t.public_key(); })) {
            orc::Rsa k = from_private(priv);
            if (mpz_sizeinbase(k.n.v, 2) == 2048) {
                g_key = "generated " + hex(k.p.to_be(128), 128) + "," + hex(k.q.to_be(128), 128);
                session(k, priv, pub, 25);
                tally("generated_keys");
            } else {
                viol("generated-size", "modulus of %zu bits", mpz_sizeinbase(k.n.v, 2));
            }
        }
    }
}
