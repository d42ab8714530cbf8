// C26: puncturable encryption decrypts exactly the un-punctured tags.
// The scheme's own code runs on a stand-in for the pairing groups (the algebra
// of the real ones, see fakerelic/relic/relic.h). The model of a session is the
// set of punctured tags; every ciphertext is tried against it after each step.
#include "oracle.hpp"
#include "ppke/GMPpke.hpp"
#include <sse/crypto/puncturable_enc.hpp>
#include <sse/crypto/utils.hpp>
#include <set>
#include <sstream>
using namespace vh;
using namespace sse::crypto;
typedef punct::tag_type Tag;

static uint8_t* W(Bytes& b)
{
    return reinterpret_cast<uint8_t*>(&b[0]);
}
static Key<32> mk(const Bytes& b)
{
    Bytes t = b;
    return Key<32>(W(t));
}
static Tag nulltag()
{
    return Gmppke::NULLTAG;
}
// tags which are random, close to one another, or close to the reserved one
static Tag tag(const std::vector<Tag>& others)
{
    for (;;) {
        Tag t;
        switch (rng().below(6)) {
        case 0: t = nulltag(); t[rng().below(16)] ^= uint8_t(1u << rng().below(8)); break;
        case 1: t.fill(uint8_t(rng().below(2) ? 0 : 0xff)); t[rng().below(16)] ^= uint8_t(rng().below(4)); break;
        case 2:
        case 3:
            if (!others.empty()) {
                t = others[rng().below(others.size())];
                t[rng().below(16)] ^= uint8_t(1u << rng().below(8));
                break;
            }
            // fall through
        default: rng().fill(t.data(), 16);
        }
        if (t != nulltag()) return t;
    }
}
static uint64_t msg()
{
    switch (rng().below(5)) {
    case 0: return rng().below(3);
    case 1: return ~0ull - rng().below(3);
    case 2: return 1ull << rng().below(64);
    default: return rng().next();
    }
}
template<class F>
static bool refuses(const char* what, F f)
{
    try {
        f();
    } catch (const std::exception&) {
        return true;
    } catch (...) {
        viol("strange-exception", "%s throws something else than an exception", what);
        return true;
    }
    return false;
}
struct Ct
{
    punct::ciphertext_type c;
    Tag                    t;
    uint64_t               m;
};
// ---------------------------------------------- the public encryption classes
static void session(unsigned no)
{
    Bytes                                  key = rng().bytes(32);
    std::unique_ptr<PuncturableEncryption> e(new PuncturableEncryption(mk(key)));
    std::unique_ptr<PuncturableEncryption> other(new PuncturableEncryption(mk(rng().bytes(32))));
    std::vector<Tag>                       tags;   // everything ever used
    std::set<Tag>                          dead;   // punctured
    punct::punctured_key_type              shares; // 1..d, stored apart
    std::vector<Ct>                        cts;
    const unsigned                         steps = 6 + (unsigned)rng().below(ctx().thorough ? 40 : 14);
    for (unsigned i = 0; i < steps; i++) {
        note("session %u step %u, %zu punctures", no, i, shares.size());
        if (rng().chance(1, 5)) { // a new object with the same key continues
            e.reset(new PuncturableEncryption(mk(key)));
            tally("reopened");
        }
        unsigned n = (unsigned)rng().below(3);
        for (unsigned j = 0; j < n; j++) { // encrypt, possibly under a dead tag
            Ct x;
            x.t = !tags.empty() && rng().chance(1, 2) ? tags[rng().below(tags.size())] : tag(tags);
            x.m = msg();
            x.c = e->encrypt(x.m, x.t);
            tags.push_back(x.t);
            if (punct::extract_tag(x.c) != x.t) viol("ciphertext-tag", "the ciphertext does not carry its tag");
            for (auto& y : cts) {
                if (y.c == x.c) viol("repeated-ciphertext", "two encryptions gave the same ciphertext");
            }
            GmmppkeCT<uint64_t>    p(x.c.data());
            punct::ciphertext_type again;
            p.writeBytes(again.data());
            if (again != x.c) viol("ciphertext-encoding", "a ciphertext does not survive decoding and encoding");
            cts.push_back(x);
            tally("encryptions");
        }
        if (rng().chance(2, 3)) { // puncture
            Tag    t = !tags.empty() && rng().chance(1, 2) ? tags[rng().below(tags.size())] : tag(tags);
            size_t d = shares.size() + 1;
            auto   s = e->inc_puncture(d, t);
            if (punct::extract_tag(s) != t) viol("share-tag", "the key share does not carry its tag");
            GmppkePrivateKeyShare  p(s.data());
            punct::key_share_type  again;
            p.writeBytes(again.data());
            if (again != s) viol("share-encoding", "a key share does not survive decoding and encoding");
            if (PuncturableEncryption(mk(key)).inc_puncture(d, t) != s) viol("share-unstable", "the same puncture gives another key share");
            shares.push_back(s);
            if (dead.count(t)) tally("punctured_twice");
            dead.insert(t);
            tags.push_back(t);
            tally("punctures");
        }
        const size_t              d = shares.size();
        punct::punctured_key_type k;
        k.push_back(e->initial_keyshare(d));
        k.insert(k.end(), shares.begin(), shares.end());
        PuncturableDecryption dec(k);
        for (size_t c = 0; c < cts.size(); c++) {
            if (cts.size() > 10 && !rng().chance(10, (unsigned)cts.size())) continue;
            uint64_t m  = ~cts[c].m;
            bool     ok = dec.decrypt(cts[c].c, m);
            if (dead.count(cts[c].t)) {
                if (ok || m == cts[c].m) viol("punctured-decrypts", "a punctured tag still decrypts (%zu punctures)", d);
                tally("refused");
            } else {
                if (!ok) viol("refused", "a tag which was not punctured is refused (%zu punctures)", d);
                else if (m != cts[c].m) viol("wrong-message", "decryption gives a wrong message (%zu punctures)", d);
                tally("decrypted");
            }
            seenf("%u/%u/%zu", no, i, c);
        }
        // keys that lack a puncture, or do not belong together, are of no use
        if (!cts.empty()) {
            const Ct&                 x = cts[rng().below(cts.size())];
            punct::punctured_key_type h = k;
            const char*               what;
            switch (rng().below(5)) {
            case 0:
                if (d == 0) continue;
                h.erase(h.begin() + 1 + (long)rng().below(d));
                what = "a key with a puncture taken out";
                break;
            case 1:
                h[0] = e->initial_keyshare(d + 1);
                what = "a key with the first share of the next one";
                break;
            case 2:
                if (d == 0) continue;
                h[0] = e->initial_keyshare(d - 1);
                what = "a key with the first share of the previous one";
                break;
            case 3:
                h[0] = other->initial_keyshare(d);
                what = "a key with the first share of a stranger";
                break;
            default:
                if (d == 0) continue;
                h.erase(h.begin());
                what = "a key without its first share";
            }
            uint64_t m = ~x.m;
            bool     ok = false;
            try {
                ok = PuncturableDecryption(h).decrypt(x.c, m);
            } catch (const std::exception&) {
            }
            if (ok && m == x.m) viol("useless-key-decrypts", "%s decrypts", what);
            tally("useless_keys");
        }
        // the tag of the ciphertext is bound to the message
        if (!cts.empty()) {
            Ct x = cts[rng().below(cts.size())];
            x.c[x.c.size() - 1 - rng().below(16)] ^= uint8_t(1u << rng().below(8));
            uint64_t m = ~x.m;
            bool     ok = false;
            try {
                ok = dec.decrypt(x.c, m);
            } catch (const std::exception&) {
            }
            if (ok && m == x.m) viol("tag-changed", "a ciphertext with another tag decrypts to the message");
            tally("relabelled");
        }
    }
    // a stranger's key
    if (!cts.empty()) {
        uint64_t m = ~cts[0].m;
        if (PuncturableDecryption({other->initial_keyshare(0)}).decrypt(cts[0].c, m) && m == cts[0].m) viol("stranger-decrypts", "another key decrypts");
        if (!refuses("encrypt", [&] { e->encrypt(1, nulltag()); })) viol("nulltag", "the reserved tag is accepted by encrypt");
        if (!refuses("inc_puncture", [&] { e->inc_puncture(1, nulltag()); })) viol("nulltag", "the reserved tag is accepted by inc_puncture");
        tally("reserved_tags", 2);
    }
    tally("sessions");
}
// ----------------------------------------- the scheme, with all shares together
template<class T>
static void scheme(unsigned no)
{
    Gmppke                 g;
    GmppkePublicKey        pk;
    GmppkePrivateKey       sk;
    GmppkeSecretParameters sp;
    Bytes                  key = rng().bytes(32);
    unsigned               how = (unsigned)rng().below(3);
    if (how == 0) g.keygen(pk, sk, sp);
    else if (how == 1) g.keygen(mk(key), pk, sk, sp);
    else {
        Prf<kPPKEPrfOutputSize> f(mk(key));
        g.keygen(f, pk, sk, sp);
    }
    struct C
    {
        GmmppkeCT<T> c;
        Tag          t;
        T            m;
    };
    std::vector<C>   cts;
    std::vector<Tag> tags;
    std::set<Tag>    dead;
    if (sk.punctured()) viol("fresh-key", "a fresh key claims to be punctured");
    for (unsigned i = 0; i < 8; i++) {
        note("scheme %u, keygen %u, step %u", no, how, i);
        for (unsigned j = rng().below(3); j > 0; j--) {
            C x;
            x.t = !tags.empty() && rng().chance(1, 2) ? tags[rng().below(tags.size())] : tag(tags);
            x.m = (T)msg();
            if (rng().chance(1, 2)) {
                x.c = g.encrypt<T>(pk, x.m, x.t);
                tally("public_encryptions");
            } else {
                x.c = g.encrypt<T>(sp, x.m, x.t);
                tally("secret_encryptions");
            }
            Bytes b(GmmppkeCT<T>::kCTByteSize + 2, char(0x77));
            x.c.writeBytes(W(b) + 1);
            if (b[0] != 0x77 || b.back() != 0x77) viol("ciphertext-size", "encoding a ciphertext writes outside its size");
            GmmppkeCT<T> y(U(b) + 1);
            if (y != x.c || !(y == x.c)) viol("ciphertext-encoding", "a decoded ciphertext differs");
            x.c = y;
            tags.push_back(x.t);
            cts.push_back(x);
        }
        if (rng().chance(1, 2)) {
            Tag t = !tags.empty() && rng().chance(1, 2) ? tags[rng().below(tags.size())] : tag(tags);
            g.puncture(pk, sk, t);
            dead.insert(t);
            tags.push_back(t);
            tally("punctures_together");
            if (!sk.punctured()) viol("punctured", "a punctured key does not say so");
        }
        for (auto& t : tags) {
            if (sk.isPuncturedOnTag(t) != (dead.count(t) != 0)) viol("is-punctured", "isPuncturedOnTag is wrong");
        }
        for (auto& x : cts) {
            T    m  = (T)~x.m;
            bool ok = g.decrypt<T>(sk, x.c, m);
            if (dead.count(x.t)) {
                if (ok || m == x.m) viol("punctured-decrypts", "a punctured tag still decrypts");
                if (!refuses("decrypt", [&] { g.decrypt<T>(sk, x.c); })) viol("punctured-decrypts", "the throwing decryption accepts a punctured tag");
                // even without the check on the tag
                bool same = false;
                try {
                    same = sizeof(T) == 8 && g.decrypt_unchecked<T>(sk, x.c) == x.m;
                } catch (const std::exception&) {
                }
                if (same) viol("punctured-decrypts", "a punctured key can still compute the message");
                tally("refused_together");
            } else {
                if (!ok || m != x.m || g.decrypt<T>(sk, x.c) != x.m) viol("wrong-message", "decryption with all shares fails");
                tally("decrypted_together");
            }
            seenf("s%zu/%u/%u", sizeof(T), no, i);
        }
    }
    if (!refuses("puncture", [&] { g.puncture(pk, sk, nulltag()); })) viol("nulltag", "the reserved tag can be punctured");
    if (!refuses("encrypt", [&] { g.encrypt<T>(pk, 1, nulltag()); })) viol("nulltag", "the reserved tag is accepted by encrypt");
    if (!refuses("encrypt", [&] { g.encrypt<T>(sp, 1, nulltag()); })) viol("nulltag", "the reserved tag is accepted by encrypt");
    // shares made apart agree with the key made at once, whose parameters they share
    if (how != 0 && sizeof(T) == 8) {
        PuncturableEncryption e(mk(key));
        Gmppke                g2;
        GmppkePublicKey       pk2;
        GmppkePrivateKey      sk2;
        GmppkeSecretParameters sp2;
        g2.keygen(mk(key), pk2, sk2, sp2);
        if (pk2 != pk || sp2 != sp) viol("keygen-unstable", "the same key gives other parameters");
        Tag      t = tag(tags), u = tag(tags);
        uint64_t m0 = msg(), m1 = ~m0;
        auto     c  = e.encrypt(m0, t);
        if (t != u) g2.puncture(pk2, sk2, u);
        uint64_t mm = g2.decrypt<uint64_t>(sk2, GmmppkeCT<uint64_t>(c.data()));
        if (t != u && mm != m0) viol("apart-together", "a ciphertext does not decrypt with the key made at once");
        punct::ciphertext_type cb;
        g2.encrypt<uint64_t>(pk2, m0, t).writeBytes(cb.data());
        punct::punctured_key_type k{e.initial_keyshare(1), e.inc_puncture(1, u)};
        bool                      ok = PuncturableDecryption(k).decrypt(cb, m1);
        if (t != u && (!ok || m1 != m0)) viol("apart-together", "a ciphertext of the public key does not decrypt with separately made shares");
        if (t == u && ok) viol("apart-together", "a punctured tag decrypts");
        tally("apart_together");
    }
}
// ------------------------------------------------ many punctures, and late ones
// One long history: the key is tried around the counts at which a counter that
// is too narrow would start again.
static void long_history(unsigned count)
{
    Bytes                     key = rng().bytes(32);
    PuncturableEncryption     e(mk(key));
    punct::punctured_key_type shares;
    std::vector<Ct>           cts;
    std::vector<Tag>          tags;
    for (unsigned i = 0; i < 12; i++) {
        Ct x;
        x.t = tag(tags);
        x.m = msg();
        x.c = e.encrypt(x.m, x.t);
        bool dup = false;
        for (auto& y : cts) dup = dup || y.t == x.t;
        if (dup) continue;
        tags.push_back(x.t);
        cts.push_back(x);
    }
    std::set<Tag>                   live(tags.begin(), tags.end()), dead;
    std::set<punct::key_share_type> seen;
    for (unsigned d = 1; d <= count; d++) {
        Tag t;
        if (d == 3 || d == 200 || d == 256 || d == 257 || d == count) t = cts[d % cts.size()].t;
        else do rng().fill(t.data(), 16);
            while (t == nulltag() || live.count(t));
        dead.insert(t);
        auto s = e.inc_puncture(d, t);
        if (!seen.insert(s).second) viol("share-repeated", "two punctures have the same share");
        shares.push_back(s);
        bool look = d < 3 || d == 127 || d == 128 || (d >= 255 && d <= 258) || d == 300 || d == 511 || d == 512 || d == 1000 || (d >= 65535 && d <= 65538) || d == count;
        if (!look) continue;
        note("long history, %u punctures", d);
        punct::punctured_key_type k;
        k.push_back(e.initial_keyshare(d));
        k.insert(k.end(), shares.begin(), shares.end());
        PuncturableDecryption dec(k);
        unsigned              did = 0;
        for (auto& x : cts) {
            if (d > 2000 && ++did > 4) break;
            uint64_t m  = ~x.m;
            bool     ok = dec.decrypt(x.c, m);
            if (dead.count(x.t)) {
                if (ok || m == x.m) viol("punctured-decrypts", "a punctured tag still decrypts (%u punctures)", d);
            } else if (!ok || m != x.m) viol("wrong-message", "a tag which was not punctured does not decrypt (%u punctures)", d);
            seenf("long/%u", d);
            tally("late_decryptions");
        }
        // a first share with fewer punctures behind it than the key claims
        for (unsigned less : {1u, 128u, 256u, 65536u}) {
            if (less > d) continue;
            punct::punctured_key_type h;
            h.push_back(k[0]);
            h.insert(h.end(), shares.begin(), shares.begin() + (long)(d - less));
            uint64_t m  = ~cts[0].m;
            bool     ok = PuncturableDecryption(h).decrypt(cts[0].c, m);
            if (ok && m == cts[0].m) viol("useless-key-decrypts", "a key whose last %u punctures are left out decrypts (%u punctures)", less, d);
            tally("punctures_left_out");
        }
    }
    tally("long_histories");
}
// The first share of the state with d punctures and the d-th share together
// hold what the first share of the previous state held, for every d: seen
// through the (meaningless) message that either key computes.
static void any_count(unsigned no)
{
    Bytes                 key = rng().bytes(32);
    PuncturableEncryption e(mk(key));
    Ct                    x;
    x.t = tag({});
    x.m = msg();
    x.c = e.encrypt(x.m, x.t);
    std::set<uint64_t>              states;
    std::set<punct::key_share_type> shares;
    std::set<uint64_t>              ds = {1, 2, 3, 9, 10, 11};
    for (unsigned b : {7u, 8u, 15u, 16u, 24u, 31u, 32u, 33u, 48u, 62u, 63u}) {
        for (int k = -1; k <= 3; k++) ds.insert((1ull << b) + (uint64_t)(int64_t)k);
    }
    for (uint64_t v = 10; v < 10000000000000000000ull / 10; v *= 10) ds.insert(v);
    ds.insert(~0ull);
    ds.insert(~0ull - 1);
    for (int i = 0; i < 8; i++) ds.insert(1 + (rng().next() >> rng().below(63)));
    for (uint64_t d : ds) {
        note("count %llu", (unsigned long long)d);
        Tag      t;
        do t = tag({x.t});
        while (t == x.t);
        auto     first = e.initial_keyshare(d), share = e.inc_puncture(d, t), before = e.initial_keyshare(d - 1);
        uint64_t a = 0, b = 0, c = 0;
        bool     oa = PuncturableDecryption({first, share}).decrypt(x.c, a);
        bool     ob = PuncturableDecryption({before}).decrypt(x.c, b);
        bool     oc = PuncturableDecryption({first}).decrypt(x.c, c);
        if (oa != ob || a != b) viol("step", "the step from %llu punctures to the next loses the key", (unsigned long long)(d - 1));
        if (oc && c == x.m) viol("useless-key-decrypts", "the first share after %llu punctures decrypts alone", (unsigned long long)d);
        if (!states.insert(c).second) viol("state-repeated", "the state after %llu punctures was seen before", (unsigned long long)d);
        if (!shares.insert(first).second || !shares.insert(share).second) viol("share-repeated", "a share at %llu was seen before", (unsigned long long)d);
        if (PuncturableEncryption(mk(key)).initial_keyshare(d) != first) viol("share-unstable", "the same state gives another first share");
        // a share belongs to its place
        uint64_t f = 0;
        bool     of = PuncturableDecryption({first, e.inc_puncture(d == 1 ? 2 : d - 1, t)}).decrypt(x.c, f);
        if (of && f == b) viol("share-misplaced", "the share of another puncture does as well at %llu", (unsigned long long)d);
        seenf("count/%u/%llu", no, (unsigned long long)d);
        tally("counts");
    }
}
// --------------------------------------------------- numbers and group elements
static orc::Z zv(const relicxx::ZR& z)
{
    auto v = z.getBytes();
    return orc::Z::be(Bytes(v.begin(), v.end()));
}
static void algebra(unsigned no)
{
    using namespace relicxx;
    PairingGroup g;
    orc::Z       r = zv(g.order());
    auto         num = [&]() -> ZR {
        switch (rng().below(5)) {
        case 0: return ZR((int)rng().below(4));
        case 1: return g.order() - ZR((int)(1 + rng().below(3)));
        default: return g.randomZR();
        }
    };
    ZR a = num(), b = num();
    note("algebra %u: a=%s b=%s", no, zv(a).str().c_str(), zv(b).str().c_str());
    orc::Z A = zv(a), B = zv(b), X;
    auto is = [&](const char* what, const ZR& got) {
        mpz_mod(X.v, X.v, r.v);
        if (mpz_cmp(zv(got).v, X.v) != 0) viol("scalar", "%s: %s, expected %s", what, zv(got).str().c_str(), X.str().c_str());
        if (!got.ismember()) viol("scalar-range", "%s is not reduced", what);
        tally("scalars");
    };
    mpz_add(X.v, A.v, B.v); is("a+b", a + b);
    mpz_sub(X.v, A.v, B.v); is("a-b", a - b);
    mpz_mul(X.v, A.v, B.v); is("a*b", a * b);
    mpz_powm(X.v, A.v, B.v, r.v); is("a^b", g.exp(a, b));
    if (mpz_sgn(B.v) != 0) {
        mpz_invert(X.v, B.v, r.v); is("1/b", b.inverse());
        mpz_mul(X.v, X.v, A.v); is("a/b", a / b);
        mpz_neg(X.v, B.v); is("-b", -b);
    } else {
        bool t = false;
        try {
            a / b;
        } catch (const RelicDividByZero&) {
            t = true;
        }
        if (!t) viol("division", "division by zero is accepted");
    }
    Bytes h = Bytes(1, 1) + rng().bytes(rng().below(50));
    X = orc::Z::be(orc::digest("SHA256", h));
    is("hash", g.hashListToZR(h.substr(1)));
    // pairing and encodings
    G1 p = g.exp(g.generatorG1(), a), q = g.exp(g.randomG1(), b);
    G2 s = g.exp(g.generatorG2(), b), t = g.randomG2();
    if (g.pair(p, s) != g.exp(g.generatorGT(), a * b) || g.pair(s, p) != g.pair(p, s)) viol("pairing", "the pairing is not bilinear");
    if (g.mul(p, q) != g.mul(q, p) || g.div(g.mul(p, q), q) != p || g.mul(g.inv(p), p) != G1()) viol("group", "G1 arithmetic");
    if (g.mul(s, t) != g.mul(t, s) || g.div(g.mul(s, t), t) != s || g.mul(g.inv(s), s) != G2()) viol("group", "G2 arithmetic");
    GT w = g.pair(q, t), x = g.randomGT();
    if (g.mul(w, x) != g.mul(x, w) || g.div(g.mul(w, x), x) != w || g.mul(g.inv(w), w) != GT()) viol("group", "GT arithmetic");
    for (bool compress : {false, true}) {
        for (int i = 0; i < 2; i++) {
            G1 e1 = i ? g.randomG1() : p + g.generatorG1();
            G2 e2 = i ? g.randomG2() : s + g.generatorG2();
            if (e1 == G1() || e2 == G2()) continue;
            auto v1 = e1.getBytes(compress);
            auto v2 = e2.getBytes(compress);
            auto v3 = x.getBytes(compress);
            Bytes o1(v1.size() + 1, char(7)), o2(v2.size() + 1, char(7)), o3(v3.size() + 1, char(7));
            e1.writeBytes(W(o1), compress);
            e2.writeBytes(W(o2), compress);
            x.writeBytes(W(o3), compress);
            if (v1.size() != (compress ? G1::kCompactByteSize : G1::kByteSize) || Bytes(v1.begin(), v1.end()) != o1.substr(0, v1.size()) || o1.back() != 7) viol("encoding", "G1");
            if (v2.size() != (compress ? G2::kCompactByteSize : G2::kByteSize) || Bytes(v2.begin(), v2.end()) != o2.substr(0, v2.size()) || o2.back() != 7) viol("encoding", "G2");
            if (v3.size() != (compress ? GT::kCompactByteSize : GT::kByteSize) || Bytes(v3.begin(), v3.end()) != o3.substr(0, v3.size()) || o3.back() != 7) viol("encoding", "GT");
            if (G1(v1.data(), compress) != e1 || G2(v2.data(), compress) != e2 || GT(v3.data(), compress) != x) viol("encoding", "an element does not survive encoding and decoding");
            tally("elements");
        }
    }
    std::ostringstream os;
    os << a << p << s << w;
    if (os.str().find("0x") == std::string::npos) viol("print", "elements are not printed");
    seenf("a%u/%s/%s", no, zv(a).str().c_str(), zv(b).str().c_str());
}
void vh::run()
{
    if (ctx().shard == 0) {
        long_history(300);
#if defined(NDEBUG)
        long_history(ctx().thorough ? 140000 : 66000);
#endif
    }
    for (unsigned i = 0; i < (ctx().thorough ? 40u : 4u); i++) {
        if (mine(i + 1)) any_count(i);
    }
    unsigned n = ctx().thorough ? 1500 : 100;
    for (unsigned i = 0; i < n; i++) {
        if (!mine(i)) continue;
        session(i);
        scheme<uint64_t>(i);
        if (i % 3 == 0) scheme<uint32_t>(i);
    }
    for (unsigned i = 0; i < n * 5; i++) {
        if (mine(i)) algebra(i);
    }
}
