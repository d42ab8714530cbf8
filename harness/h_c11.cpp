// C11: wrapping then unwrapping yields an equivalent object.
#include "reborn.hpp"
#include "objects.hpp"
using namespace vh;
using namespace obj;
static void same(const char* key, const Kind& k, Obj& o, const Bytes& secret, int n = 1)
{
    for (int i = 0; i < n; i++) {
        Bytes want, x = probe_for(k, secret, &want), got;
        if (must(key, [&] { got = o.probe(x); }) && got != want) {
            viol(key, "%s: outputs differ on %s: got %s want %s", k.name.c_str(), hex(x, 40).c_str(), hex(got, 60).c_str(), hex(want, 60).c_str());
        }
        tally("probes");
    }
}
static bool blank(const std::vector<uint8_t>& v)
{
    for (uint8_t c : v) {
        if (c != 0) {
            return false;
        }
    }
    return true;
}
static void one(const Kind& k)
{
    Bytes wkey = rng().content(32), secret = secret_for(k);
    note("kind=%s wkey=%s secret=%s", k.name.c_str(), hex(wkey).c_str(), hex(secret).c_str());
    orc::WrapKeys        wk(wkey);
    Wrapper              w = rc::wrapper(wkey), w2 = rc::wrapper(wkey);
    Bytes                content;
    std::unique_ptr<Obj> o;
    if (!must("make-throws", [&] { o = k.make(secret, &content); })) {
        return;
    }
    if (rng().chance(1, 2)) {
        same("original", k, *o, secret);
    }
    if (rng().chance(1, 3)) {
        o->bounce();
    }
    Bytes blob, blob2;
    if (!must("wrap-throws", [&] { blob = o->wrap(w); blob2 = o->wrap(w2); })) {
        return;
    }
    same("wrap-altered-object", k, *o, secret);
    for (const Bytes& b : {blob, blob2}) {
        Bytes c;
        if (b.size() != content.size() + 28) {
            viol("blob-size", "%s: %zu bytes for %zu of content", k.name.c_str(), b.size(), content.size());
        } else if (!wk.open(b, k.type, k.context, c)) {
            viol("blob-layout", "%s: the blob does not open with the documented layout", k.name.c_str());
        } else if (c != content) {
            viol("blob-content", "%s: content %s want %s", k.name.c_str(), hex(c, 200).c_str(), hex(content, 200).c_str());
        }
    }
    // unwrap in the same wrapper, in another holding an equal key, or moved
    Wrapper              w3(std::move(w2));
    std::unique_ptr<Obj> cur;
    std::vector<uint8_t> v(blob.begin(), blob.end());
    if (!must("unwrap-throws", [&] { cur = k.unwrap(w3, v); })) {
        return;
    }
    if (v.size() != blob.size() || !blank(v)) {
        viol("blob-not-consumed", "%s: the blob is left after unwrapping", k.name.c_str());
    }
    same("unwrapped", k, *cur, secret, 2);
    // the other blob stays usable, and gives an independent object
    v.assign(blob2.begin(), blob2.end());
    std::unique_ptr<Obj> second;
    if (must("unwrap-throws", [&] { second = k.unwrap(w, v); })) {
        same("unwrapped", k, *second, secret);
    }
    // chains of wrap and unwrap, in wrappers of fresh keys too
    unsigned depth = 1 + (unsigned)rng().below(4);
    for (unsigned i = 0; i < depth; i++) {
        Bytes   nk = rng().chance(1, 2) ? wkey : rng().bytes(32);
        Wrapper nw = rc::wrapper(nk);
        Bytes   b;
        std::unique_ptr<Obj> next;
        if (!must("chain-throws", [&] {
                b = cur->wrap(nw);
                std::vector<uint8_t> t(b.begin(), b.end());
                next = k.unwrap(nw, t);
                if (!blank(t)) {
                    viol("blob-not-consumed", "%s: the blob is left after unwrapping", k.name.c_str());
                }
            })) {
            return;
        }
        Bytes c;
        if (!orc::WrapKeys(nk).open(b, k.type, k.context, c) || c != content) {
            viol("chain-content", "%s: the content changed in step %u", k.name.c_str(), i);
        }
        if (rng().chance(1, 2)) {
            cur.reset();
        }
        same("chained", k, *next, secret);
        cur = std::move(next);
        tally("chain_steps");
    }
    // a blob made by an independent implementation of the format
    Bytes                made = wk.seal(rng().content(16), k.type, k.context, content);
    std::vector<uint8_t> mv(made.begin(), made.end());
    std::unique_ptr<Obj> third;
    if (must("foreign-unwrap-throws", [&] { third = k.unwrap(w, mv); })) {
        same("foreign", k, *third, secret);
        EXPECT("blob-not-consumed", blank(mv));
        tally("foreign_blobs");
    }
    // objects are independent: dropping the others changes nothing
    cur.reset();
    second.reset();
    same("independent", k, *third, secret);
    same("independent", k, *o, secret);
    seenf("%s/%s", k.name.c_str(), hex(secret).c_str());
    tally(("kind_" + k.name.substr(0, k.name.find('<'))).c_str());
    sample("%s secret=%s blob=%s", k.name.c_str(), hex(secret, 24).c_str(), hex(blob, 40).c_str());
}
// the empty constrained PRF is an object too
template<uint16_t N>
static void empty_con()
{
    note("empty constrained N=%u", N);
    Wrapper                                                      w = rc::wrapper(rng().bytes(32));
    std::vector<std::unique_ptr<ConstrainedRCPrfElement<N>>>     none;
    ConstrainedRCPrf<N>                                          e(std::move(none));
    must("empty-throws", [&] {
        auto                b = w.wrap(e);
        ConstrainedRCPrf<N> f = w.template unwrap<ConstrainedRCPrf<N>>(b);
        EXPECT("empty-changed", f.is_empty() && f.min_leaf() == e.min_leaf() && f.max_leaf() == e.max_leaf());
        EXPECT("empty-eval", throws([&] { (void)f.eval(0); }));
    });
    seenf("empty/%u", N);
    tally("empty_objects");
}
// large covers: every alignment of the two ends of tall trees
static void tall(const Kind& k, unsigned h)
{
    uint64_t L = (1ull << (h - 1)) - 1;
    Bytes    content, secret = tree_secret(rng().bytes(32), h, 1, L - 1);
    note("tall %s h=%u", k.name.c_str(), h);
    Bytes wkey = rng().bytes(32);
    Wrapper w = rc::wrapper(wkey);
    must("tall-throws", [&] {
        auto                 o = k.make(secret, &content);
        Bytes                b = o->wrap(w), c;
        std::vector<uint8_t> v(b.begin(), b.end());
        EXPECT("blob-content", orc::WrapKeys(wkey).open(b, k.type, k.context, c) && c == content);
        auto u = k.unwrap(w, v);
        same("unwrapped", k, *u, secret, 4);
    });
    seenf("tall/%s/%u", k.name.c_str(), h);
    tally("tall_objects");
}
// wrappers and unwrapped objects living one after the other
static void reborn(const Kind& k, int steps)
{
    Slot<Wrapper>        w;
    Bytes                wkeys[3] = {rng().bytes(32), rng().bytes(32), ""}, secrets[2] = {secret_for(k), secret_for(k)}, content[2];
    std::unique_ptr<Obj> o[2], u;
    wkeys[2] = wkeys[0];
    wkeys[2][rng().below(32)] ^= char(1 << rng().below(8));
    if (!must("make-throws", [&] { for (int i = 0; i < 2; i++) o[i] = k.make(secrets[i], &content[i]); })) return;
    Bytes iv = rng().bytes(16);
    reborn_walk(steps, 3, 2, [&](unsigned i, unsigned j, bool fresh) {
        note("rebuilt wrapper kind=%s wkey=%s secret=%s", k.name.c_str(), hex(wkeys[i]).c_str(), hex(secrets[j]).c_str());
        orc::WrapKeys wk(wkeys[i]);
        must("reborn", [&] {
            if (fresh) w.put(rc::wrapper(wkeys[i]));
            Bytes c, blob = o[j]->wrap(w.get());
            if (!wk.open(blob, k.type, k.context, c) || c != content[j]) viol("reborn-blob", "%s: a rebuilt wrapper gives another blob", k.name.c_str());
            Bytes                made = wk.seal(iv, k.type, k.context, content[j]);
            std::vector<uint8_t> v(made.begin(), made.end());
            u.reset();
            u = k.unwrap(w.get(), v);
            same("reborn", k, *u, secrets[j]);
            if (rng().chance(1, 4)) {
                o[j].reset();
                secrets[j] = secret_for(k);
                o[j]       = k.make(secrets[j], &content[j]);
            }
        });
    });
}
void vh::run()
{
    for (auto& k : kinds())
        for (int r = 0; r < (ctx().thorough ? 10 : 1); r++) reborn(k, 20);
    unsigned reps = ctx().thorough ? 120 : 12, i = 0;
    for (unsigned r = 0; r < reps; r++) {
        for (auto& k : kinds()) {
            if (mine(i++)) {
                one(k);
            }
        }
    }
    for (auto& k : kinds()) {
        if (k.type == 6) {
            for (unsigned h = 3; h <= 64; h += 1) {
                if (mine(i++)) {
                    tall(k, h);
                }
            }
        }
    }
    if (getenv("VH_HUGE")) {
        for (auto& k : big_kinds()) {
            for (unsigned r = 0; r < (ctx().thorough ? 10u : 2u); r++) {
                if (mine(i++)) {
                    one(k);
                    tally("large_kinds");
                }
            }
            for (unsigned h : {3u, 4u, 6u, 30u, 64u}) {
                if (k.type == 6 && mine(i++)) tall(k, h);
            }
        }
    }
    if (mine(i++)) empty_con<16>();
    if (mine(i++)) empty_con<32>();
    if (mine(i++)) empty_con<7>();
    Kind t = tdp_kind();
    fill_rsa_pool(ctx().thorough ? 8 : 2);
    for (unsigned r = 0; r < (ctx().thorough ? 24u : 4u); r++) {
        one(t);
    }
    // a generated key too
    if (ctx().shard < 2) {
        note("generated TdpInverse");
        must("tdp-throws", [&] {
            TdpInverse           g;
            std::string          pub = g.public_key(), prv = g.private_key(), m = g.sample(), inv = g.invert(m);
            Wrapper              w = rc::wrapper(rng().bytes(32));
            auto                 b = w.wrap(g);
            EXPECT("blob-size", b.size() == prv.size() + 28);
            TdpInverse           u = w.unwrap<TdpInverse>(b);
            EXPECT("unwrapped", u.public_key() == pub && u.private_key() == prv && u.invert(m) == inv && u.eval(inv) == m);
            EXPECT("wrap-altered-object", g.private_key() == prv && g.invert(m) == inv);
        });
        tally("kind_generated_tdp");
    }
}
