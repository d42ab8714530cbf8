// C12: unwrapping rejects everything which was not wrapped as that kind.
#include "reborn.hpp"
#include "objects.hpp"
using namespace vh;
using namespace obj;
typedef std::vector<uint8_t> Blob;
static void reject(const char* how, const Kind& k, const Wrapper& w, const Bytes& bad)
{
    Blob b(bad.begin(), bad.end());
    std::string what;
    Outcome     o = outcome([&] { (void)k.unwrap(w, b); }, &what);
    if (o == OK) {
        viol(how, "%s accepted a blob it should reject: %s", k.name.c_str(), hex(bad, 100).c_str());
    } else if (o == OTHER || o == BAD_ALLOC) {
        viol(how, "%s: unexpected kind of failure: %s", k.name.c_str(), what.c_str());
    }
    if (o != OK && Bytes(b.begin(), b.end()) != bad) {
        viol("blob-modified", "%s: a rejected blob was modified (%s)", k.name.c_str(), how);
    }
    tally(how);
    evals()++;
}
static void mutations(const Kind& k, unsigned budget, Bytes secret = "", Bytes secret2 = "")
{
    if (secret.empty()) secret = secret_for(k);
    if (secret2.empty()) secret2 = secret_for(k);
    Bytes                wkey = rng().bytes(32);
    Wrapper              w    = rc::wrapper(wkey);
    std::unique_ptr<Obj> o    = k.make(secret, nullptr);
    Bytes                blob = o->wrap(w), blob2 = o->wrap(w);
    std::unique_ptr<Obj> p     = k.make(secret2, nullptr);
    Bytes                other = p->wrap(w);
    note("kind=%s wkey=%s secret=%s blob=%s", k.name.c_str(), hex(wkey).c_str(), hex(secret).c_str(), hex(blob, 400).c_str());
    size_t n = blob.size();
    // bits: all of them if affordable; always those of IV and tag
    for (size_t i = 0; i < 8 * n; i++) {
        size_t byte = i / 8;
        if (8 * n > budget && byte >= 16 + 24 && byte + 12 < n && !rng().chance(budget, (unsigned)(8 * n))) {
            continue;
        }
        Bytes b = blob;
        b[byte] ^= char(1u << (i % 8));
        reject("bitflip", k, w, b);
    }
    for (int i = 0; i < 30; i++) {
        Bytes    b = blob;
        unsigned f = 2 + (unsigned)rng().below(6);
        for (unsigned j = 0; j < f; j++) {
            b[rng().below(n)] ^= char(1 + rng().below(255));
        }
        if (b != blob) {
            reject("multiflip", k, w, b);
        }
        // same flip in two places: sums and parities cancel
        b          = blob;
        size_t x = rng().below(n), y = rng().below(n);
        if (x != y) {
            char m = char(1 + rng().below(255));
            b[x] ^= m;
            b[y] ^= m;
            reject("paired_flip", k, w, b);
            b = blob;
            std::swap(b[x], b[y]);
            if (b != blob) {
                reject("swap", k, w, b);
            }
        }
    }
    // whole fields replaced
    for (char c : {char(0), char(0xff)}) {
        reject("field", k, w, Bytes(16, c) + blob.substr(16));
        reject("field", k, w, blob.substr(0, n - 12) + Bytes(12, c));
        reject("field", k, w, blob.substr(0, 16) + Bytes(n - 28, c) + blob.substr(n - 12));
    }
    // truncations and extensions
    for (size_t l = 0; l < n; l++) {
        if (n > 300 && l > 60 && l + 60 < n && !rng().chance(60, (unsigned)n)) {
            continue;
        }
        reject("truncated", k, w, blob.substr(0, l));
        if (rng().chance(1, 3)) {
            reject("cut_front", k, w, blob.substr(n - l));
            size_t at = rng().below(l + 1);
            reject("cut_inside", k, w, blob.substr(0, at) + blob.substr(at + (n - l)));
        }
    }
    for (size_t l : {1, 2, 3, 4, 8, 12, 16, 17, 28, 32, 48, 64, 100, 500}) {
        reject("extended", k, w, blob + rng().bytes(l));
        reject("extended", k, w, blob + Bytes(l, 0));
        reject("extended", k, w, rng().bytes(l) + blob);
        size_t at = rng().below(n);
        reject("extended", k, w, blob.substr(0, at) + rng().bytes(l) + blob.substr(at));
    }
    reject("doubled", k, w, blob + blob);
    reject("doubled", k, w, blob + blob2);
    // splices of two genuine blobs
    for (const Bytes* q : {&blob2, &other}) {
        if (*q == blob) {
            continue;
        }
        auto sp = [&](const Bytes& s) {
            if (s != blob && s != blob2 && s != other) {
                reject("splice", k, w, s);
            }
        };
        size_t m = q->size();
        sp(q->substr(0, 16) + blob.substr(16));
        sp(blob.substr(0, n - 12) + q->substr(m - 12));
        sp(q->substr(0, m - 12) + blob.substr(n - 12));
        if (m == n) {
            for (int i = 0; i < 12; i++) {
                size_t at = rng().below(n + 1);
                sp(blob.substr(0, at) + q->substr(at));
                sp(q->substr(0, at) + blob.substr(at));
            }
        }
    }
    // other wrapping keys: all neighbours
    for (unsigned i = 0; i < 256; i++) {
        if (k.slow && !rng().chance(1, 16)) {
            continue;
        }
        Bytes nk = wkey;
        nk[i / 8] ^= char(1u << (i % 8));
        Wrapper nw = rc::wrapper(nk);
        reject("neighbour_key", k, nw, blob);
    }
    // random
    for (int i = 0; i < 20; i++) {
        reject("random", k, w, rng().content(rng().chance(1, 2) ? n : rng().below(200)));
    }
    // the genuine blobs are still good
    Blob g(blob.begin(), blob.end());
    must("genuine-rejected", [&] {
        auto  u = k.unwrap(w, g);
        Bytes want, x = probe_for(k, secret, &want);
        EXPECT("genuine-wrong", u->probe(x) == want);
    });
    seenf("mut/%s/%s", k.name.c_str(), hex(wkey).c_str());
    tally("mutated_blobs");
    sample("%s blob of %zu bytes: all mutations rejected", k.name.c_str(), n);
}
// every (wrapped kind, requested kind) pair
static void pairs()
{
    std::vector<Kind> all = kinds();
    all.push_back(tdp_kind());
    Bytes                wkey = rng().bytes(32);
    Wrapper              w    = rc::wrapper(wkey);
    orc::WrapKeys        wk(wkey);
    uint64_t             idx = 0;
    for (auto& a : all) {
        Bytes secret = secret_for(a), content;
        // where possible, share the secret bytes between kinds, so that only
        // the kind differs
        auto  o    = a.make(secret, &content);
        Bytes blob = o->wrap(w);
        for (auto& b : all) {
            if (a.name == b.name || !mine(idx++)) {
                continue;
            }
            note("pair %s as %s wkey=%s", a.name.c_str(), b.name.c_str(), hex(wkey).c_str());
            reject("pairs", b, w, blob);
            // a content well-formed for b, tagged as a
            Bytes bc;
            (void)b.make(secret_for(b), &bc);
            reject("pairs_crossed", b, w, wk.seal(rng().bytes(16), a.type, a.context, bc));
            seenf("pair/%s/%s", a.name.c_str(), b.name.c_str());
        }
        // authentic contents which no object of the kind has
        if (a.type != 7 && mine(idx++)) {
            for (size_t n = 1; n <= 70; n++) {
                reject("content_extended", a, w, wk.seal(rng().bytes(16), a.type, a.context, content + (n % 2 ? rng().bytes(n) : Bytes(n, 0))));
            }
            for (size_t n = 1; n < content.size(); n += 1 + (content.size() > 400 ? rng().below(content.size() / 100) : 0)) {
                reject("content_truncated", a, w, wk.seal(rng().bytes(16), a.type, a.context, content.substr(0, n)));
            }
            seenf("contents/%s", a.name.c_str());
        }
        // unknown types and contexts
        if (mine(idx++)) {
            for (unsigned t = 0; t < 256; t++) {
                if (t != a.type) {
                    reject("type_byte", a, w, wk.seal(rng().bytes(16), (uint8_t)t, a.context, content));
                }
            }
            reject("context", a, w, wk.seal(rng().bytes(16), a.type, a.context + Bytes(1, 0), content));
            reject("context", a, w, wk.seal(rng().bytes(16), a.type, a.context + content.substr(0, 1), content.substr(1)));
            if (!a.context.empty()) {
                reject("context", a, w, wk.seal(rng().bytes(16), a.type, "", content));
                for (int i = 0; i < 16; i++) {
                    Bytes c = a.context;
                    c[i / 8] ^= char(1 << (i % 8));
                    reject("context", a, w, wk.seal(rng().bytes(16), a.type, c, content));
                }
                Bytes c = a.context;
                std::swap(c[0], c[1]);
                if (c != a.context) {
                    reject("context", a, w, wk.seal(rng().bytes(16), a.type, c, content));
                }
            }
            seenf("types/%s", a.name.c_str());
        }
    }
}
// blobs of the wrapper which lived at this address before
static void reborn(const Kind& k, int steps)
{
    Slot<Wrapper> w;
    Bytes         wkeys[3] = {rng().bytes(32), rng().bytes(32), ""}, secret = secret_for(k), content, iv = rng().bytes(16);
    wkeys[2] = wkeys[0];
    wkeys[2][rng().below(32)] ^= char(1 << rng().below(8));
    (void)k.make(secret, &content);
    unsigned last = 0;
    reborn_walk(steps, 3, 3, [&](unsigned i, unsigned j, bool fresh) {
        note("rebuilt wrapper kind=%s wkey=%s blob of %s", k.name.c_str(), hex(wkeys[i]).c_str(), hex(wkeys[j]).c_str());
        if (fresh) w.put(rc::wrapper(wkeys[i]));
        if (rng().chance(1, 2)) j = last;
        Bytes made = orc::WrapKeys(wkeys[j]).seal(iv, k.type, k.context, content);
        if (i == j) {
            std::vector<uint8_t> v(made.begin(), made.end());
            must("reborn-genuine", [&] { (void)k.unwrap(w.get(), v); });
        } else {
            reject("reborn", k, w.get(), made);
        }
        last = i;
    });
}
void vh::run()
{
    for (auto& k : kinds())
        for (int r = 0; r < (ctx().thorough ? 10 : 1); r++) reborn(k, 30);
    fill_rsa_pool(1);
    pairs();
    unsigned reps = ctx().thorough ? 40 : 4, i = 0;
    for (unsigned r = 0; r < reps; r++) {
        for (auto& k : kinds()) {
            if (mine(i++)) {
                mutations(k, ctx().thorough ? 4000 : 700);
            }
        }
    }
    // the largest blobs: constrained PRFs of tall trees with many sub-trees
    for (auto& k : kinds()) {
        if (k.name.compare(0, 11, "Constrained") != 0) continue;
        for (unsigned h : {64u, 45u, 64u}) {
            if (!mine(i++) && !ctx().thorough) continue;
            uint64_t L = (1ull << (h - 1)) - 1;
            mutations(k, 300, tree_secret(rng().bytes(32), h, 1, L - 1), tree_secret(rng().bytes(32), h, 1, L - 1));
            tally("tall_blobs");
        }
    }
    for (auto& k : big_kinds()) {
        if (mine(i++) && getenv("VH_HUGE")) {
            mutations(k, 300);
            tally("large_kinds");
        }
    }
    Kind t = tdp_kind();
    if (ctx().shard % 4 == 0 || ctx().thorough) {
        mutations(t, ctx().thorough ? 3000 : 400);
    }
}
