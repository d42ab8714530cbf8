// C04: the PRP is a length-preserving bijection fixed by its key.
#include "golden_aez.hpp"
#include "reborn.hpp"
#include "oracle.hpp"
#include <sse/crypto/prp.hpp>
using namespace vh;
using sse::crypto::Key;
using sse::crypto::Prp;

static Prp mk(const Bytes& kb)
{
    Bytes k = kb;
    return Prp(Key<48>(reinterpret_cast<uint8_t*>(&k[0])));
}
static void one(Prp& p, const GoldenPrp& g, const Bytes& key, const Bytes& in)
{
    const size_t n = in.size();
    note("prp key=%s in=%s", hex(key).c_str(), hex(in, 300).c_str());
    Bytes       want = g.enc(in);
    std::string s1, s2 = "old content", back;
    if (!must("encrypt-throws", [&] { s1 = p.encrypt(in); p.encrypt(in, s2); })) {
        return;
    }
    CHECK_EQ_BYTES("encrypt-value", s1, want);
    CHECK_EQ_BYTES("encrypt-overloads", s2, s1);
    if (must("decrypt-throws", [&] { back = p.decrypt(s1); s2 = "old"; p.decrypt(s1, s2); })) {
        CHECK_EQ_BYTES("decrypt-encrypt", back, in);
        CHECK_EQ_BYTES("decrypt-overloads", s2, in);
    }
    // the output string may be the input string
    std::string same = in;
    if (must("in-place-throws", [&] { p.encrypt(same, same); })) {
        CHECK_EQ_BYTES("in-place-encrypt", same, want);
        if (must("in-place-throws", [&] { p.decrypt(same, same); })) {
            CHECK_EQ_BYTES("in-place-decrypt", same, in);
        }
        tally("in_place");
    }
    // the other composition: encrypt(decrypt(y)) = y
    std::string x, y;
    if (must("decrypt-throws", [&] { x = p.decrypt(in); y = p.encrypt(x); })) {
        EXPECT("length-changed", x.size() == n);
        CHECK_EQ_BYTES("encrypt-decrypt", y, in);
    }
    // raw buffers, exact size, at all alignments (end at a guard page)
    if (n > 0) {
        Guard gi(in), go(n), gb(n);
        gi.ro();
        if (must("raw-throws", [&] { p.encrypt(gi.p, (unsigned)n, go.p); p.decrypt(go.p, (unsigned)n, gb.p); })) {
            CHECK_EQ_BYTES("raw-encrypt", go.str(), want);
            CHECK_EQ_BYTES("raw-decrypt", gb.str(), in);
            EXPECT("raw-underrun", go.front_ok() && gb.front_ok());
        }
    }
    if (n == 4) {
        uint32_t a, b, c;
        memcpy(&a, in.data(), 4);
        memcpy(&c, want.data(), 4);
        if (must("u32-throws", [&] { b = p.encrypt(a); })) {
            EXPECT("u32-value", b == c);
            EXPECT("u32-inverse", p.decrypt(b) == a && p.encrypt(p.decrypt(a)) == a);
        }
        tally("u32");
    }
    if (n == 8) {
        uint64_t a, b, c;
        memcpy(&a, in.data(), 8);
        memcpy(&c, want.data(), 8);
        if (must("u64-throws", [&] { b = p.encrypt_64(a); })) {
            EXPECT("u64-value", b == c);
            EXPECT("u64-inverse", p.decrypt_64(b) == a && p.encrypt_64(p.decrypt_64(a)) == a);
        }
        tally("u64");
    }
    seenf("%zu/%llx", n, (unsigned long long)fnv(in.data(), n));
}
// every value of a small domain
static void exhaust(unsigned bytes)
{
    Bytes     key = rng().chance(1, 4) ? rng().content(48) : rng().bytes(48);
    Prp       p = mk(key);
    GoldenPrp g(key);
    uint64_t  dom = 1ull << (8 * bytes);
    std::vector<bool> hit(dom, false);
    note("exhaust %u bytes key=%s", bytes, hex(key).c_str());
    for (uint64_t v = 0; v < dom; v++) {
        uint8_t in[4], out[4], back[4];
        memcpy(in, &v, 4);
        p.encrypt(in, bytes, out);
        uint64_t o = 0;
        memcpy(&o, out, bytes);
        if (hit[o]) {
            viol("not-injective", "%u-byte domain: output %llx reached twice, second at %llx, key %s", bytes, (unsigned long long)o, (unsigned long long)v, hex(key).c_str());
            return;
        }
        hit[o] = true;
        p.decrypt(out, bytes, back);
        if (memcmp(back, in, bytes) != 0) {
            viol("not-inverted", "%u-byte input %llx", bytes, (unsigned long long)v);
            return;
        }
        evals()++;
    }
    seenf("exhaust%u/%s", bytes, hex(key).c_str());
    tally(bytes == 1 ? "domains_1byte" : bytes == 2 ? "domains_2byte" : "domains_3byte");
}
// lengths around the limits of the integers lengths are kept in
static void huge(bool thorough)
{
    Bytes key = rng().bytes(48);
    Prp   p = mk(key);
    {
        note("a string of 2^32+5 bytes");
        std::string in((1ull << 32) + 5, 'x'), out;
        EXPECT("too-long-accepted", throws([&] { p.encrypt(in, out); }));
        EXPECT("too-long-accepted", throws([&] { p.decrypt(in, out); }));
        tally("too_long", 2);
    }
    if (!thorough) return;
    GoldenPrp g(key);
    for (uint64_t n : {(1ull << 31) - 1, 1ull << 31, (1ull << 31) + 21, (1ull << 32) - 1}) {
        note("a buffer of %llu bytes", (unsigned long long)n);
        std::unique_ptr<uint8_t[]> a(new uint8_t[n]), b(new uint8_t[n]), c(new uint8_t[n]);
        for (uint64_t i = 0; i < n; i++) a[i] = (uint8_t)(i * 11 ^ i >> 13);
        p.encrypt(a.get(), (unsigned)n, b.get());
        char iv[16] = {0};
        golden_aez_encrypt(&g.c, iv, 16, 0, (const char*)a.get(), (unsigned)n, (char*)c.get());
        EXPECT("huge-value", memcmp(b.get(), c.get(), n) == 0);
        p.decrypt(b.get(), (unsigned)n, c.get());
        EXPECT("huge-roundtrip", memcmp(a.get(), c.get(), n) == 0);
        tally("huge");
    }
}
static void reborn(int steps)
{
    Slot<Prp>                 slot;
    std::vector<Bytes>        keys, in;
    std::vector<GoldenPrp>    g;
    for (int k = 0; k < 3; k++) {
        keys.push_back(k == 2 ? keys[0] : rng().bytes(48));
        if (k == 2) keys[2][rng().below(48)] ^= char(1 << rng().below(8));
        g.emplace_back(keys[k]);
    }
    in = {rng().bytes(4), rng().bytes(8), rng().bytes(1 + rng().below(12)), rng().bytes(16 + rng().below(60)), Bytes(4, 0)};
    reborn_walk(steps, 3, (unsigned)in.size(), [&](unsigned k, unsigned i, bool fresh) {
        if (fresh) slot.put(mk(keys[k]));
        one(slot.get(), g[k], keys[k], in[i]);
    });
    // one call at a time
    std::vector<std::vector<Bytes>> out(3);
    for (int k = 0; k < 3; k++)
        for (auto& x : in) out[k].push_back(g[k].enc(x));
    reborn_walk(4 * steps, 3, 2, [&](unsigned k, unsigned i, bool fresh) {
        if (fresh) slot.put(mk(keys[k]));
        Prp&     p  = slot.get();
        unsigned op = (unsigned)rng().below(6);
        note("rebuilt prp key=%s call %u in=%s", hex(keys[k]).c_str(), op, hex(in[i]).c_str());
        // what is decrypted may be what the others encrypt to
        Bytes a = op % 2 ? out[rng().below(3)][i] : in[i], got = a, want;
        if (op % 2) {
            char iv[16] = {0};
            want.resize(a.size());
            golden_aez_decrypt(&g[k].c, iv, 16, 0, a.data(), (unsigned)a.size(), &want[0]);
        } else {
            want = out[k][i];
        }
        must("reborn-call", [&] {
            if (op < 2 && a.size() == 4) {
                uint32_t v;
                memcpy(&v, a.data(), 4);
                v = op ? p.decrypt(v) : p.encrypt(v);
                memcpy(&got[0], &v, 4);
            } else if (op < 2) {
                uint64_t v;
                memcpy(&v, a.data(), 8);
                v = op ? p.decrypt_64(v) : p.encrypt_64(v);
                memcpy(&got[0], &v, 8);
            } else if (op < 4) {
                got = op % 2 ? p.decrypt(a) : p.encrypt(a);
            } else if (op == 4) {
                p.encrypt(U(a), (unsigned)a.size(), (uint8_t*)&got[0]);
            } else {
                p.decrypt(U(a), (unsigned)a.size(), (uint8_t*)&got[0]);
            }
            CHECK_EQ_BYTES("reborn-call", got, want);
        });
    });
}
void vh::run()
{
    for (int r = 0; r < (ctx().thorough ? 60 : 4); r++) reborn(100);
    const bool T = ctx().thorough;
    if (!Prp::is_available()) {
        harness_error("no AES instructions");
    }
    uint64_t i = 0;
    for (size_t l : lengths(T ? 2100 : 700, T ? (2u << 20) : 70000, T ? 400 : 60, 0)) {
        if (mine(i++)) {
            Bytes     key = rng().chance(1, 10) ? rng().content(48) : rng().bytes(48);
            Prp       p = mk(key);
            GoldenPrp g(key);
            unsigned  reps = l < 200 ? 4 : 1;
            for (unsigned r = 0; r < reps; r++) {
                one(p, g, key, rng().content(l));
            }
        }
    }
    if (getenv("VH_HUGE") && ctx().shard == 0) huge(T);
    // integers: boundary values and random ones
    {
        Bytes     key = rng().bytes(48);
        Prp       p = mk(key);
        GoldenPrp g(key);
        for (int r = 0; r < (T ? 20000 : 400); r++) {
            uint64_t v = rng().chance(1, 3) ? (1ull << rng().below(64)) - rng().below(2) : rng().next();
            one(p, g, key, Bytes((char*)&v, 4));
            one(p, g, key, Bytes((char*)&v, 8));
        }
    }
    for (unsigned r = 0; r < (T ? 200u : 8u); r++) {
        exhaust(1);
    }
    for (unsigned r = 0; r < (T ? 12u : 1u); r++) {
        exhaust(2);
    }
    if (T) {
        exhaust(3);
    }
    // histories: many objects, interleaved operations, moves
    for (int h = 0; h < (T ? 200 : 10); h++) {
        std::vector<Bytes>     keys;
        std::vector<Prp>       ps;
        std::vector<GoldenPrp> gs;
        for (int k = 0; k < 4; k++) {
            keys.push_back(rng().bytes(48));
            ps.push_back(mk(keys.back()));
            gs.emplace_back(keys.back());
        }
        for (int s = 0; s < 40; s++) {
            unsigned k = rng().below(4);
            if (rng().chance(1, 8)) {
                std::vector<Prp> q;
                for (auto& x : ps) {
                    q.push_back(std::move(x));
                }
                ps.swap(q);
                tally("moves");
            }
            one(ps[k], gs[k], keys[k], rng().content(rng().below(rng().chance(1, 6) ? 1000 : 40)));
        }
        tally("histories");
    }
    // randomly keyed objects
    for (int r = 0; r < (T ? 300 : 20); r++) {
        Prp   p, q;
        Bytes in = rng().content(1 + rng().below(300));
        note("random key object, in=%s", hex(in).c_str());
        std::string c, d;
        if (must("random-key-throws", [&] { c = p.encrypt(in); d = p.decrypt(c); })) {
            CHECK_EQ_BYTES("random-key-roundtrip", d, in);
            EXPECT("length-changed", c.size() == in.size());
        }
        seenf("rk%d", r);
        tally("random_key_objects");
    }
    sample("exhaustive 1-byte and 2-byte domains, e.g. key drawn from seed %llu shard %u", (unsigned long long)ctx().seed, ctx().shard);
}
