// C01: encryption round trip, layout, histories.
#include "heavy.hpp"
#include "oracle.hpp"
#include "reborn.hpp"
#include "sizes.hpp"
#include <sse/crypto/cipher.hpp>
using namespace vh;
using sse::crypto::Cipher;
using sse::crypto::Key;

static Cipher mk(const Bytes& kb)
{
    Bytes k = kb;
    return Cipher(Key<32>(reinterpret_cast<uint8_t*>(&k[0])));
}
static void check_ct(const char* what, const Bytes& key, const Bytes& pt, const Bytes& ct)
{
    if (ct.size() != pt.size() + 32) {
        viol("ciphertext-length", "%s: %zu-byte message gave %zu bytes", what, pt.size(), ct.size());
        return;
    }
    Bytes want = orc::cipher_encrypt(key, ct.substr(0, 16), pt);
    if (want != ct) {
        viol("ciphertext-layout", "%s: key %s pt %s ct %s, layout gives %s", what, hex(key).c_str(), hex(pt, 40).c_str(), hex(ct, 60).c_str(), hex(want, 60).c_str());
    }
}
static void one(const Bytes& key, size_t len, int i)
{
    Bytes pt = rng().content(len);
    note("roundtrip key=%s len=%zu pt=%s", hex(key).c_str(), len, hex(pt, 64).c_str());
    Cipher c = mk(key), d = mk(key);
    Bytes  pin = pt;
    std::string ct = rng().chance(1, 2) ? "" : "previous content of the output", out = rng().chance(1, 2) ? "" : Bytes(len + 7, 'x');
    if (!must("encrypt-throws", [&] { c.encrypt(pt, ct); })) {
        return;
    }
    EXPECT("input-modified", pt == pin);
    EXPECT("length-helper", Cipher::ciphertext_length(len) == len + 32 && Cipher::plaintext_length(len + 32) == len);
    check_ct("encrypt(string)", key, pt, ct);
    Bytes cin = ct;
    if (must("decrypt-throws", [&] { (i & 1 ? c : d).decrypt(ct, out); })) {
        CHECK_EQ_BYTES("roundtrip", out, pt);
    }
    EXPECT("input-modified", ct == cin);
    // data written by "another build": an independently made ciphertext
    Bytes nonce = rng().chance(1, 8) ? Bytes(16, char(rng().chance(1, 2) ? 0 : 0xff)) : rng().bytes(16);
    Bytes foreign = orc::cipher_encrypt(key, nonce, pt);
    out           = "zz";
    if (must("decrypt-foreign-throws", [&] { c.decrypt(foreign, out); })) {
        CHECK_EQ_BYTES("decrypt-foreign", out, pt);
    }
    // the output string may be the input string
    std::string same = pt;
    if (must("in-place-throws", [&] { c.encrypt(same, same); })) {
        check_ct("encrypt(s, s)", key, pt, same);
        if (must("in-place-throws", [&] { d.decrypt(same, same); })) {
            CHECK_EQ_BYTES("in-place", same, pt);
        }
        tally("in_place");
    }
    seenf("s%zu", len);
    tally("string_roundtrips");
    if (i < 2) {
        sample("len=%zu ct=%s", len, hex(ct, 48).c_str());
    }
}
// fixed-size array overloads, reached through thin adapters
typedef void (*EncArr)(Cipher&, const uint8_t*, uint8_t*);
typedef void (*DecArr)(Cipher&, const uint8_t*, uint8_t*);
template<size_t N>
static void enc_arr(Cipher& c, const uint8_t* in, uint8_t* out)
{
    c.encrypt(*reinterpret_cast<const std::array<uint8_t, N>*>(in), *reinterpret_cast<std::array<uint8_t, N + 32>*>(out));
}
template<size_t N>
static void dec_arr(Cipher& c, const uint8_t* in, uint8_t* out)
{
    c.template decrypt<N>(*reinterpret_cast<const std::array<uint8_t, N + 32>*>(in), *reinterpret_cast<std::array<uint8_t, N>*>(out));
}
static void arr(size_t N, EncArr enc, DecArr dec, const Bytes& key)
{
    Bytes pt = rng().content(N);
    note("array roundtrip N=%zu key=%s pt=%s", N, hex(key).c_str(), hex(pt, 64).c_str());
    Cipher c = mk(key), d = mk(key);
    Guard  in(pt), ct(N + 32), out(N);
    in.ro();
    if (!must("encrypt-array-throws", [&] { enc(c, in.p, ct.p); })) {
        return;
    }
    check_ct("encrypt(array)", key, pt, ct.str());
    if (must("decrypt-array-throws", [&] { dec(d, ct.p, out.p); })) {
        CHECK_EQ_BYTES("roundtrip-array", out.str(), pt);
    }
    std::string s;
    if (must("decrypt-mixed-throws", [&] { d.decrypt(ct.str(), s); })) {
        CHECK_EQ_BYTES("roundtrip-mixed", s, pt);
    }
    Guard f(orc::cipher_encrypt(key, rng().bytes(16), pt));
    f.ro();
    if (must("decrypt-array-foreign-throws", [&] { dec(c, f.p, out.p); })) {
        CHECK_EQ_BYTES("decrypt-array-foreign", out.str(), pt);
    }
    EXPECT("array-overrun", ct.front_ok() && out.front_ok());
    seenf("a%zu", N);
    tally("array_roundtrips");
}
// A long history on a few objects: successful and failing calls interleaved,
// moves, everything decrypted later and out of order.
static void history(int steps)
{
    Bytes                                     key = rng().bytes(32);
    std::vector<std::pair<Bytes, Bytes>>      held; // ct, pt
    Cipher*                                   c = new Cipher(mk(key));
    std::string                               trace;
    for (int i = 0; i < steps; i++) {
        unsigned op = rng().below(8);
        trace += char('0' + op);
        note("history key=%s ops=%s", hex(key).c_str(), trace.substr(trace.size() > 60 ? trace.size() - 60 : 0).c_str());
        switch (op) {
        case 0:
        case 1:
        case 2: {
            Bytes       pt = rng().content(1 + rng().below(rng().chance(1, 10) ? 5000 : 100));
            std::string ct;
            if (must("encrypt-throws", [&] { c->encrypt(pt, ct); })) {
                check_ct("history", key, pt, ct);
                held.emplace_back(ct, pt);
            }
            break;
        }
        case 3:
        case 4:
            if (!held.empty()) {
                auto&       h = held[rng().below(held.size())];
                std::string out;
                if (must("decrypt-throws", [&] { c->decrypt(h.first, out); })) {
                    CHECK_EQ_BYTES("history-roundtrip", out, h.second);
                }
                tally("history_decrypts");
            }
            break;
        case 5:
            if (!held.empty()) { // failing decryption, must not disturb
                Bytes b = held[rng().below(held.size())].first;
                b[rng().below(b.size())] ^= char(1 << rng().below(8));
                std::string out;
                EXPECT("tampered-accepted", throws([&] { c->decrypt(b, out); }));
                tally("history_failures");
            }
            break;
        case 6: {
            std::string out = "keep";
            Outcome     o   = outcome([&] { c->encrypt(std::string(), out); });
            if (o != INVALID_ARG) {
                viol("empty-accepted", "encrypting an empty message: %s", oname(o));
            }
            o = outcome([&] { c->decrypt(rng().bytes(rng().below(33)), out); });
            if (o == OK) {
                viol("short-accepted", "decrypting a too short ciphertext succeeded");
            }
            tally("history_failures", 2);
            break;
        }
        case 7: {
            Cipher* m = new Cipher(std::move(*c));
            delete c;
            c = m;
            break;
        }
        }
    }
    delete c;
    seenf("h%s", trace.c_str());
    tally("histories");
}
// many messages through one pair of objects
static void marathon(int n)
{
    Bytes  key = rng().bytes(32);
    Cipher c = mk(key), d = mk(key);
    std::string ct, out;
    for (int k = 0; k < n; k++) {
        Bytes pt = rng().bytes(1 + rng().below(60));
        note("marathon message %d key=%s pt=%s", k, hex(key).c_str(), hex(pt).c_str());
        c.encrypt(pt, ct);
        check_ct("marathon", key, pt, ct);
        if (!must("marathon", [&] { (k & 1 ? c : d).decrypt(ct, out); })) break;
        if (out != pt) {
            viol("marathon", "message %d does not come back", k);
            break;
        }
        tally("marathon_messages");
    }
}
// longer than 32 bits can count
static void giant_message()
{
    size_t      n = giant();
    Pattern     pat;
    Bytes       key = rng().bytes(32);
    Cipher      c = mk(key);
    std::string ct, pt;
    note("message of %zu bytes key=%s", n, hex(key).c_str());
    pt.resize(n);
    pat.fill((uint8_t*)&pt[0], n);
    if (!must("encrypt-throws", [&] { c.encrypt(pt, ct); })) return;
    std::string().swap(pt);
    if (ct.size() != n + 32) {
        viol("ciphertext-length", "%zu-byte message gave %zu bytes", n, ct.size());
        return;
    }
    bool same = true;
    bool ok   = orc::cipher_decrypt_at(key, U(ct), ct.size(), [&](const uint8_t* p, size_t at, size_t k) { same = same && pat.is(p, at, k); });
    if (!ok || !same) viol("ciphertext-layout", "a message of %zu bytes: %s", n, ok ? "other plaintext" : "the tag is wrong");
    if (must("decrypt-throws", [&] { c.decrypt(ct, pt); }) && (pt.size() != n || !pat.is(U(pt), 0, n))) viol("roundtrip", "a message of %zu bytes does not come back", n);
    tally("giant_messages");
}
static void reborn(int steps)
{
    Slot<Cipher>        slot;
    std::vector<Bytes>  keys, pts;
    Bytes               nonce = rng().bytes(16);
    std::string         held[3][3], ct, out;
    for (int k = 0; k < 3; k++) keys.push_back(rng().bytes(32)), pts.push_back(rng().content(1 + rng().below(80)));
    for (int k = 0; k < 3; k++)
        for (int i = 0; i < 3; i++) held[k][i] = orc::cipher_encrypt(keys[k], rng().chance(1, 2) ? nonce : rng().bytes(16), pts[i]);
    reborn_walk(steps, 3, 3, [&](unsigned k, unsigned i, bool fresh) {
        note("rebuilt cipher, key %u of {%s,%s,%s}", k, hex(keys[0]).c_str(), hex(keys[1]).c_str(), hex(keys[2]).c_str());
        if (fresh) slot.put(mk(keys[k]));
        Cipher& c = slot.get();
        if (rng().chance(1, 3)) {
            if (must("reborn-encrypt", [&] { c.encrypt(pts[i], ct); })) {
                check_ct("rebuilt object", keys[k], pts[i], ct);
                held[k][i] = ct;
            }
        } else if (must("reborn-decrypt", [&] { c.decrypt(held[k][i], out); })) {
            CHECK_EQ_BYTES("reborn-decrypt", out, pts[i]);
        }
    });
}
void vh::run()
{
    for (int r = 0; r < (ctx().thorough ? 60 : 4); r++) reborn(120);
    const bool T = ctx().thorough;
    if (heavy()) {
        uint64_t j = 0;
        for (size_t l : big_lengths(T))
            if (mine(j++)) one(rng().bytes(32), l, 5), tally("big_messages");
        if (mine(2)) marathon(T ? 300000 : 80000);
        if (mine(3) && available_gb() >= 20) giant_message();
    }
    std::vector<Bytes> keys = {Bytes(32, 0), Bytes(32, char(0xff))};
    uint64_t i = 0;
    auto     ls = lengths(T ? 1200 : 330, T ? (4u << 20) : 70000, 0, 1);
    for (size_t l : ls) {
        if (mine(i++)) {
            one(rng().chance(1, 12) ? keys[rng().below(2)] : rng().bytes(32), l, (int)i);
        }
    }
    for (int k = 0; k < (T ? 6000 : 250); k++) {
        one(rng().bytes(32), rng().range(1, rng().chance(1, 10) ? 9000 : 400), k);
    }
    i = 0;
    auto f = [&](auto n) {
        if (mine(i++)) {
            for (int r = 0; r < (T ? 20 : 2); r++) {
                arr(n, enc_arr<decltype(n)::value>, dec_arr<decltype(n)::value>, rng().bytes(32));
            }
        }
    };
    each_size_off<1>(f, std::make_index_sequence<100>());
    each_size(f, std::index_sequence<127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 20000, 65535, 65536, 65537>());
    for (int k = 0; k < (T ? 400 : 12); k++) {
        history(T ? 200 : 60);
    }
    if (mine(0)) {
        for (size_t n = 0; n < 70; n++) {
            EXPECT("length-helper", Cipher::ciphertext_length(n) == n + 32);
            EXPECT("length-helper", Cipher::plaintext_length(n) == (n > 32 ? n - 32 : 0));
        }
    }
}
