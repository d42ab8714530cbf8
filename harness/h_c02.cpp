// C02: every modified, truncated, extended, spliced or foreign ciphertext is
// rejected, and no plaintext is released.
#include "heavy.hpp"
#include "oracle.hpp"
#include "reborn.hpp"
#include "sizes.hpp"
#include <sse/crypto/cipher.hpp>
using namespace vh;
using sse::crypto::Cipher;
using sse::crypto::Key;

static Cipher mk(const Bytes& kb)
{
    Bytes k = kb;
    return Cipher(Key<32>(reinterpret_cast<uint8_t*>(&k[0])));
}
// number of positions where the released buffer equals the plaintext run of
// at least 8 bytes
static bool leaks(const Bytes& out, const Bytes& pt)
{
    if (pt.size() < 8 || out.size() < 8) {
        return false;
    }
    for (size_t i = 0; i + 8 <= pt.size(); i++) {
        if (out.find(pt.substr(i, 8)) != Bytes::npos) {
            return true;
        }
    }
    return false;
}
static void reject(Cipher& c, const Bytes& bad, const Bytes& pt, const char* how, size_t where)
{
    note("reject %s at %zu: %s", how, where, hex(bad, 200).c_str());
    std::string out = "sentinel-output";
    std::string w;
    Outcome     o = outcome([&] { c.decrypt(bad, out); }, &w);
    if (o == OK) {
        viol("forgery-accepted", "%s at %zu accepted; output %s", how, where, hex(out, 40).c_str());
    } else {
        if (out != "sentinel-output" && leaks(out, pt)) {
            viol("plaintext-released", "%s at %zu rejected but plaintext in output", how, where);
        }
    }
    seenf("%s/%zu/%zu", how, where, bad.size());
    tally(how);
}
typedef void (*DecArr)(Cipher&, const uint8_t*, uint8_t*);
template<size_t N>
static void dec_arr(Cipher& c, const uint8_t* in, uint8_t* out)
{
    c.template decrypt<N>(*reinterpret_cast<const std::array<uint8_t, N + 32>*>(in), *reinterpret_cast<std::array<uint8_t, N>*>(out));
}
static void arr(size_t N, DecArr dec)
{
    Bytes  key = rng().bytes(32), pt = rng().bytes(N);
    Cipher c = mk(key);
    Bytes  ct = orc::cipher_encrypt(key, rng().bytes(16), pt);
    Guard  b(ct), out(N);
    for (size_t bit = 0; bit < ct.size() * 8; bit += (N > 2000 ? 1 + rng().below(N / 8) : N > 40 ? 1 + rng().below(9) : 1)) {
        memcpy(b.p, ct.data(), ct.size());
        b.p[bit / 8] ^= uint8_t(1 << (bit % 8));
        note("array reject N=%zu bit=%zu ct=%s", N, bit, hex(ct, 120).c_str());
        memset(out.p, 0x5c, N);
        if (!throws([&] { dec(c, b.p, out.p); })) {
            viol("forgery-accepted-array", "bit %zu of %zu", bit, ct.size() * 8);
        }
        if (leaks(out.str(), pt) || (N >= 4 && out.str() == pt)) {
            viol("plaintext-released-array", "bit %zu rejected but plaintext is in the output array", bit);
        }
        seenf("arr/%zu/%zu", N, bit);
        tally("array_bitflips");
    }
    memcpy(b.p, ct.data(), ct.size());
    if (must("genuine-rejected-array", [&] { dec(c, b.p, out.p); })) {
        CHECK_EQ_BYTES("genuine-rejected-array", out.str(), pt);
    }
}
// forgeries of messages longer than 32 bits can count
static void giant_forgeries()
{
    size_t      n = giant();
    Pattern     pat;
    Bytes       key = rng().bytes(32);
    Cipher      c = mk(key);
    std::string ct, pt;
    note("forgeries of a message of %zu bytes", n);
    pt.resize(n);
    pat.fill((uint8_t*)&pt[0], n);
    c.encrypt(pt, ct);
    std::string().swap(pt);
    for (size_t pos : {ct.size() - 1 - rng().below(16), ct.size() - 17, (size_t)rng().below(1u << 20) + 16}) {
        ct[pos] ^= 4;
        if (!throws([&] { c.decrypt(ct, pt); })) viol("forgery-accepted", "message of %zu bytes, byte %zu changed", n, pos);
        ct[pos] ^= 4;
        tally("giant_forgeries");
    }
    std::string cut = ct.substr(0, 32 + n - (1ull << 32)); // what 32 bits of the length leave
    std::string().swap(ct);
    if (!throws([&] { c.decrypt(cut, pt); })) viol("forgery-accepted", "message of %zu bytes cut by 4 GiB", n);
}
static void reborn(int steps)
{
    Slot<Cipher> slot;
    Bytes        nonce = rng().bytes(16), keys[3], pts[3];
    std::string  held[3][3], out;
    for (int k = 0; k < 3; k++) keys[k] = k && rng().chance(1, 3) ? keys[0] : rng().bytes(32), pts[k] = rng().content(1 + rng().below(80));
    for (int k = 1; k < 3; k++)
        if (keys[k] == keys[0]) keys[k][rng().below(32)] ^= char(1 << k); // neighbours of the first key
    for (int k = 0; k < 3; k++)
        for (int i = 0; i < 3; i++) held[k][i] = orc::cipher_encrypt(keys[k], rng().chance(1, 2) ? nonce : rng().bytes(16), pts[i]);
    unsigned last = 0;
    reborn_walk(steps, 3, 3, [&](unsigned k, unsigned i, bool fresh) {
        note("rebuilt cipher, key %u of {%s,%s,%s}", k, hex(keys[0]).c_str(), hex(keys[1]).c_str(), hex(keys[2]).c_str());
        if (fresh) slot.put(mk(keys[k]));
        // a ciphertext of the key that lived here before, or of this one
        unsigned o = rng().chance(1, 3) ? k : rng().chance(1, 2) ? last : (unsigned)rng().below(3);
        if (o == k) {
            if (!must("reborn-genuine", [&] { slot.get().decrypt(held[o][i], out); }) || out != pts[i]) viol("reborn-genuine", "a rebuilt object refuses or alters its own ciphertext");
        } else {
            reject(slot.get(), held[o][i], pts[i], "reborn", i);
        }
        last = k;
    });
}
void vh::run()
{
    for (int r = 0; r < (ctx().thorough ? 60 : 4); r++) reborn(150);
    const bool T = ctx().thorough;
    if (heavy() && mine(1) && available_gb() >= 20) giant_forgeries();
    if (heavy() && mine(2)) { // many forgeries on one object
        Bytes       key = rng().bytes(32), pt = rng().bytes(40);
        Cipher      c = mk(key);
        std::string ct, ok;
        c.encrypt(pt, ct);
        for (int k = 0; k < (T ? 400000 : 100000); k++) {
            Bytes b = ct;
            b[rng().below(b.size())] ^= char(1 << rng().below(8));
            if (k % 64 == 0) note("forgery marathon %d", k);
            if (outcome([&] { c.decrypt(b, ok); }) == OK) {
                viol("forgery-accepted", "attempt %d: %s for %s", k, hex(b).c_str(), hex(ct).c_str());
                break;
            }
            tally("marathon_forgeries");
        }
        if (!must("genuine-rejected-later", [&] { c.decrypt(ct, ok); }) || ok != pt) viol("genuine-rejected-later", "after many rejections");
    }
    uint64_t   idx = 0;
    // every bit of ciphertexts of many lengths
    std::vector<size_t> ls;
    for (size_t l = 1; l <= (T ? 160 : 70); l++) {
        ls.push_back(l);
    }
    for (size_t l : {127, 128, 129, 255, 256, 300}) {
        ls.push_back(l);
    }
    for (size_t l : ls) {
        if (!mine(idx++)) {
            continue;
        }
        Bytes       key = rng().bytes(32), pt = rng().content(l);
        Cipher      c   = mk(key);
        std::string ct, ct2;
        c.encrypt(pt, ct);
        Bytes pt2 = rng().bytes(l);
        c.encrypt(pt2, ct2);
        std::string ok;
        if (!must("genuine-rejected", [&] { c.decrypt(ct, ok); }) || ok != pt) {
            viol("genuine-rejected", "genuine ciphertext of %zu bytes not decrypted", l);
        }
        for (size_t bit = 0; bit < ct.size() * 8; bit++) {
            Bytes b = ct;
            b[bit / 8] ^= char(1 << (bit % 8));
            reject(c, b, pt, "bitflip", bit);
        }
        for (size_t n = 0; n < ct.size(); n++) { // every truncation, both ends
            reject(c, ct.substr(0, n), pt, "truncate_end", n);
            reject(c, ct.substr(ct.size() - n), pt, "truncate_front", n);
        }
        for (size_t n = 1; n <= 40; n++) {
            reject(c, ct + Bytes(n, 0), pt, "extend_zero", n);
            reject(c, ct + rng().bytes(n), pt, "extend_random", n);
            reject(c, rng().bytes(n) + ct, pt, "prepend", n);
        }
        for (size_t n = 0; n < 256; n++) { // any one byte added
            reject(c, ct + char(n), pt, "extend_byte", n);
            reject(c, char(n) + ct, pt, "prepend_byte", n);
            reject(c, ct + Bytes(2, char(n)), pt, "extend_byte", n);
        }
        for (size_t n = 1; n < ct.size(); n++) { // splices with the same key
            Bytes b = ct.substr(0, n) + ct2.substr(n);
            if (b != ct && b != ct2) {
                reject(c, b, pt, "splice", n);
            }
        }
        for (size_t i = 0; i + 1 < ct.size(); i++) { // swapped bytes, deleted / duplicated byte
            if (ct[i] != ct[i + 1]) {
                Bytes b = ct;
                std::swap(b[i], b[i + 1]);
                reject(c, b, pt, "swap", i);
            }
        }
        for (size_t i = 0; i < ct.size(); i++) {
            Bytes b = ct;
            b.erase(i, 1);
            reject(c, b, pt, "delete_byte", i);
            b = ct;
            b.insert(i, 1, ct[i]);
            reject(c, b, pt, "dup_byte", i);
            b = ct;
            b[i] = 0;
            if (b != ct) {
                reject(c, b, pt, "zero_byte", i);
            }
        }
        // regions zeroed / randomised
        for (auto r : {std::pair<size_t, size_t>(0, 16), {0, 12}, {12, 4}, {16, l}, {16 + l, 16}, {0, ct.size()}, {16, l + 16}}) {
            Bytes b = ct;
            b.replace(r.first, r.second, Bytes(r.second, 0));
            if (b != ct) {
                reject(c, b, pt, "zero_region", r.first * 1000 + r.second);
            }
            b.replace(r.first, r.second, rng().bytes(r.second));
            reject(c, b, pt, "random_region", r.first * 1000 + r.second);
            b = ct;
            for (size_t i = 0; i < r.second; i++) {
                b[r.first + i] = char(~b[r.first + i]);
            }
            reject(c, b, pt, "invert_region", r.first * 1000 + r.second);
            b = ct;
            b.replace(r.first, r.second, ct2.substr(r.first, r.second));
            if (b != ct && b != ct2) {
                reject(c, b, pt, "replace_region", r.first * 1000 + r.second);
            }
        }
        // other keys: every one-bit neighbour, and random ones
        for (size_t bit = 0; bit < 256; bit++) {
            Bytes k2 = key;
            k2[bit / 8] ^= char(1 << (bit % 8));
            Cipher d = mk(k2);
            reject(d, ct, pt, "neighbour_key", bit);
        }
        for (int r = 0; r < 8; r++) {
            Cipher d = mk(rng().bytes(32));
            reject(d, ct, pt, "other_key", r);
        }
        // pure noise
        for (int r = 0; r < 20; r++) {
            reject(c, rng().content(rng().below(200)), pt, "noise", r);
        }
        // the genuine one still works afterwards
        ok.clear();
        if (!must("genuine-rejected-later", [&] { c.decrypt(ct, ok); }) || ok != pt) {
            viol("genuine-rejected-later", "genuine ciphertext no longer decrypts after rejections");
        }
        if (idx < 10) {
            sample("len=%zu ct=%s: all %zu bit flips, %zu truncations rejected", l, hex(ct, 40).c_str(), ct.size() * 8, 2 * ct.size());
        }
    }
    // long messages: sampled positions
    std::vector<size_t> longs = {65500, 65504, 65519, 65520, 65535, 65536, 65537, 100000, 131072, 200000, 1u << 20, (1u << 20) + 65};
    for (int r = 0; r < (T ? 60 : 4) + (int)longs.size(); r++) {
        size_t l = rng().range(500, 40000);
        if (r < (int)longs.size()) {
            if (!mine((uint64_t)r)) continue;
            l = longs[r] + (rng().chance(1, 2) ? rng().below(40) : 0);
            tally("long_messages");
        }
        Bytes       key = rng().bytes(32), pt = rng().bytes(l);
        Cipher      c = mk(key);
        std::string ct;
        c.encrypt(pt, ct);
        for (int k = 0; k < (T ? 300 : 60); k++) {
            Bytes    b   = ct;
            size_t   pos = rng().below(b.size());
            unsigned m   = rng().below(3);
            if (m == 0) {
                b[pos] ^= char(1 << rng().below(8));
            } else if (m == 1) {
                b[pos] ^= char(1 + rng().below(255));
                size_t p2 = rng().below(b.size());
                b[p2] ^= char(0x80);
                if (b == ct) {
                    continue;
                }
            } else {
                b.resize(pos);
            }
            reject(c, b, pt, "long", pos);
        }
    }
    idx    = 0;
    auto f = [&](auto n) {
        if (mine(idx++)) {
            arr(n, dec_arr<decltype(n)::value>);
        }
    };
    each_size_off<1>(f, std::make_index_sequence<40>());
    each_size(f, std::index_sequence<64, 65, 128, 256, 1000, 4096, 65504, 65536, 70000>());
}
