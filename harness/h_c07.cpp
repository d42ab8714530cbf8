// C07: the hash is BLAKE2b-512 everywhere, truncation is a prefix.
#include "heavy.hpp"
#include "oracle.hpp"
#include "hash/blake2b.hpp"
#include "hash/sha512.hpp"
#include <sse/crypto/hash.hpp>
using namespace vh;
using sse::crypto::Hash;

static void one(const Bytes& in, bool all_trunc)
{
    note("hash len=%zu in=%s", in.size(), hex(in, 300).c_str());
    Bytes want = orc::blake2b512(in);
    Guard gi(in), go(64);
    gi.ro();
    std::string s1, s2 = "old content of the output";
    if (!must("hash-throws", [&] { Hash::hash(gi.p, in.size(), go.p); s1 = Hash::hash(in); Hash::hash(in, s2); })) {
        return;
    }
    CHECK_EQ_BYTES("hash-raw", go.str(), want);
    CHECK_EQ_BYTES("hash-string", s1, want);
    CHECK_EQ_BYTES("hash-string-out", s2, want);
    EXPECT("hash-underrun", go.front_ok());
    // output overlapping the input
    {
        Bytes buf = in + Bytes(64, 'z');
        if (must("hash-throws", [&] { Hash::hash(U(buf), in.size(), (uint8_t*)&buf[0]); })) {
            CHECK_EQ_BYTES("hash-overlap", buf.substr(0, 64), want);
        }
        size_t off = rng().below(in.size() + 1);
        buf        = in + Bytes(64, 'z');
        if (must("hash-throws", [&] { Hash::hash(U(buf), in.size(), (uint8_t*)&buf[off]); })) {
            CHECK_EQ_BYTES("hash-overlap", buf.substr(off, 64), want);
        }
        buf = in;
        if (must("hash-throws", [&] { Hash::hash(buf, buf); })) {
            CHECK_EQ_BYTES("hash-overlap-string", buf, want);
        }
        tally("overlaps", 3);
        for (int i = 0; i < 4; i++) { // truncated, anywhere around the input
            size_t ol  = i == 0 ? 32 : rng().below(65);
            Bytes  pre = rng().bytes(64);
            buf        = pre + in + Bytes(64, 'z');
            size_t at  = i == 1 ? 64 : rng().below(buf.size() - 63);
            Bytes  exp = buf;
            exp.replace(at, ol, want.substr(0, ol));
            if (must("hash-throws", [&] { Hash::hash(U(buf) + 64, in.size(), ol, (uint8_t*)&buf[at]); }) && buf != exp) viol("hash-overlap-truncated", "length %zu, output of %zu bytes at %ld from the input", in.size(), ol, (long)at - 64);
            tally("overlaps_truncated");
        }
        if (!in.empty()) {
            size_t ol = rng().below(65);
            buf       = in;
            if (must("hash-throws", [&] { Hash::hash(buf, ol, buf); })) CHECK_EQ_BYTES("hash-overlap-string", buf, want.substr(0, ol));
        }
    }
    for (size_t ol = 0; ol <= 64; ol += all_trunc ? 1 : 1 + rng().below(30)) {
        uint8_t big[80];
        memset(big, 0xC3, sizeof big);
        std::string t1, t2 = "previous";
        if (!must("hash-trunc-throws", [&] { Hash::hash(gi.p, in.size(), ol, big + 8); t1 = Hash::hash(in, ol); Hash::hash(in, ol, t2); })) {
            break;
        }
        if (memcmp(big + 8, want.data(), ol) != 0) {
            viol("hash-truncated", "raw output length %zu is not the prefix", ol);
        }
        for (size_t i = 0; i < sizeof big; i++) {
            if ((i < 8 || i >= 8 + ol) && big[i] != 0xC3) {
                viol("hash-overwrite", "output length %zu wrote byte %zu", ol, i);
                break;
            }
        }
        CHECK_EQ_BYTES("hash-truncated-string", t1, want.substr(0, ol));
        CHECK_EQ_BYTES("hash-truncated-string", t2, want.substr(0, ol));
        tally("truncations");
    }
    // back ends
    if (must("backend-throws", [&] { sse::crypto::hash::blake2b::hash(gi.p, in.size(), go.p); })) {
        CHECK_EQ_BYTES("backend-blake2b", go.str(), want);
    }
    if (must("backend-throws", [&] { sse::crypto::hash::sha512::hash(gi.p, in.size(), go.p); })) {
        CHECK_EQ_BYTES("backend-sha512", go.str(), orc::digest("SHA512", in));
    }
    seenf("%zu/%llx", in.size(), (unsigned long long)fnv(in.data(), std::min<size_t>(in.size(), 64)));
    if (in.size() == 10) {
        sample("in=%s digest=%s", hex(in).c_str(), hex(want, 16).c_str());
    }
}
static void refusals()
{
    uint8_t out[64];
    Bytes   in = rng().bytes(rng().below(100));
    note("hash refusals");
    for (size_t ol : {(size_t)65, (size_t)66, (size_t)100, (size_t)128, (size_t)256, (size_t)320, (size_t)1 << 33, (size_t)-1}) {
        memset(out, 0xC3, sizeof out);
        std::string s = "keep";
        EXPECT("too-long-output", outcome([&] { Hash::hash(U(in), in.size(), ol, out); }) == INVALID_ARG);
        EXPECT("too-long-output", outcome([&] { Hash::hash(in, ol, s); }) == INVALID_ARG);
        EXPECT("too-long-output", outcome([&] { (void)Hash::hash(in, ol); }) == INVALID_ARG);
        for (uint8_t b : out) {
            if (b != 0xC3) {
                viol("refused-but-wrote", "out_len %zu", ol);
                break;
            }
        }
        tally("refusals", 3);
    }
    EXPECT("null-input", outcome([&] { Hash::hash(nullptr, 0, out); }) == INVALID_ARG);
    EXPECT("null-input", outcome([&] { Hash::hash(nullptr, 5, out); }) == INVALID_ARG);
    EXPECT("null-input", outcome([&] { Hash::hash(nullptr, 5, 10, out); }) == INVALID_ARG);
    EXPECT("null-output", outcome([&] { Hash::hash(U(in), in.size(), nullptr); }) == INVALID_ARG);
    EXPECT("null-output", outcome([&] { Hash::hash(U(in), in.size(), 10, nullptr); }) == INVALID_ARG);
    tally("refusals", 5);
    evals()++;
}
// longer than 32 bits can count
static void giant_input()
{
    Repeated r(giant(), rng().bytes(1000));
    note("hash of %zu bytes", r.n);
    Bytes want = orc::digest_at("BLAKE2B-512", "", r.p, r.n), got(64, 0), tr(20, 0);
    if (!must("hash-throws", [&] { Hash::hash(r.p, r.n, (uint8_t*)&got[0]); Hash::hash(r.p, r.n, 20, (uint8_t*)&tr[0]); })) return;
    CHECK_EQ_BYTES("hash-giant", got, want);
    CHECK_EQ_BYTES("hash-giant-truncated", tr, want.substr(0, 20));
    if (ctx().thorough && must("backend-throws", [&] { sse::crypto::hash::sha512::hash(r.p, r.n, (uint8_t*)&got[0]); })) CHECK_EQ_BYTES("backend-sha512", got, orc::digest_at("SHA512", "", r.p, r.n));
    tally("giant_inputs");
    seenf("giant/%zu", r.n);
}
// many hashes in one process
static void marathon(int n)
{
    Bytes  in = rng().bytes(200), acc(64, 0);
    size_t bad = 0;
    note("hash marathon, %d calls", n);
    for (int k = 0; k < n && bad == 0; k++) {
        size_t l = rng().below(200);
        in[l]    = (char)rng().next();
        Hash::hash(U(in), l, (uint8_t*)&acc[0]);
        if (acc != orc::blake2b512(in.substr(0, l))) viol("hash-marathon", "call %d, input %s", k, hex(in.substr(0, l)).c_str()), bad++;
        tally("marathon_calls");
    }
}
void vh::run()
{
    const bool T = ctx().thorough;
    uint64_t   i = 0;
    if (heavy()) {
        for (size_t l : big_lengths(T))
            if (mine(i++)) one(rng().content(l), false);
        if (mine(2)) marathon(T ? 400000 : 140000);
        if (mine(3)) giant_input();
    }
    for (size_t l : lengths(T ? 5000 : 1100, T ? (16u << 20) : (1u << 20), T ? 300 : 20)) {
        if (mine(i++)) {
            one(rng().content(l), l < 300);
        }
    }
    for (int r = 0; r < (T ? 100000 : 600); r++) {
        one(rng().content(rng().below(600)), false);
        if (r % 50 == 0) {
            refusals();
        }
    }
}
