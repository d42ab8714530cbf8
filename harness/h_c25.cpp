// C25: bounded substring search. Reference: naive search over the bytes.
#include "heavy.hpp"
#include <sse/crypto/utils.hpp>
using namespace vh;
static void one(const Bytes& t, const Bytes& s, const char* what)
{
    // both buffers end at an unreadable page; the search gets exact lengths
    Guard text(t), pat(s);
    text.ro();
    pat.ro();
    const uint8_t* r    = sse::crypto::strstrn_uint8(text.data(), t.size(), pat.data(), s.size());
    size_t         want = t.find(s);
    const uint8_t* ref  = want == Bytes::npos ? nullptr : text.data() + want;
    if (s.empty()) ref = text.data();
    if (r != ref)
        viol("wrong-position", "%s: text %s pattern %s: returned %ld, first occurrence is %ld", what, hex(t.substr(0, 60)).c_str(), hex(s.substr(0, 60)).c_str(), r ? static_cast<long>(r - text.data()) : -1L, ref ? static_cast<long>(want) : -1L);
    tally(ref ? "found" : "absent");
}
// many pairs from two guarded arenas, without a mapping per call
struct Arena
{
    Guard g;
    explicit Arena(size_t n) : g(n)
    {
    }
    uint8_t* put(const Bytes& b)
    {
        uint8_t* p = g.data() + g.len - b.size();
        memcpy(p, b.data(), b.size());
        if (p > g.data()) p[-1] = static_cast<uint8_t>(b.empty() ? 0x5a : b[b.size() - 1]); // bait before the text
        return p;
    }
};
static void fast(Arena& A, Arena& B, const Bytes& t, const Bytes& s)
{
    uint8_t*       p    = A.put(t);
    uint8_t*       q    = B.put(s);
    const uint8_t* r    = sse::crypto::strstrn_uint8(p, t.size(), q, s.size());
    size_t         want = t.find(s);
    const uint8_t* ref  = s.empty() ? p : want == Bytes::npos ? nullptr : p + want;
    if (r != ref) viol("wrong-position", "text %s pattern %s: returned %ld, first occurrence is %ld", hex(t).c_str(), hex(s).c_str(), r ? static_cast<long>(r - p) : -1L, ref ? static_cast<long>(ref - p) : -1L);
    if (memcmp(p, t.data(), t.size()) || memcmp(q, s.data(), s.size())) viol("changed", "the search changed its input");
    tally(ref ? "found" : "absent");
    if (ref && ref > p) tally("found_later");
}
void vh::run()
{
    Arena A(4000), B(4000);
    // exhaustive: every text and pattern over small alphabets
    struct
    {
        unsigned k;
        size_t   tl, sl;
    } ex[] = {{2, ctx().thorough ? 12u : 9u, ctx().thorough ? 7u : 5u}, {3, ctx().thorough ? 8u : 6u, 4}};
    const char* alpha[] = {"\x00\x01", "\x00\x80\xff"};
    size_t      idx     = 0;
    for (int e = 0; e < 2; e++) {
        auto strings = [&](size_t n) {
            std::vector<Bytes> v(1);
            for (size_t i = 0; i < n; i++) {
                std::vector<Bytes> w;
                for (auto& b : v)
                    for (unsigned c = 0; c < ex[e].k; c++) w.push_back(b + alpha[e][c]);
                v.swap(w);
            }
            return v;
        };
        for (size_t tl = 0; tl <= ex[e].tl; tl++) {
            auto T = strings(tl);
            for (size_t sl = 0; sl <= ex[e].sl; sl++) {
                auto P = strings(sl);
                for (auto& t : T) {
                    if (!mine(idx++)) continue;
                    note("alphabet %u text %s, patterns of %zu", ex[e].k, hex(t).c_str(), sl);
                    for (auto& s : P) fast(A, B, t, s);
                    seenf("x%d/%s/%zu", e, hex(t).c_str(), sl);
                    tally("exhaustive_texts");
                }
            }
        }
    }
    // structured: periodic texts and patterns with late mismatches, all byte values
    size_t rounds = ctx().thorough ? 400000 : 40000;
    for (size_t i = 0; i < rounds; i++) {
        if (!mine(i)) continue;
        size_t n = rng().below(i % 50 == 0 ? 3000 : 120), per = 1 + rng().below(6);
        Bytes  unit = rng().bytes(per), t;
        while (t.size() < n) t += unit;
        t.resize(n);
        for (size_t k = rng().below(4); k && n; k--) t[rng().below(n)] = static_cast<char>(rng().below(3) ? unit[0] : rng().below(256));
        Bytes s;
        switch (rng().below(5)) {
        case 0: // a slice
            if (n) {
                size_t a = rng().below(n);
                s        = t.substr(a, rng().below(n - a + 1));
            }
            break;
        case 1: // a slice with its last byte changed
            if (n > 1) {
                size_t a = rng().below(n - 1);
                s        = t.substr(a, 1 + rng().below(n - a));
                s.back() = static_cast<char>(s.back() ^ (1 << rng().below(8)));
            }
            break;
        case 2: // longer than the text
            s = t + unit.substr(0, 1 + rng().below(per));
            break;
        case 3: // ends just beyond the text
            if (n) s = t.substr(rng().below(n)) + unit.substr(0, 1);
            break;
        default:
            s = rng().bytes(rng().below(4));
        }
        if (i % 40 == 0) one(t, s, "structured");
        fast(A, B, t, s);
        tally("structured");
        seenf("s%zu/%zu", t.size(), s.size());
    }
    // zero bytes everywhere; a needle at every offset
    for (size_t n = 1; n < 70; n++) {
        if (!mine(n)) continue;
        for (size_t at = 0; at < n; at++) {
            Bytes t(n, 0);
            t[at] = 1;
            one(t, Bytes(1, 1), "needle");
            if (at + 1 < n) one(t, Bytes("\x01\x00", 2), "needle0");
            one(t, Bytes(n - at, 0), "zeros");
            tally("needles");
        }
    }
    if (heavy()) { // texts and patterns beyond what 16 and 32 bits count
        for (size_t n : {65535, 65536, 65537, 70000, 131072, 200000}) {
            Bytes t = rng().bytes(n), z(n, 'a');
            one(t, t.substr(n - 9), "large");
            one(t, t.substr(3), "large");
            one(t, t + "x", "large");
            one(t, Bytes(n + 5, 'q'), "large");
            z[n - 1] = 'b';
            one(z, z.substr(n - 100), "large repeated"), one(z, z.substr(50), "large repeated");
            one(z, Bytes(300, 'a') + "b", "large repeated");
            one(z, z.substr(0, n - 1), "large repeated");
            tally("large_texts");
        }
        if (mine(1)) {
            Bytes    pat = "needle";
            Repeated r((1ull << 32) + 4000 + rng().below(3000), "x" + pat + Bytes(rng().below(9), 'z'), 'a');
            size_t   at = r.n;
            for (size_t k = 0; k < 100 && at == r.n; k++)
                if (memcmp(r.p + r.n - 6 - k, pat.data(), 6) == 0) at = r.n - 6 - k;
            note("text of %zu bytes, pattern at %zu", r.n, at);
            const uint8_t* got = sse::crypto::strstrn_uint8(r.p, r.n, (const uint8_t*)pat.data(), pat.size());
            if (got != r.p + at) viol("giant-text", "text of %zu bytes, pattern at %zu, answer %zd", r.n, at, got ? (ssize_t)(got - r.p) : (ssize_t)-1);
            got = sse::crypto::strstrn_uint8(r.p, r.n, (const uint8_t*)"needlf", 6);
            if (got) viol("giant-text", "found an absent pattern");
            got = sse::crypto::strstrn_uint8((const uint8_t*)"aaaa", 4, r.p, (1ull << 32) + 2);
            if (got) viol("giant-pattern", "found a pattern longer than the text");
            tally("giant_inputs");
        }
    }
    Bytes big = rng().bytes(1 << 20);
    if (ctx().shard == 0) {
        one(big, big.substr(big.size() - 20), "large");
        one(big, big, "whole");
        one(big, big + "x", "too long");
        one(big, Bytes(50, 'q'), "large absent");
        // null pointers with zero lengths
        uint8_t c = 3;
        if (sse::crypto::strstrn_uint8(&c, 1, nullptr, 0) != &c) viol("empty-pattern", "an empty pattern did not match at the start");
        if (sse::crypto::strstrn_uint8(nullptr, 0, &c, 1) != nullptr) viol("empty-text", "an empty text matched");
        tally("degenerate", 2);
    }
}
