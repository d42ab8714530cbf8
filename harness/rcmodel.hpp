// Independent model of the range-constrained PRF tree, and of wrapped blobs.
#pragma once
#include "oracle.hpp"
namespace orc {
struct Tree
{
    unsigned h;
    Bytes    root;
    size_t   n; // output size
    uint64_t last() const
    {
        return (h >= 65) ? ~0ull : ((1ull << (h - 1)) - 1);
    }
    // key of the node which roots the sub-tree of height sh holding `leaf`
    Bytes node(unsigned sh, uint64_t leaf) const
    {
        Bytes k = root;
        for (unsigned d = h; d > sh; d--) {
            // from a sub-tree of height d to its child of height d-1 (>= 2)
            unsigned c = (leaf >> (d - 2)) & 1;
            k          = prg(k, c * 32, 32);
        }
        return k;
    }
    Bytes leaf(uint64_t l) const
    {
        Bytes k = node(2, l);
        return prg(k, (l & 1) * n, n);
    }
};
struct Elt
{
    unsigned sh;
    uint64_t min, max;
    Bytes    key;
};
// the serialisation of a constrained PRF
inline bool parse_constrained(const Bytes& s, size_t nbytes, unsigned& height, std::vector<Elt>& out, std::string& why)
{
    auto u = [&](size_t off, size_t n) {
        uint64_t v = 0;
        for (size_t i = 0; i < n; i++) {
            v |= (uint64_t)(uint8_t)s[off + i] << (8 * i);
        }
        return v;
    };
    if (s.size() < 5) {
        why = "too short";
        return false;
    }
    height     = (uint8_t)s[0];
    uint64_t n = u(1, 4);
    size_t   o = 5;
    for (uint64_t i = 0; i < n; i++) {
        if (s.size() - o < 17) {
            why = "truncated element";
            return false;
        }
        Elt e;
        e.sh     = (uint8_t)s[o];
        e.min    = u(o + 1, 8);
        e.max    = u(o + 9, 8);
        o += 17;
        size_t k = e.sh == 1 ? nbytes : 32;
        if (s.size() - o < k) {
            why = "truncated key";
            return false;
        }
        e.key = s.substr(o, k);
        o += k;
        out.push_back(e);
    }
    if (o != s.size()) {
        why = "trailing bytes";
        return false;
    }
    return true;
}
// blob = IV16 || ChaCha20-IETF(content) || tag12
struct WrapKeys
{
    Bytes tag, enc;
    explicit WrapKeys(const Bytes& key) : tag(prf(key, Bytes(1, 1), 32)), enc(prf(key, Bytes(1, 2), 32))
    {
    }
    Bytes stream(const Bytes& tag12, const Bytes& in) const
    {
        uint8_t iv[16] = {0};
        memcpy(iv + 4, tag12.data(), 12);
        return chacha20_xor(enc, iv, in);
    }
    bool open(const Bytes& blob, uint8_t type, const Bytes& context, Bytes& content) const
    {
        if (blob.size() <= 28) {
            return false;
        }
        Bytes iv = blob.substr(0, 16), t = blob.substr(blob.size() - 12);
        content  = stream(t, blob.substr(16, blob.size() - 28));
        return prf(tag, iv + char(type) + context + content, 12) == t;
    }
    Bytes seal(const Bytes& iv, uint8_t type, const Bytes& context, const Bytes& content) const
    {
        Bytes t = prf(tag, iv + char(type) + context + content, 12);
        return iv + stream(t, content) + t;
    }
};
inline Bytes be16(unsigned n)
{
    Bytes b;
    b += char(n >> 8);
    b += char(n & 255);
    return b;
}
} // namespace orc
