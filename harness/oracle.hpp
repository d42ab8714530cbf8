// Independent oracles built on OpenSSL libcrypto and GMP (never on the library
// under test or on libsodium).
#pragma once
#include "common.hpp"

#include <gmp.h>
#include <openssl/core_names.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/params.h>

namespace orc {
using vh::harness_error;

inline Bytes digest(const char* name, const Bytes& in)
{
    static std::map<std::string, EVP_MD*> cache;
    EVP_MD*&                              md = cache[name];
    if (md == nullptr) {
        md = EVP_MD_fetch(nullptr, name, nullptr);
        if (md == nullptr) {
            harness_error("no digest %s", name);
        }
    }
    static EVP_MD_CTX* c = EVP_MD_CTX_new();
    unsigned           n = 0;
    Bytes              out(64, 0);
    if (EVP_DigestInit_ex(c, md, nullptr) != 1 || EVP_DigestUpdate(c, in.data(), in.size()) != 1
        || EVP_DigestFinal_ex(c, (unsigned char*)&out[0], &n) != 1) {
        harness_error("digest failed");
    }
    out.resize(n);
    return out;
}
// digest of head || (p, n), for inputs too long to copy
inline Bytes digest_at(const char* name, const Bytes& head, const uint8_t* p, size_t n, const Bytes& tail = "")
{
    EVP_MD_CTX* c  = EVP_MD_CTX_new();
    EVP_MD*     md = EVP_MD_fetch(nullptr, name, nullptr);
    unsigned    l  = 0;
    Bytes       out(64, 0);
    if (c == nullptr || md == nullptr || EVP_DigestInit_ex(c, md, nullptr) != 1 || EVP_DigestUpdate(c, head.data(), head.size()) != 1) {
        harness_error("digest failed");
    }
    for (size_t o = 0; o < n;) {
        size_t k = std::min<size_t>(n - o, 1u << 24);
        if (EVP_DigestUpdate(c, p + o, k) != 1) harness_error("digest failed");
        o += k;
    }
    if (EVP_DigestUpdate(c, tail.data(), tail.size()) != 1 || EVP_DigestFinal_ex(c, (unsigned char*)&out[0], &l) != 1) {
        harness_error("digest failed");
    }
    EVP_MD_CTX_free(c);
    EVP_MD_free(md);
    out.resize(l);
    return out;
}
inline Bytes blake2b512(const Bytes& in)
{
    return digest("BLAKE2B-512", in);
}
// RFC 2104, block size 128 (BLAKE2b and SHA-512)
inline Bytes hmac(const char* md, const Bytes& key, const Bytes& in)
{
    Bytes k = key.size() > 128 ? digest(md, key) : key;
    k.resize(128, 0);
    Bytes i = k, o = k;
    for (auto& c : i) {
        c ^= 0x36;
    }
    for (auto& c : o) {
        c ^= 0x5c;
    }
    return digest(md, o + digest(md, i + in));
}
inline Bytes hmac_at(const char* md, const Bytes& key, const uint8_t* p, size_t n)
{
    Bytes k = key.size() > 128 ? digest(md, key) : key;
    k.resize(128, 0);
    Bytes i = k, o = k;
    for (auto& c : i) {
        c ^= 0x36;
    }
    for (auto& c : o) {
        c ^= 0x5c;
    }
    return digest(md, o + digest_at(md, i, p, n));
}
inline Bytes prf(const Bytes& key, const Bytes& in, size_t n)
{
    if (n <= 64) {
        return hmac("BLAKE2B-512", key, in).substr(0, n);
    }
    Bytes out;
    for (unsigned i = 0; out.size() < n; i++) {
        Bytes m = in;
        if (n > 256 * 64) {
            m += char(i >> 8);
        }
        m += char(i);
        out += hmac("BLAKE2B-512", key, m);
    }
    out.resize(n);
    return out;
}
// ChaCha20 with a 64-bit block counter and a 64-bit nonce (or IETF: 32/96),
// expressed through the 16-byte counter||nonce IV of OpenSSL.
inline Bytes chacha20_xor(const Bytes& key, const uint8_t iv[16], const Bytes& in)
{
    static EVP_CIPHER*     ci = EVP_CIPHER_fetch(nullptr, "ChaCha20", nullptr);
    static EVP_CIPHER_CTX* c  = EVP_CIPHER_CTX_new();
    Bytes                  out(in.size(), 0);
    int                    n = 0;
    if (ci == nullptr || EVP_EncryptInit_ex2(c, ci, (const uint8_t*)key.data(), iv, nullptr) != 1) {
        harness_error("chacha20 init");
    }
    if (!in.empty() && EVP_EncryptUpdate(c, (uint8_t*)&out[0], &n, (const uint8_t*)in.data(), (int)in.size()) != 1) {
        harness_error("chacha20");
    }
    return out;
}
// One ChaCha20 block, straight from RFC 7539 (used for large counters, and to
// cross-check OpenSSL).
inline void chacha_block(const uint8_t key[32], uint64_t counter, uint64_t nonce, uint8_t out[64])
{
    uint32_t s[16], x[16];
    s[0] = 0x61707865;
    s[1] = 0x3320646e;
    s[2] = 0x79622d32;
    s[3] = 0x6b206574;
    for (int i = 0; i < 8; i++) {
        memcpy(&s[4 + i], key + 4 * i, 4);
    }
    s[12] = (uint32_t)counter;
    s[13] = (uint32_t)(counter >> 32);
    s[14] = (uint32_t)nonce;
    s[15] = (uint32_t)(nonce >> 32);
    memcpy(x, s, sizeof x);
    auto qr = [&](int a, int b, int c, int d) {
        auto r = [](uint32_t v, int k) { return (v << k) | (v >> (32 - k)); };
        x[a] += x[b]; x[d] = r(x[d] ^ x[a], 16);
        x[c] += x[d]; x[b] = r(x[b] ^ x[c], 12);
        x[a] += x[b]; x[d] = r(x[d] ^ x[a], 8);
        x[c] += x[d]; x[b] = r(x[b] ^ x[c], 7);
    };
    for (int i = 0; i < 10; i++) {
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15);
        qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14);
    }
    for (int i = 0; i < 16; i++) {
        x[i] += s[i];
        memcpy(out + 4 * i, &x[i], 4);
    }
}
// slice [off, off+len) of the PRG stream of `key`
inline Bytes prg(const Bytes& key, uint64_t off, size_t len)
{
    Bytes    out;
    uint64_t blk = off / 64;
    size_t   skip = off % 64;
    uint8_t  b[64];
    while (out.size() < len + skip) {
        chacha_block((const uint8_t*)key.data(), blk++, 0, b);
        out.append((char*)b, 64);
    }
    return out.substr(skip, len);
}
// BLAKE2b keyed MAC with salt and personalisation
inline Bytes blake2b_mac(const Bytes& key, const Bytes& salt, const Bytes& pers, const Bytes& msg, size_t outlen)
{
    static EVP_MAC* mac = EVP_MAC_fetch(nullptr, "BLAKE2BMAC", nullptr);
    if (mac == nullptr) {
        harness_error("no BLAKE2BMAC");
    }
    EVP_MAC_CTX* c = EVP_MAC_CTX_new(mac);
    size_t       sz = outlen;
    Bytes        s = salt, p = pers;
    OSSL_PARAM   par[] = {OSSL_PARAM_construct_octet_string(OSSL_MAC_PARAM_SALT, (void*)s.data(), s.size()),
                        OSSL_PARAM_construct_octet_string(OSSL_MAC_PARAM_CUSTOM, (void*)p.data(), p.size()),
                        OSSL_PARAM_construct_size_t(OSSL_MAC_PARAM_SIZE, &sz), OSSL_PARAM_construct_end()};
    Bytes        out(outlen, 0);
    size_t       n = 0;
    if (EVP_MAC_init(c, (const uint8_t*)key.data(), key.size(), par) != 1
        || EVP_MAC_update(c, (const uint8_t*)msg.data(), msg.size()) != 1
        || EVP_MAC_final(c, (uint8_t*)&out[0], &n, out.size()) != 1 || n != outlen) {
        harness_error("blake2bmac");
    }
    EVP_MAC_CTX_free(c);
    return out;
}
// The documented ciphertext layout: nonce16 || ChaCha20-Poly1305(derived key)
inline Bytes cipher_subkey(const Bytes& key, const Bytes& nonce16)
{
    return blake2b_mac(key, nonce16, "encryption_key", "", 32);
}
inline Bytes aead_encrypt(const Bytes& key, const Bytes& nonce12, const Bytes& pt)
{
    static EVP_CIPHER*     ci = EVP_CIPHER_fetch(nullptr, "ChaCha20-Poly1305", nullptr);
    static EVP_CIPHER_CTX* c  = EVP_CIPHER_CTX_new();
    Bytes                  out(pt.size() + 16, 0);
    int                    n = 0;
    if (EVP_EncryptInit_ex2(c, ci, (const uint8_t*)key.data(), (const uint8_t*)nonce12.data(), nullptr) != 1
        || EVP_EncryptUpdate(c, (uint8_t*)&out[0], &n, (const uint8_t*)pt.data(), (int)pt.size()) != 1) {
        harness_error("aead");
    }
    uint8_t dummy[16];
    int     m = 0;
    EVP_EncryptFinal_ex(c, dummy, &m);
    if (EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, 16, &out[pt.size()]) != 1) {
        harness_error("aead tag");
    }
    return out;
}
inline Bytes cipher_encrypt(const Bytes& key, const Bytes& nonce16, const Bytes& pt)
{
    return nonce16 + aead_encrypt(cipher_subkey(key, nonce16), nonce16.substr(0, 12), pt);
}
inline bool cipher_decrypt(const Bytes& key, const Bytes& ct, Bytes& pt)
{
    static EVP_CIPHER*     ci = EVP_CIPHER_fetch(nullptr, "ChaCha20-Poly1305", nullptr);
    static EVP_CIPHER_CTX* c  = EVP_CIPHER_CTX_new();
    if (ct.size() <= 32) {
        return false;
    }
    Bytes nonce = ct.substr(0, 16), tag = ct.substr(ct.size() - 16), body = ct.substr(16, ct.size() - 32);
    Bytes sk = cipher_subkey(key, nonce);
    pt.assign(body.size(), 0);
    int n = 0;
    if (EVP_DecryptInit_ex2(c, ci, (const uint8_t*)sk.data(), (const uint8_t*)nonce.data(), nullptr) != 1
        || EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_TAG, 16, &tag[0]) != 1
        || EVP_DecryptUpdate(c, (uint8_t*)&pt[0], &n, (const uint8_t*)body.data(), (int)body.size()) != 1) {
        harness_error("aead dec");
    }
    uint8_t dummy[16];
    return EVP_DecryptFinal_ex(c, dummy, &n) == 1;
}

// the same over a long ciphertext: every 16 MiB of plaintext is handed to f
template<class F>
inline bool cipher_decrypt_at(const Bytes& key, const uint8_t* ct, size_t len, F f)
{
    EVP_CIPHER*     ci = EVP_CIPHER_fetch(nullptr, "ChaCha20-Poly1305", nullptr);
    EVP_CIPHER_CTX* c  = EVP_CIPHER_CTX_new();
    Bytes           nonce((const char*)ct, 16), tag((const char*)ct + len - 16, 16), sk = cipher_subkey(key, nonce), out(1u << 24, 0);
    int             n = 0;
    if (EVP_DecryptInit_ex2(c, ci, (const uint8_t*)sk.data(), (const uint8_t*)nonce.data(), nullptr) != 1
        || EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_TAG, 16, &tag[0]) != 1) {
        harness_error("aead dec");
    }
    for (size_t o = 16; o < len - 16;) {
        size_t k = std::min<size_t>(len - 16 - o, out.size());
        if (EVP_DecryptUpdate(c, (uint8_t*)&out[0], &n, ct + o, (int)k) != 1) harness_error("aead dec");
        f((const uint8_t*)out.data(), o - 16, (size_t)n);
        o += k;
    }
    uint8_t dummy[16];
    bool    ok = EVP_DecryptFinal_ex(c, dummy, &n) == 1;
    EVP_CIPHER_CTX_free(c);
    EVP_CIPHER_free(ci);
    return ok;
}

// ---------------------------------------------------------------- GMP helper
struct Z
{
    mpz_t v;
    Z() { mpz_init(v); }
    Z(long x) { mpz_init_set_si(v, x); }
    Z(const Z& o) { mpz_init_set(v, o.v); }
    Z& operator=(const Z& o)
    {
        mpz_set(v, o.v);
        return *this;
    }
    ~Z() { mpz_clear(v); }
    static Z be(const Bytes& b)
    {
        Z z;
        mpz_import(z.v, b.size(), 1, 1, 1, 0, b.data());
        return z;
    }
    Bytes to_be(size_t n) const
    {
        Bytes  o(n, 0);
        size_t c = (mpz_sizeinbase(v, 2) + 7) / 8;
        if (mpz_sgn(v) == 0) {
            return o;
        }
        if (c > n) {
            harness_error("to_be: too large");
        }
        mpz_export(&o[n - c], nullptr, 1, 1, 1, 0, v);
        return o;
    }
    std::string str(int base = 16) const
    {
        char*       s = mpz_get_str(nullptr, base, v);
        std::string r(s);
        void (*f)(void*, size_t);
        mp_get_memory_functions(nullptr, nullptr, &f);
        f(s, strlen(s) + 1);
        return r;
    }
};
} // namespace orc
