// RSA key material made with GMP, DER/PEM encoders of our own.
#pragma once
#include "oracle.hpp"
namespace orc {
inline Bytes der_len(size_t n)
{
    Bytes o;
    if (n < 128) {
        o += char(n);
        return o;
    }
    Bytes t;
    while (n) {
        t.insert(t.begin(), char(n & 255));
        n >>= 8;
    }
    o += char(0x80 | t.size());
    return o + t;
}
inline Bytes der_tlv(uint8_t tag, const Bytes& b)
{
    return Bytes(1, char(tag)) + der_len(b.size()) + b;
}
inline Bytes der_int(const Z& z)
{
    if (mpz_sgn(z.v) == 0) {
        return der_tlv(2, Bytes(1, 0));
    }
    Bytes b = z.to_be((mpz_sizeinbase(z.v, 2) + 7) / 8);
    if (b[0] & 0x80) {
        b = Bytes(1, 0) + b;
    }
    return der_tlv(2, b);
}
inline Bytes b64(const Bytes& in)
{
    static const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    Bytes              o;
    for (size_t i = 0; i < in.size(); i += 3) {
        unsigned v = (uint8_t)in[i] << 16;
        if (i + 1 < in.size()) v |= (uint8_t)in[i + 1] << 8;
        if (i + 2 < in.size()) v |= (uint8_t)in[i + 2];
        o += a[v >> 18];
        o += a[(v >> 12) & 63];
        o += i + 1 < in.size() ? a[(v >> 6) & 63] : '=';
        o += i + 2 < in.size() ? a[v & 63] : '=';
    }
    return o;
}
inline bool unb64(const Bytes& in, Bytes& out)
{
    out.clear();
    unsigned v = 0, n = 0, pad = 0;
    for (char c : in) {
        int d;
        if (c >= 'A' && c <= 'Z') d = c - 'A';
        else if (c >= 'a' && c <= 'z') d = c - 'a' + 26;
        else if (c >= '0' && c <= '9') d = c - '0' + 52;
        else if (c == '+') d = 62;
        else if (c == '/') d = 63;
        else if (c == '=') { d = 0; pad++; }
        else if (c == '\n' || c == '\r') continue;
        else return false;
        if (pad && c != '=') return false;
        v = (v << 6) | d;
        if (++n == 4) {
            out += char(v >> 16);
            out += char(v >> 8);
            out += char(v);
            v = n = 0;
        }
    }
    if (n != 0 || pad > 2) return false;
    out.resize(out.size() - pad);
    return true;
}
inline Bytes pem(const char* label, const Bytes& der)
{
    Bytes s = b64(der), o = std::string("-----BEGIN ") + label + "-----\n";
    for (size_t i = 0; i < s.size(); i += 64) {
        o += s.substr(i, 64) + "\n";
    }
    return o + "-----END " + label + "-----\n";
}
// body of a PEM text
inline bool unpem(const Bytes& text, const char* label, Bytes& der)
{
    Bytes  b = std::string("-----BEGIN ") + label + "-----\n", e = std::string("-----END ") + label + "-----";
    size_t i = text.find(b), j = text.find(e);
    if (i != 0 || j == Bytes::npos) {
        return false;
    }
    return unb64(text.substr(b.size(), j - b.size()), der);
}
struct Rsa
{
    Z n, e, d, p, q, dp, dq, qp;
    Bytes alg() const
    {
        return der_tlv(0x30, Bytes("\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01\x05\x00", 13));
    }
    Bytes der_priv() const
    {
        return der_tlv(0x30, der_int(Z(0)) + der_int(n) + der_int(e) + der_int(d) + der_int(p) + der_int(q) + der_int(dp) + der_int(dq) + der_int(qp));
    }
    Bytes der_pkcs8() const
    {
        return der_tlv(0x30, der_int(Z(0)) + alg() + der_tlv(4, der_priv()));
    }
    Bytes der_pub() const
    {
        return der_tlv(0x30, alg() + der_tlv(3, Bytes(1, 0) + der_tlv(0x30, der_int(n) + der_int(e))));
    }
    Bytes pem_priv() const
    {
        return pem("RSA PRIVATE KEY", der_priv());
    }
    Bytes pem_pkcs8() const
    {
        return pem("PRIVATE KEY", der_pkcs8());
    }
    Bytes pem_pub() const
    {
        return pem("PUBLIC KEY", der_pub());
    }
    void complete()
    {
        Z p1, q1, phi, g;
        mpz_mul(n.v, p.v, q.v);
        mpz_sub_ui(p1.v, p.v, 1);
        mpz_sub_ui(q1.v, q.v, 1);
        mpz_mul(phi.v, p1.v, q1.v);
        if (!mpz_invert(d.v, e.v, phi.v)) {
            harness_error("e not invertible");
        }
        mpz_mod(dp.v, d.v, p1.v);
        mpz_mod(dq.v, d.v, q1.v);
        if (!mpz_invert(qp.v, q.v, p.v)) {
            harness_error("q not invertible");
        }
    }
    Z powm(const Z& x, const Z& k) const
    {
        Z r;
        mpz_powm(r.v, x.v, k.v, n.v);
        return r;
    }
    Bytes eval(const Bytes& m) const
    {
        return powm(Z::be(m), e).to_be(256);
    }
    Bytes inv(const Bytes& m) const
    {
        return powm(Z::be(m), d).to_be(256);
    }
};
inline Z rand_prime(vh::Rng& r, unsigned bits, const Z& e)
{
    for (;;) {
        Bytes b = r.bytes((bits + 7) / 8);
        Z     z = Z::be(b);
        mpz_fdiv_r_2exp(z.v, z.v, bits);
        mpz_setbit(z.v, bits - 1);
        mpz_setbit(z.v, bits - 2);
        mpz_nextprime(z.v, z.v);
        if (mpz_sizeinbase(z.v, 2) != bits) {
            continue;
        }
        Z m, g;
        mpz_sub_ui(m.v, z.v, 1);
        mpz_gcd(g.v, m.v, e.v);
        if (mpz_cmp_ui(g.v, 1) == 0) {
            return z;
        }
    }
}
// p > q, as every generator orders them, unless swapped
inline Rsa make_rsa(vh::Rng& r, unsigned bits, const Z& e, bool swap = false)
{
    Rsa k;
    k.e = e;
    do {
        k.p = rand_prime(r, (bits + 1) / 2, e);
        k.q = rand_prime(r, bits / 2, e);
    } while (mpz_cmp(k.p.v, k.q.v) == 0);
    if ((mpz_cmp(k.p.v, k.q.v) < 0) != swap) {
        mpz_swap(k.p.v, k.q.v);
    }
    k.complete();
    return k;
}
inline Z exponent(unsigned i)
{
    static const char* ex[] = {"65537", "3", "17", "257", "5", "4294967297", "18446744073709551557", "340282366920938463463374607431768211507"};
    Z                  z;
    mpz_set_str(z.v, ex[i % 8], 10);
    return z;
}
} // namespace orc
