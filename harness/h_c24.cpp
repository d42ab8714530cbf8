// C24: Base64, PEM and DER encodings are exact.
// References: own encoders (rsakeys.hpp), OpenSSL's Base64, PEM and DER code.
#include "mpi.hpp"
#include "rsakeys.hpp"
extern "C" {
#include "mbedtls/rsa.h"
#include "mbedtls/rsa_io.h"
#include "mbedtls/base64.h"
#include "mbedtls/pem.h"
#include "mbedtls/asn1.h"
#include "mbedtls/asn1write.h"
}
#include <openssl/bio.h>
#include <openssl/bn.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <openssl/err.h>
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
using orc::Rsa;

static Bytes unhex(const char* h)
{
    Bytes b;
    for (; *h; h += 2) b.push_back(static_cast<char>(std::stoi(std::string(h, 2), nullptr, 16)));
    return b;
}
// ---------------------------------------------------------------- Base64
static Bytes ossl_b64(const Bytes& in)
{
    if (in.empty()) return "";
    Bytes out(in.size() / 3 * 4 + 5, '\0');
    int   n = EVP_EncodeBlock(reinterpret_cast<unsigned char*>(&out[0]), U(in), static_cast<int>(in.size()));
    out.resize(static_cast<size_t>(n));
    return out;
}
static void encode_case(const Bytes& in)
{
    note("base64 encode %zu bytes", in.size());
    Bytes ref = ossl_b64(in);
    Guard src(in);
    src.ro();
    size_t need = in.empty() ? 0 : ref.size() + 1, olen = 7777;
    {
        Guard  dst(need);
        int    r = mbedtls_base64_encode(dst.data(), need, &olen, src.data(), in.size());
        Bytes  got = dst.str().substr(0, olen <= need ? olen : need);
        if (r != 0 || got != ref || (need && dst.str()[need - 1] != 0) || !dst.front_ok())
            viol("b64-encode", "encoding %zu bytes: ret %d, %zu characters, reference %zu", in.size(), r, olen, ref.size());
    }
    {
        Guard dst(need + 5);
        olen = 1;
        int r = mbedtls_base64_encode(dst.data(), need + 5, &olen, src.data(), in.size());
        if (r != 0 || olen != ref.size() || dst.str().substr(0, olen) != ref) viol("b64-encode", "with a larger buffer, %zu bytes: ret %d", in.size(), r);
        for (size_t i = need; i < need + 5; i++)
            if (dst.data()[i] != 0xA5) viol("b64-encode-write", "wrote byte %zu of the destination, beyond the %zu needed", i, need);
    }
    tally("b64_encoded");
    seenf("enc%zu", in.size());
    if (need == 0) return;
    // too small: the needed size is reported, nothing is written
    std::vector<size_t> small = {0, need - 1, need / 2};
    if (need > 3) small.push_back(need - 2);
    for (size_t d : small) {
        Guard dst(d);
        Bytes before = dst.str();
        olen         = 7777;
        int r        = mbedtls_base64_encode(dst.data(), d, &olen, src.data(), in.size());
        if (r != MBEDTLS_ERR_BASE64_BUFFER_TOO_SMALL || olen != need || dst.str() != before)
            viol("b64-encode-small", "buffer of %zu for %zu: ret %d, reported %zu", d, need, r, olen);
        tally("b64_small");
    }
    olen  = 7;
    int r = mbedtls_base64_encode(nullptr, 0, &olen, src.data(), in.size());
    if (r != MBEDTLS_ERR_BASE64_BUFFER_TOO_SMALL || olen != need) viol("b64-encode-null", "NULL destination: ret %d, size %zu instead of %zu", r, olen, need);
}
// reference decoder of the accepted text: standard Base64, lines ended by LF or
// CRLF, spaces only before an end of line or at the end
static bool ref_decode(const Bytes& t, Bytes& out)
{
    static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    Bytes             sym;
    size_t            i = 0;
    while (i < t.size()) {
        size_t sp = i;
        while (i < t.size() && t[i] == ' ') i++;
        if (i == t.size()) break;
        if (t[i] == '\n') {
            i++;
            continue;
        }
        if (t[i] == '\r' && i + 1 < t.size() && t[i + 1] == '\n') {
            i += 2;
            continue;
        }
        if (i != sp) return false;
        if (t[i] == 0 || (t[i] != '=' && !strchr(al, t[i]))) return false;
        sym.push_back(t[i++]);
    }
    size_t body = 0;
    while (body < sym.size() && sym[body] != '=') body++;
    size_t pads = sym.size() - body;
    if (pads > 2 || sym.find_first_not_of('=', body) != Bytes::npos || sym.size() % 4) return false;
    out.clear();
    uint32_t acc = 0;
    unsigned n   = 0;
    for (size_t k = 0; k < body; k++) {
        acc = (acc << 6) | static_cast<uint32_t>(strchr(al, sym[k]) - al);
        n += 6;
        if (n >= 8) {
            n -= 8;
            out.push_back(static_cast<char>((acc >> n) & 255));
        }
    }
    return true;
}
static void decode_case(const Bytes& t, const char* what, const Bytes* want = nullptr)
{
    Bytes ref;
    bool  ok = ref_decode(t, ref);
    if (want && (!ok || ref != *want)) harness_error("reference decoder disagrees with the encoder");
    note("base64 decode (%s) %zu chars", what, t.size());
    Guard src(t);
    src.ro();
    size_t cap = t.size() + 3, olen = 7777;
    Guard  big(cap);
    int    r = mbedtls_base64_decode(big.data(), cap, &olen, src.data(), t.size());
    if (!ok) {
        if (r == 0) viol("b64-malformed", "%s: malformed text accepted (%zu chars, gave %zu bytes): %s", what, t.size(), olen, hex(t.substr(0, 40)).c_str());
        tally("b64_malformed");
        return;
    }
    if (r != 0 || olen != ref.size() || big.str().substr(0, ref.size()) != ref) {
        viol("b64-decode", "%s: %zu chars: ret %d, %zu bytes, reference %zu", what, t.size(), r, olen, ref.size());
        return;
    }
    tally("b64_decoded");
    seenf("dec%s%zu", what, t.size());
    {
        Guard dst(ref.size());
        olen = 1;
        r    = mbedtls_base64_decode(ref.empty() ? big.data() : dst.data(), ref.size(), &olen, src.data(), t.size());
        if (r != 0 || olen != ref.size() || dst.str() != ref || !dst.front_ok()) viol("b64-decode-exact", "%s: exact buffer of %zu: ret %d", what, ref.size(), r);
    }
    if (ref.empty()) return;
    for (size_t d : {size_t(0), ref.size() - 1, ref.size() / 2}) {
        if (d >= ref.size()) continue;
        Guard dst(d);
        Bytes before = dst.str();
        olen         = 7777;
        r            = mbedtls_base64_decode(dst.data(), d, &olen, src.data(), t.size());
        if (r != MBEDTLS_ERR_BASE64_BUFFER_TOO_SMALL || olen != ref.size() || dst.str() != before) viol("b64-decode-small", "buffer of %zu for %zu: ret %d, reported %zu", d, ref.size(), r, olen);
        tally("b64_small");
    }
    olen = 7;
    r    = mbedtls_base64_decode(nullptr, 0, &olen, src.data(), t.size());
    if (r != MBEDTLS_ERR_BASE64_BUFFER_TOO_SMALL || olen != ref.size()) viol("b64-decode-null", "NULL destination: ret %d, size %zu instead of %zu", r, olen, ref.size());
}
static Bytes broken_lines(const Bytes& b, size_t w, const char* nl)
{
    Bytes o;
    for (size_t i = 0; i < b.size(); i += w) o += b.substr(i, w) + nl;
    return o;
}
static void base64_all()
{
    size_t top = ctx().thorough ? 1200 : 300;
    for (size_t n = 0; n <= top; n++) {
        if (!mine(n)) continue;
        Bytes in = n % 5 == 0 ? Bytes(n, '\xff') : n % 7 == 0 ? Bytes(n, 0) : rng().bytes(n);
        encode_case(in);
        Bytes t = ossl_b64(in);
        decode_case(t, "plain", &in);
        decode_case(broken_lines(t, 64, "\n"), "lf", &in);
        decode_case(broken_lines(t, 64, "\r\n"), "crlf", &in);
        decode_case(broken_lines(t, 1 + rng().below(9), "  \n"), "spaces", &in);
        decode_case("\n \n" + t + "   ", "around", &in);
    }
    // every byte value at every position class, every symbol pair
    if (mine(1)) {
        for (int c = 0; c < 256; c++)
            for (int pos = 0; pos < 8; pos++) {
                Bytes t = "QUJDREVG";
                t[static_cast<size_t>(pos)] = static_cast<char>(c);
                decode_case(t, "onechar");
                Bytes t2 = "QUJDRA==";
                t2[static_cast<size_t>(pos)] = static_cast<char>(c);
                decode_case(t2, "onechar2");
            }
        for (int v = 0; v < 65536; v += ctx().thorough ? 1 : 7) {
            Bytes in;
            in.push_back(static_cast<char>(v >> 8));
            in.push_back(static_cast<char>(v));
            size_t        olen;
            unsigned char e[5], d[2];
            if (mbedtls_base64_encode(e, 5, &olen, U(in), 2) || Bytes(reinterpret_cast<char*>(e), 4) != orc::b64(in)) viol("b64-encode", "two bytes %04x", v);
            if (mbedtls_base64_decode(d, 2, &olen, e, 4) || olen != 2 || memcmp(d, in.data(), 2)) viol("b64-decode", "two bytes %04x", v);
            tally("b64_pairs");
        }
    }
    // truncations and hostile texts
    const char hostile[] = "AQ/+9z== \n\r=-_\t.\x80\x01";
    size_t     rounds    = ctx().thorough ? 200000 : 20000;
    for (size_t i = 0; i < rounds; i++) {
        if (!mine(i)) continue;
        Bytes t;
        if (i % 3 == 0) {
            size_t n = rng().below(14);
            for (size_t k = 0; k < n; k++) t.push_back(hostile[rng().below(sizeof(hostile) - 1)]);
        } else if (i % 3 == 1) {
            t = ossl_b64(rng().bytes(1 + rng().below(20)));
            t.resize(rng().below(t.size() + 1));
        } else {
            t = ossl_b64(rng().bytes(1 + rng().below(20)));
            size_t k = rng().below(t.size() + 1);
            t.insert(k, 1, hostile[rng().below(sizeof(hostile) - 1)]);
        }
        decode_case(t, "hostile");
    }
    for (size_t n : {size_t(4096), size_t(65536), size_t(1000003)})
        if (mine(n)) {
            Bytes in = rng().bytes(n);
            encode_case(in);
            decode_case(ossl_b64(in), "large", &in);
        }
}

// ---------------------------------------------------------------- DER pieces
static void der_pieces()
{
    std::vector<size_t> lens;
    for (size_t i = 0; i < 300; i++) lens.push_back(i);
    for (int s : {16, 24, 32})
        for (int d = -2; d <= 2; d++) lens.push_back((size_t(1) << s) + static_cast<size_t>(d));
    for (size_t n : lens) {
        if (!mine(n)) continue;
        note("asn1 length %zu", n);
        Bytes ref = orc::der_len(n);
        for (size_t room = 0; room <= ref.size() + 1; room++) {
            Guard          b(room);
            unsigned char* p = b.data() + room;
            int            r = mbedtls_asn1_write_len(&p, b.data(), n);
            if (n > 0xffffffffu) {
                if (r >= 0) viol("der-len", "length %zu does not fit and gave %d", n, r);
                continue;
            }
            if (room < ref.size()) {
                if (r >= 0) viol("der-len", "length %zu written into %zu bytes", n, room);
            } else if (r != static_cast<int>(ref.size()) || Bytes(reinterpret_cast<char*>(p), ref.size()) != ref || p != b.data() + room - ref.size())
                viol("der-len", "length %zu: ret %d, %s", n, r, hex(b.str()).c_str());
            tally("der_lengths");
        }
        if (n > 0xffffffffu) continue;
        // reading: the content has to be present
        if (n < 70000) {
            Bytes t = ref + Bytes(n, 'x');
            for (size_t cut : {t.size(), t.size() - 1, size_t(1), size_t(0), ref.size() - 1}) {
                if (cut > t.size()) continue;
                Guard          g(t.substr(0, cut));
                unsigned char* p   = g.data();
                size_t         len = 7777;
                int            r   = mbedtls_asn1_get_len(&p, g.data() + cut, &len);
                bool           want = cut == t.size();
                if (want ? (r != 0 || len != n || p != g.data() + ref.size()) : r == 0) viol("der-getlen", "length %zu in %zu bytes: ret %d, %zu", n, cut, r, len);
                tally("der_lengths_read");
            }
            // a tag and its content
            uint8_t tag = static_cast<uint8_t>(rng().below(256));
            Guard   g(Bytes(1, static_cast<char>(tag)) + t);
            for (int other = 0; other < 2; other++) {
                unsigned char* p   = g.data();
                size_t         len = 1;
                int            r   = mbedtls_asn1_get_tag(&p, g.data() + g.len, &len, other ? tag ^ 1 : tag);
                if (other ? r == 0 : (r != 0 || len != n || p != g.data() + 1 + ref.size())) viol("der-gettag", "tag %02x, length %zu: ret %d", tag, n, r);
            }
        }
    }
    // lengths with distinct bytes in every width, minimal or padded: a form which
    // is accepted is read as the number it spells
    if (mine(3)) {
        const size_t                     room = 0x01020304 + 16;
        std::unique_ptr<unsigned char[]> big(new unsigned char[room]);
        for (size_t n : {size_t(0), size_t(5), size_t(0x7f), size_t(0x80), size_t(0xfe), size_t(0x0102), size_t(0xfe01), size_t(0x010203), size_t(0xfe0102), size_t(0x01020304), size_t(0x0100ff02)}) {
            for (unsigned w = 0; w <= 4; w++) {
                Bytes h;
                if (w == 0) {
                    if (n >= 0x80) continue;
                    h = Bytes(1, static_cast<char>(n));
                } else {
                    if (w < 4 && n >> (8 * w)) continue;
                    h = Bytes(1, static_cast<char>(0x80 + w));
                    for (unsigned k = w; k-- > 0;) h.push_back(static_cast<char>(n >> (8 * k)));
                }
                memcpy(big.get(), h.data(), h.size());
                for (int shortfall = 0; shortfall < 2; shortfall++) {
                    if (shortfall && n == 0) continue;
                    unsigned char* p   = big.get();
                    size_t         len = 7777;
                    int            r   = mbedtls_asn1_get_len(&p, big.get() + h.size() + n - static_cast<size_t>(shortfall), &len);
                    bool           minimal = h == orc::der_len(n);
                    if (shortfall ? r == 0 : r == 0 ? (len != n || p != big.get() + h.size()) : minimal) viol("der-getlen", "length %zu spelt %s: ret %d, %zu", n, hex(h).c_str(), r, len);
                    tally("der_long_lengths");
                }
            }
        }
    }
    // indefinite and over-long forms
    for (const char* h : {"80", "85", "850000000001", "88", "ff"}) {
        Bytes          t = unhex(h) + Bytes(300, 'y');
        Guard          g(t);
        unsigned char* p = g.data();
        size_t         len = 0;
        if (mbedtls_asn1_get_len(&p, g.data() + g.len, &len) == 0) viol("der-getlen", "length form %s accepted", h);
    }
    // INTEGER
    size_t rounds = ctx().thorough ? 6000 : 700;
    for (size_t i = 0; i < rounds; i++) {
        if (!mine(i)) continue;
        Z z;
        if (i < 300) z = Z(static_cast<unsigned long>(i));
        else z = Z::be(rng().bytes(1 + rng().below(i % 9 == 0 ? 520 : 40)));
        if (i % 4 == 1) { // extremes around a byte boundary
            mpz_set_ui(z.v, 1);
            mpz_mul_2exp(z.v, z.v, 8 * rng().below(40) + (rng().chance(1, 2) ? 0 : 7));
            if (rng().chance(1, 2)) mpz_sub_ui(z.v, z.v, 1);
        }
        Bytes ref = orc::der_int(z);
        note("asn1 integer %s", S(z).substr(0, 60).c_str());
        M x;
        load(x, z, static_cast<unsigned>(i));
        for (size_t room : {ref.size(), ref.size() + 3, ref.size() - 1, size_t(0), size_t(1), ref.size() / 2}) {
            Guard          b(room);
            unsigned char* p = b.data() + room;
            int            r = mbedtls_asn1_write_mpi(&p, b.data(), &x.v);
            if (room < ref.size() ? r >= 0 : (r != static_cast<int>(ref.size()) || p != b.data() + room - ref.size() || Bytes(reinterpret_cast<char*>(p), ref.size()) != ref))
                viol("der-int", "INTEGER %s in %zu bytes: ret %d, %s, reference %s", S(z).substr(0, 60).c_str(), room, r, hex(b.str().substr(0, 24)).c_str(), hex(ref.substr(0, 24)).c_str());
            if (!b.front_ok()) viol("der-int-write", "INTEGER written before the buffer");
            tally("der_integers");
        }
        seenf("int%zu", ref.size());
        {
            Guard          g(ref);
            unsigned char* p = g.data();
            M              y;
            int            r = mbedtls_asn1_get_mpi(&p, g.data() + g.len, &y.v);
            if (r != 0 || p != g.data() + g.len || mpz_cmp(value(y.v).v, z.v)) viol("der-getint", "INTEGER %s read back: ret %d", S(z).substr(0, 60).c_str(), r);
        }
        for (size_t cut : {size_t(0), size_t(1), ref.size() - 1}) {
            if (cut >= ref.size()) continue;
            Guard          g(ref.substr(0, cut));
            unsigned char* p = g.data();
            M              y;
            if (mbedtls_asn1_get_mpi(&p, g.data() + cut, &y.v) == 0) viol("der-getint", "truncated INTEGER accepted");
        }
        // get_int, for small values
        if (mpz_fits_sint_p(z.v)) {
            Guard          g(ref);
            unsigned char* p = g.data();
            int            v = -5;
            int            r = mbedtls_asn1_get_int(&p, g.data() + g.len, &v);
            if (ref.size() <= 6 && (r != 0 || v != mpz_get_si(z.v))) viol("der-get-int", "int %s read as %d (ret %d)", S(z).c_str(), v, r);
            tally("der_small_ints");
        }
    }
    // BIT STRING, OCTET STRING, BOOLEAN, NULL
    for (size_t n = 0; n < 280; n++) {
        if (!mine(n)) continue;
        Bytes body = rng().bytes(n), oct = orc::der_tlv(4, body);
        for (size_t room : {oct.size(), oct.size() - 1}) {
            Guard          b(room);
            unsigned char* p = b.data() + room;
            Guard          src(body);
            int            r = mbedtls_asn1_write_octet_string(&p, b.data(), src.data(), n);
            if (room < oct.size() ? r >= 0 : (r != static_cast<int>(oct.size()) || b.str() != oct)) viol("der-octets", "OCTET STRING of %zu in %zu: %d", n, room, r);
        }
        for (unsigned bits : {0u, 1u, 7u, 8u}) {
            if (bits > 8 * n) continue;
            size_t nb = 8 * n - bits;
            Bytes  bs = orc::der_tlv(3, Bytes(1, static_cast<char>((8 - nb % 8) % 8)) + body.substr(0, (nb + 7) / 8));
            Guard  b(bs.size() + 2);
            unsigned char* p = b.data() + b.len;
            int            r = mbedtls_asn1_write_bitstring(&p, b.data(), U(body), nb);
            if (r != static_cast<int>(bs.size()) || Bytes(reinterpret_cast<char*>(p), bs.size()) != bs) viol("der-bits", "BIT STRING of %zu bits: %d", nb, r);
            Guard                  g(bs);
            mbedtls_asn1_bitstring o;
            p = g.data();
            r = mbedtls_asn1_get_bitstring(&p, g.data() + g.len, &o);
            if (r != 0 || o.len != (nb + 7) / 8 || o.unused_bits != (8 - nb % 8) % 8 || memcmp(o.p, body.data(), o.len)) viol("der-getbits", "BIT STRING of %zu bits: ret %d", nb, r);
            tally("der_bitstrings");
        }
    }
    for (int v = 0; v < 2; v++) {
        unsigned char  b[3], *p = b + 3;
        int            r = mbedtls_asn1_write_bool(&p, b, v);
        Bytes          ref = v ? unhex("0101ff") : unhex("010100");
        if (r != 3 || memcmp(b, ref.data(), 3)) viol("der-bool", "BOOLEAN %d: %d %02x", v, r, b[2]);
        int o = -1;
        p     = b;
        if (mbedtls_asn1_get_bool(&p, b + 3, &o) || o != v) viol("der-getbool", "BOOLEAN %d read as %d", v, o);
    }
}

// ---------------------------------------------------------------- keys
struct RC
{
    mbedtls_rsa_context v;
    RC()
    {
        mbedtls_rsa_init(&v, 0, 0);
    }
    RC(const RC&) = delete;
    ~RC()
    {
        mbedtls_rsa_free(&v);
    }
};
static void fill(RC& c, const Rsa& k)
{
    mbedtls_mpi* f[] = {&c.v.N, &c.v.E, &c.v.D, &c.v.P, &c.v.Q, &c.v.DP, &c.v.DQ, &c.v.QP};
    const Z*     z[] = {&k.n, &k.e, &k.d, &k.p, &k.q, &k.dp, &k.dq, &k.qp};
    for (int i = 0; i < 8; i++) {
        M m;
        load(m, *z[i], static_cast<unsigned>(rng().below(3)));
        if (mbedtls_mpi_copy(f[i], &m.v)) harness_error("copy");
    }
    c.v.len = (mpz_sizeinbase(k.n.v, 2) + 7) / 8;
}
static bool same(mbedtls_rsa_context& c, const Rsa& k, bool priv)
{
    mbedtls_mpi* f[] = {&c.N, &c.E, &c.D, &c.P, &c.Q, &c.DP, &c.DQ, &c.QP};
    const Z*     z[] = {&k.n, &k.e, &k.d, &k.p, &k.q, &k.dp, &k.dq, &k.qp};
    for (int i = 0; i < (priv ? 8 : 2); i++)
        if (mpz_cmp(value(*f[i]).v, z[i]->v)) return false;
    return c.len == (mpz_sizeinbase(k.n.v, 2) + 7) / 8;
}
static Z bn(const BIGNUM* b)
{
    Bytes s(static_cast<size_t>(BN_num_bytes(b)), 0);
    BN_bn2bin(b, reinterpret_cast<unsigned char*>(&s[0]));
    return Z::be(s);
}
static BIGNUM* to_bn(const Z& z)
{
    Bytes s = z.to_be((mpz_sizeinbase(z.v, 2) + 7) / 8);
    return BN_bin2bn(U(s), static_cast<int>(s.size()), nullptr);
}
static bool ossl_same(const RSA* r, const Rsa& k, bool priv)
{
    const BIGNUM *n, *e, *d, *p, *q, *dp, *dq, *qp;
    RSA_get0_key(r, &n, &e, &d);
    RSA_get0_factors(r, &p, &q);
    RSA_get0_crt_params(r, &dp, &dq, &qp);
    if (mpz_cmp(bn(n).v, k.n.v) || mpz_cmp(bn(e).v, k.e.v)) return false;
    if (!priv) return true;
    return d && p && q && dp && dq && qp && !mpz_cmp(bn(d).v, k.d.v) && !mpz_cmp(bn(p).v, k.p.v) && !mpz_cmp(bn(q).v, k.q.v) && !mpz_cmp(bn(dp).v, k.dp.v)
           && !mpz_cmp(bn(dq).v, k.dq.v) && !mpz_cmp(bn(qp).v, k.qp.v);
}
static RSA* ossl_key(const Rsa& k)
{
    RSA* r = RSA_new();
    RSA_set0_key(r, to_bn(k.n), to_bn(k.e), to_bn(k.d));
    RSA_set0_factors(r, to_bn(k.p), to_bn(k.q));
    RSA_set0_crt_params(r, to_bn(k.dp), to_bn(k.dq), to_bn(k.qp));
    return r;
}
static Bytes bio_text(BIO* b)
{
    char* p = nullptr;
    long  n = BIO_get_mem_data(b, &p);
    return Bytes(p, static_cast<size_t>(n));
}
enum
{
    PRIV,
    PUB
};
static void expect_parse(const Rsa& k, const Bytes& text, int kind, bool nul, const char* what)
{
    Bytes t = text;
    if (nul) t.push_back('\0');
    Guard g(t);
    g.ro();
    RC  c;
    int r = kind == PRIV ? mbedtls_rsa_parse_key(&c.v, g.data(), g.len, nullptr, 0) : mbedtls_rsa_parse_public_key(&c.v, g.data(), g.len);
    if (r != 0 || !same(c.v, k, kind == PRIV))
        viol(kind == PRIV ? "key-read" : "pubkey-read", "%s (%zu-bit modulus) read with ret -0x%x%s", what, mpz_sizeinbase(k.n.v, 2), static_cast<unsigned>(-r), r ? "" : " but other numbers");
    tally("keys_read");
    seenf("%s%zu", what, mpz_sizeinbase(k.n.v, 2));
}
static void key_case(const Rsa& k)
{
    size_t bits = mpz_sizeinbase(k.n.v, 2);
    note("key of %zu bits, e=%s", bits, S(k.e).c_str());
    RC c;
    fill(c, k);
    Bytes dpriv = k.der_priv(), dpub = k.der_pub(), ppriv = k.pem_priv(), ppub = k.pem_pub();
    // DER is written at the end of the buffer, within it
    for (int kind : {PRIV, PUB}) {
        const Bytes& ref = kind == PRIV ? dpriv : dpub;
        for (size_t room : {ref.size(), ref.size() + 17, ref.size() - 1, ref.size() / 2, size_t(0), size_t(3)}) {
            Guard b(room);
            int   r = kind == PRIV ? mbedtls_rsa_write_key_der(&c.v, b.data(), room) : mbedtls_rsa_write_pubkey_der(&c.v, b.data(), room);
            if (room < ref.size() ? r >= 0 : (r != static_cast<int>(ref.size()) || b.str().substr(room - ref.size()) != ref))
                viol(kind == PRIV ? "der-key" : "der-pubkey", "%zu-bit key into %zu bytes (%zu needed): ret %d, %s", bits, room, ref.size(), r, r == static_cast<int>(ref.size()) ? "other bytes" : "");
            if (!b.front_ok()) viol("der-key-write", "DER written before the buffer");
            tally("der_keys");
        }
        // PEM: exact size and smaller
        const Bytes& txt = kind == PRIV ? ppriv : ppub;
        for (size_t room : {txt.size() + 1, txt.size() + 2, txt.size() + 100, txt.size(), txt.size() / 2, size_t(0)}) {
            Guard b(room);
            int   r = kind == PRIV ? mbedtls_rsa_write_key_pem(&c.v, b.data(), room) : mbedtls_rsa_write_pubkey_pem(&c.v, b.data(), room);
            // one spare byte may be asked for
            if (room <= txt.size() ? r == 0 : (room >= txt.size() + 2 && r != 0)) viol("pem-key-size", "%zu-bit key into %zu bytes (%zu needed): ret %d", bits, room, txt.size() + 1, r);
            if (r == 0 && Bytes(reinterpret_cast<char*>(b.data())) != txt) viol(kind == PRIV ? "pem-key" : "pem-pubkey", "PEM of a %zu-bit key differs", bits);
            if (!b.front_ok()) viol("pem-key-write", "PEM written before the buffer");
            tally("pem_keys");
        }
    }
    if (!same(c.v, k, true)) viol("key-written-changed", "writing a key changed it");
    // OpenSSL reads what the library writes
    {
        std::vector<unsigned char> b(20000);
        if (mbedtls_rsa_write_key_pem(&c.v, b.data(), b.size()) == 0) {
            BIO* m = BIO_new_mem_buf(b.data(), -1);
            RSA* r = PEM_read_bio_RSAPrivateKey(m, nullptr, nullptr, nullptr);
            if (!r || !ossl_same(r, k, true)) viol("openssl-key", "OpenSSL does not read the private PEM of a %zu-bit key", bits);
            RSA_free(r);
            BIO_free(m);
        }
        if (mbedtls_rsa_write_pubkey_pem(&c.v, b.data(), b.size()) == 0) {
            BIO* m = BIO_new_mem_buf(b.data(), -1);
            RSA* r = PEM_read_bio_RSA_PUBKEY(m, nullptr, nullptr, nullptr);
            if (!r || !ossl_same(r, k, false)) viol("openssl-pubkey", "OpenSSL does not read the public PEM of a %zu-bit key", bits);
            RSA_free(r);
            BIO_free(m);
        }
        tally("openssl_reads");
        ERR_clear_error();
    }
    // reading own encodings, in every accepted form
    expect_parse(k, dpriv, PRIV, false, "pkcs1-der");
    expect_parse(k, dpriv, PRIV, true, "pkcs1-der0");
    expect_parse(k, ppriv, PRIV, true, "pkcs1-pem");
    expect_parse(k, k.der_pkcs8(), PRIV, false, "pkcs8-der");
    expect_parse(k, k.pem_pkcs8(), PRIV, true, "pkcs8-pem");
    expect_parse(k, dpub, PUB, false, "spki-der");
    expect_parse(k, dpub, PUB, true, "spki-der0");
    expect_parse(k, ppub, PUB, true, "spki-pem");
    auto crlf = [](Bytes s) {
        for (size_t i = 0; (i = s.find('\n', i)) != Bytes::npos; i += 2) s.insert(i, 1, '\r');
        return s;
    };
    expect_parse(k, crlf(ppriv), PRIV, true, "pkcs1-crlf");
    expect_parse(k, crlf(ppub), PUB, true, "spki-crlf");
    expect_parse(k, "some text\nbefore: yes\n" + ppub + "and after\n", PUB, true, "spki-text");
    expect_parse(k, "x\n" + k.pem_pkcs8().substr(0, k.pem_pkcs8().size() - 1), PRIV, true, "pkcs8-nofinalnl");
    // what OpenSSL writes
    if (bits >= 512) {
        RSA*      r  = ossl_key(k);
        EVP_PKEY* pk = EVP_PKEY_new();
        EVP_PKEY_set1_RSA(pk, r);
        BIO* b = BIO_new(BIO_s_mem());
        PEM_write_bio_RSAPrivateKey(b, r, nullptr, nullptr, 0, nullptr, nullptr);
        Bytes t = bio_text(b);
        expect_parse(k, t, PRIV, true, "openssl-pkcs1");
        if (t != ppriv) viol("pem-key", "OpenSSL's PEM differs from the library's layout");
        (void)BIO_reset(b);
        PEM_write_bio_PKCS8PrivateKey(b, pk, nullptr, nullptr, 0, nullptr, nullptr);
        expect_parse(k, bio_text(b), PRIV, true, "openssl-pkcs8");
        (void)BIO_reset(b);
        PEM_write_bio_RSA_PUBKEY(b, r);
        expect_parse(k, bio_text(b), PUB, true, "openssl-spki");
        BIO_free(b);
        unsigned char* der = nullptr;
        int            n   = i2d_RSAPrivateKey(r, &der);
        expect_parse(k, Bytes(reinterpret_cast<char*>(der), static_cast<size_t>(n)), PRIV, false, "openssl-der");
        OPENSSL_free(der);
        EVP_PKEY_free(pk);
        RSA_free(r);
        tally("openssl_writes");
    }
    // malformed encodings of this key are refused
    auto refuse = [&](const Bytes& text, int kind, bool nul, const char* what) {
        Bytes t = text;
        if (nul) t.push_back('\0');
        Guard g(t);
        RC    x;
        int   r = kind == PRIV ? mbedtls_rsa_parse_key(&x.v, g.data(), g.len, nullptr, 0) : mbedtls_rsa_parse_public_key(&x.v, g.data(), g.len);
        if (r == 0) viol("malformed-accepted", "%s accepted", what);
        tally("malformed_keys");
    };
    refuse(dpriv.substr(0, dpriv.size() - 1), PRIV, false, "truncated PKCS#1");
    refuse(dpub.substr(0, dpub.size() - 1), PUB, false, "truncated public key");
    refuse(ppriv, PRIV, false, "PEM without its NUL");
    refuse(ppriv, PUB, true, "private key as a public key");
    refuse(ppub, PRIV, true, "public key as a private key");
    refuse("", PRIV, true, "empty text");
    refuse("", PUB, false, "no text");
    {
        size_t h = ppriv.find('\n') + 1;
        refuse(ppriv.substr(0, h) + "Proc-Type: 4,ENCRYPTED\nDEK-Info: AES-128-CBC,00112233445566778899AABBCCDDEEFF\n\n" + ppriv.substr(h), PRIV, true, "encrypted PEM");
        Bytes t = ppriv;
        t[h + 5 + rng().below(40)] = '*';
        refuse(t, PRIV, true, "PEM with an invalid character");
        t = ppriv;
        t.erase(t.size() - 33, 1); // a character of the last line
        if (t.find("-----END RSA PRIVATE KEY-----") != Bytes::npos) refuse(t, PRIV, true, "PEM with a missing character");
        refuse(ppriv.substr(0, ppriv.find("-----END")), PRIV, true, "PEM without a footer");
        refuse(ppriv.substr(h), PRIV, true, "PEM without a header");
        refuse(orc::pem("RSA PRIVATE KEY", dpriv + Bytes(1, 0)).substr(5), PRIV, true, "PEM with a damaged header");
    }
    {
        Rsa   o = k;
        Bytes alg = orc::der_tlv(0x30, unhex("06092a864886f70d01010a0500")); // RSASSA-PSS
        Bytes spk = orc::der_tlv(3, Bytes(1, 0) + orc::der_tlv(0x30, orc::der_int(k.n) + orc::der_int(k.e)));
        refuse(orc::der_tlv(0x30, alg + spk), PUB, false, "other algorithm");
        refuse(orc::der_tlv(0x30, o.alg() + orc::der_tlv(3, Bytes(1, 1) + orc::der_tlv(0x30, orc::der_int(k.n) + orc::der_int(k.e)))), PUB, false, "BIT STRING with unused bits");
        refuse(orc::der_tlv(0x30, o.alg() + orc::der_tlv(3, Bytes(1, 0) + orc::der_tlv(0x30, orc::der_int(k.n) + orc::der_int(k.e) + orc::der_int(k.e)))), PUB, false, "third integer in a public key");
        refuse(orc::der_tlv(0x30, o.alg() + spk + Bytes("\x05\x00", 2)), PUB, false, "extra element in SubjectPublicKeyInfo");
        refuse(orc::der_tlv(0x30, orc::der_int(Z(1)) + dpriv.substr(dpriv.find(orc::der_int(k.n)))), PRIV, false, "PKCS#1 version 1");
        refuse(orc::der_tlv(0x30, dpriv.substr(dpriv.find(orc::der_int(Z(0)) + orc::der_int(k.n))) + orc::der_int(Z(1))), PRIV, false, "ninth integer in PKCS#1");
    }
}
static void pem_blocks()
{
    size_t top = ctx().thorough ? 2000 : 260;
    for (size_t n = 0; n <= top; n++) {
        if (!mine(n)) continue;
        Bytes       der = rng().bytes(n), label = n % 3 ? "X Y" : "CERTIFICATE";
        Bytes       hd = "-----BEGIN " + label + "-----", ft = "-----END " + label + "-----";
        Bytes       ref = hd + "\n";
        Bytes       e   = ossl_b64(der);
        for (size_t i = 0; i < e.size(); i += 64) ref += e.substr(i, 64) + "\n";
        ref += ft + "\n";
        note("pem of %zu bytes", n);
        size_t olen = 0;
        for (size_t room : {ref.size() + 2, ref.size() + 1, ref.size(), ref.size() / 2}) {
            Guard b(room), d(der);
            d.ro();
            int r = mbedtls_pem_write_buffer((hd + "\n").c_str(), (ft + "\n").c_str(), d.data(), n, b.data(), room, &olen);
            if (room <= ref.size() ? r == 0 : room == ref.size() + 2 && r != 0) viol("pem-write-size", "PEM of %zu bytes into %zu (%zu needed): %d", n, room, ref.size() + 1, r);
            if (r == 0 && (olen != ref.size() + 1 || Bytes(reinterpret_cast<char*>(b.data()), olen) != ref + Bytes(1, 0))) viol("pem-write", "PEM of %zu bytes differs", n);
            if (r != 0 && olen != ref.size() + 1 && olen != ref.size() + 2) viol("pem-write-need", "PEM of %zu bytes: needed size reported as %zu, is %zu", n, olen, ref.size() + 1);
            if (!b.front_ok()) viol("pem-write-oob", "PEM written before the buffer");
        }
        tally("pem_written");
        if (n == 0) continue;
        // read back: with text around, and a second block behind
        Bytes before = rng().chance(1, 2) ? "garbage\n" : "", after = rng().chance(1, 2) ? ref : rng().chance(1, 2) ? Bytes("tail") : Bytes();
        Bytes txt    = before + ref + after;
        txt.push_back('\0');
        Guard               g(txt);
        mbedtls_pem_context c;
        mbedtls_pem_init(&c);
        size_t use = 0;
        int    r   = mbedtls_pem_read_buffer(&c, hd.c_str(), ft.c_str(), g.data(), nullptr, 0, &use);
        if (r != 0 || c.buflen != n || memcmp(c.buf, der.data(), n) || use != before.size() + ref.size()) viol("pem-read", "PEM of %zu bytes: ret %d, %zu bytes, used %zu of %zu", n, r, c.buflen, use, before.size() + ref.size());
        mbedtls_pem_free(&c);
        mbedtls_pem_init(&c);
        r = mbedtls_pem_read_buffer(&c, "-----BEGIN OTHER-----", "-----END OTHER-----", g.data(), nullptr, 0, &use);
        if (r == 0) viol("pem-read-label", "a block of another label was read");
        mbedtls_pem_free(&c);
        // footer before header
        Bytes sw = ft + "\n" + hd + "\n" + e + "\n";
        sw.push_back('\0');
        Guard g2(sw);
        mbedtls_pem_init(&c);
        r = mbedtls_pem_read_buffer(&c, hd.c_str(), ft.c_str(), g2.data(), nullptr, 0, &use);
        if (r == 0) viol("pem-read-order", "a footer before the header was accepted");
        mbedtls_pem_free(&c);
        // every truncation of a short block
        if (n < 40)
            for (size_t cut = 0; cut < ref.size() - 1; cut++) {
                Bytes t = ref.substr(0, cut);
                t.push_back('\0');
                Guard g3(t);
                mbedtls_pem_init(&c);
                r = mbedtls_pem_read_buffer(&c, hd.c_str(), ft.c_str(), g3.data(), nullptr, 0, &use);
                if (r == 0) viol("pem-read-cut", "PEM cut at %zu of %zu accepted", cut, ref.size());
                mbedtls_pem_free(&c);
                tally("pem_cuts");
            }
        tally("pem_read");
    }
}
void vh::run()
{
    base64_all();
    der_pieces();
    pem_blocks();
    size_t rounds = ctx().thorough ? 400 : 64;
    for (size_t i = 0; i < rounds; i++) {
        if (!mine(i)) continue;
        unsigned sizes[] = {256, 512, 513, 520, 768, 1000, 1024, 1031, 640, 2048, 1536, 384};
        unsigned bits    = sizes[i % 12];
        key_case(orc::make_rsa(rng(), bits, orc::exponent(static_cast<unsigned>(i / 12 + i)), i % 5 == 4));
    }
}
