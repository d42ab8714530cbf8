// C19: no operation leaves key or derived secret material in ordinary memory.
// Every operation runs on a stack of its own under an interposed allocator; the
// monitor then looks for the secrets the operation handled (computed by the
// oracle) in what released heap blocks contained, in the heap blocks still
// live, and - where claimed - on the stack.
#include "memscan.hpp"
#include "objects.hpp"
#include "sodiumwipe.hpp"
#include <sse/crypto/hmac.hpp>
#include <sse/crypto/key.hpp>
#include "hash/blake2b.hpp"
#include "hash/sha512.hpp"
#include "mbedtls/rsa.h"
using namespace vh;
using namespace sse::crypto;
using scan::Runner;
using scan::Secrets;
enum
{
    STACK = 1
};
struct Range
{
    const void* p;
    size_t      n;
};
// looks at everything the last operation left
static void inspect(const char* op, const Secrets& s, int flags, std::vector<Range> outputs = {})
{
    scan::State& m = scan::st();
    size_t       at;
    if (m.overflow) harness_error("observer overflow");
    if (auto n = s.find(m.arena, m.used, &at)) viol("released-heap", "%s released ordinary memory holding: %s", op, n->c_str());
    for (auto& r : m.tab) {
        if (r.p == nullptr || r.p == (void*)1) continue;
        bool mine_ = false;
        for (auto& o : outputs)
            if ((uintptr_t)o.p >= (uintptr_t)r.p && (uintptr_t)o.p < (uintptr_t)r.p + r.n) mine_ = true;
        if (mine_) continue;
        tally("live_blocks");
        if (auto n = s.find((uint8_t*)r.p, r.n, &at)) viol("live-heap", "%s keeps ordinary memory (%zu bytes, at %zu) holding: %s", op, r.n, at, n->c_str());
    }
    for (auto& r : scan::Statics::get().v) {
        if (auto n = s.find(r.first, r.second, &at)) viol("static", "%s keeps in a static or thread-local variable: %s", op, n->c_str());
        tally("static_bytes", r.second);
    }
    tally("released_blocks", m.frees);
    tally("released_bytes", m.bytes);
    m.frees = m.bytes = 0;
    size_t depth = 0;
    while (depth < scan::kStack / 8 && ((uint64_t*)Runner::get().stack)[depth] == 0) depth++;
    tally("stack_bytes", scan::kStack - depth * 8);
    if (flags & STACK) {
        if (auto n = s.find_whole(Runner::get().stack, scan::kStack, &at)) viol("stack", "%s leaves on its stack (%zu bytes from its top): %s", op, scan::kStack - at, n->c_str());
        tally("stacks");
    }
    tally("ops");
    tally((std::string("op_") + op).c_str());
}
static Outcome go(const char* what, const std::function<void()>& f)
{
    note("%s", what);
    return Runner::get().run(f);
}
template<size_t N>
static Key<N> K(const Bytes& b)
{
    return obj::K<N>(b);
}

// mostly small, now and then beyond a few pages and beyond 16 bits
static size_t some(size_t n)
{
    if (!rng().chance(1, 16)) return rng().below(n);
    tally("large_sizes");
    return rng().range(n, rng().chance(1, 2) ? 9000 : 90000);
}
// ---------------------------------------------------------------- cipher
static void cipher()
{
    Bytes  k = rng().bytes(32);
    size_t len = rng().chance(1, 3) ? 1 + rng().below(40) : 1 + some(1200);
    Bytes  m = rng().bytes(len), ct, pt;
    ct.reserve(len + 64), pt.reserve(len + 64);
    auto                    key = K<32>(k);
    std::unique_ptr<Cipher> c;
    Secrets                 s;
    s.key("cipher key", k);
    Outcome o = go("Cipher construction", [&] { c.reset(new Cipher(std::move(key))); });
    inspect("Cipher construction", s, STACK);
    o = go("Cipher encrypt", [&] { c->encrypt(m, ct); });
    if (o != OK) return viol("unexpected", "encrypt failed");
    s.key("message key", orc::cipher_subkey(k, ct.substr(0, 16)));
    inspect("Cipher encrypt", s, STACK);
    o = go("Cipher decrypt", [&] { c->decrypt(ct, pt); });
    inspect("Cipher decrypt", s, STACK);
    if (o != OK || pt != m) return viol("unexpected", "decrypt failed");
    Bytes bad = ct;
    bad[rng().range(16, bad.size() - 1)] ^= 4;
    o = go("Cipher decrypt (forged)", [&] { c->decrypt(bad, pt); });
    inspect("Cipher decrypt (forged)", s, STACK);
    std::array<uint8_t, 40> in = to_arr<40>(rng().bytes(40)), dec;
    std::array<uint8_t, 72> enc;
    go("Cipher encrypt array", [&] { c->encrypt(in, enc); });
    s.key("message key", orc::cipher_subkey(k, from_arr(enc).substr(0, 16)));
    inspect("Cipher encrypt array", s, STACK);
    go("Cipher decrypt array", [&] { c->decrypt<40>(enc, dec); });
    inspect("Cipher decrypt array", s, STACK);
    std::array<uint8_t, 72> fa = enc;
    fa[16 + rng().below(56)] ^= 8;
    if (go("Cipher decrypt array (forged)", [&] { c->decrypt<40>(fa, dec); }) == OK) viol("unexpected", "forged array accepted");
    inspect("Cipher decrypt array (forged)", s, STACK);
    go("Cipher decrypt (short)", [&] { c->decrypt(ct.substr(0, 20), pt); });
    inspect("Cipher decrypt (short)", s, STACK);
    go("Cipher move and destroy", [&] {
        std::unique_ptr<Cipher> d(new Cipher(std::move(*c)));
        d.reset();
        c.reset();
    });
    inspect("Cipher move and destroy", s, STACK);
    seenf("cipher/%zu", len);
}
// ---------------------------------------------------------------- PRF, MAC
template<uint16_t N>
static void prf()
{
    Bytes   k = rng().bytes(32), x = rng().bytes(some(300));
    auto    key = K<32>(k);
    Secrets s;
    s.key("PRF key", k);
    std::unique_ptr<Prf<N>> f;
    go("Prf construction", [&] { f.reset(new Prf<N>(std::move(key))); });
    inspect("Prf construction", s, STACK);
    std::array<uint8_t, N> out;
    std::array<uint8_t, 33> a = to_arr<33>(rng().bytes(33));
    go("Prf evaluation", [&] { out = f->prf(x); });
    inspect("Prf evaluation", s, STACK);
    go("Prf array evaluation", [&] { out = f->prf(a); });
    inspect("Prf array evaluation", s, STACK);
    if (N >= 16) s.add("derived key of " + std::to_string(N) + " bytes", orc::prf(k, x, N));
    std::unique_ptr<Key<N>> d;
    go("Prf key derivation", [&] { d.reset(new Key<N>(f->derive_key(x))); });
    inspect("Prf key derivation", s, STACK);
    if (N >= 16) s.add("derived key", orc::prf(k, from_arr(a), N));
    go("Prf array key derivation", [&] { d.reset(new Key<N>(f->derive_key(a))); });
    inspect("Prf array key derivation", s, STACK);
    go("Prf null input", [&] { f->prf(nullptr, 5); });
    inspect("Prf null input", s, STACK);
    go("Prf destruction", [&] { f.reset(); });
    inspect("Prf destruction", s, STACK);
    seenf("prf/%u/%zu", N, x.size());
}
template<class H, uint16_t N>
static void mac()
{
    Bytes   k = rng().bytes(N), x = rng().bytes(some(300));
    auto    key = K<N>(k);
    Secrets s;
    s.key("MAC key", k);
    std::unique_ptr<HMac<H, N>> f;
    go("HMac construction", [&] { f.reset(new HMac<H, N>(std::move(key))); });
    inspect("HMac construction", s, STACK);
    uint8_t out[64];
    size_t  l = rng().below(65);
    go("HMac", [&] { f->hmac(U(x), x.size(), out, l); });
    inspect("HMac", s, STACK);
    go("HMac (too long)", [&] { f->hmac(U(x), x.size(), out, 65); });
    inspect("HMac (too long)", s, STACK);
    seenf("mac/%u/%zu", N, x.size());
}
// ---------------------------------------------------------------- PRG
template<size_t N>
static void prg_keys(Prg& g, const Bytes& k)
{
    Secrets s;
    s.key("PRG key", k);
    uint16_t off = (uint16_t)some(200), cnt = (uint16_t)(1 + rng().below(rng().chance(1, 20) ? 200 : 5));
    for (uint16_t i = 0; i < cnt; i++) s.add("derived key", orc::prg(k, (uint64_t)N * (off + i), N));
    std::vector<Key<N>> v;
    auto                k1 = K<32>(k), k2 = K<32>(k);
    go("Prg derive_keys", [&] { v = g.template derive_keys<N>(cnt, off); });
    inspect("Prg derive_keys", s, STACK, {{v.data(), 0}});
    std::unique_ptr<Key<N>> d;
    go("Prg derive_key", [&] { d.reset(new Key<N>(g.template derive_key<N>(off))); });
    inspect("Prg derive_key", s, STACK);
    go("Prg static derive_key", [&] { d.reset(new Key<N>(Prg::derive_key<N>(std::move(k1), off))); });
    inspect("Prg static derive_key", s, STACK);
    go("Prg static derive_keys", [&] { v = Prg::derive_keys<N>(std::move(k2), cnt, off); });
    inspect("Prg static derive_keys", s, STACK);
    seenf("prgk/%zu/%u/%u", N, off, cnt);
}
static void prg()
{
    Bytes   k = rng().bytes(32), out;
    auto    key = K<32>(k), k1 = K<32>(k), k2 = K<32>(k);
    Secrets s;
    s.key("PRG key", k);
    std::unique_ptr<Prg> g;
    go("Prg construction", [&] { g.reset(new Prg(std::move(key))); });
    inspect("Prg construction", s, STACK);
    size_t off = some(300), len = 1 + some(700);
    out.reserve(1000);
    go("Prg derive", [&] { g->derive(off, len, out); });
    inspect("Prg derive", s, STACK);
    go("Prg derive prefix", [&] { g->derive(len, out); });
    inspect("Prg derive prefix", s, STACK);
    go("Prg static derive", [&] { Prg::derive(std::move(k1), off, len, out); });
    inspect("Prg static derive", s, STACK);
    go("Prg derive to null", [&] { g->derive(off, len, (unsigned char*)nullptr); });
    inspect("Prg derive to null", s, STACK);
    prg_keys<32>(*g, k);
    prg_keys<48>(*g, k);
    prg_keys<100>(*g, k);
    seenf("prg/%zu/%zu", off, len);
}
// ---------------------------------------------------------------- PRP
static void prp()
{
    Bytes     k = rng().bytes(48), x = rng().bytes(1 + some(200)), c, d;
    auto      key = K<48>(k);
    GoldenPrp ref(k);
    Secrets   s;
    s.add("PRP key", k);
    s.add("PRP key schedule", Bytes((char*)&ref.c, sizeof ref.c));
    std::unique_ptr<Prp> p;
    go("Prp construction", [&] { p.reset(new Prp(std::move(key))); });
    inspect("Prp construction", s, 0);
    c.reserve(300), d.reserve(300);
    go("Prp encrypt", [&] { p->encrypt(x, c); });
    inspect("Prp encrypt", s, 0);
    go("Prp decrypt", [&] { p->decrypt(c, d); });
    inspect("Prp decrypt", s, 0);
    if (d != x) viol("unexpected", "PRP round trip");
    go("Prp 32/64 bits", [&] { p->decrypt_64(p->encrypt_64(p->encrypt(12u))); });
    inspect("Prp 32/64 bits", s, 0);
    go("Prp destruction", [&] { p.reset(); });
    inspect("Prp destruction", s, 0);
    seenf("prp/%zu", x.size());
}
// ---------------------------------------------------------------- trees
static void tree_secrets(Secrets& s, const orc::Tree& t, uint64_t a, uint64_t b)
{
    s.key("root key", t.root);
    if (t.h <= 7) {
        for (unsigned sh = 2; sh < t.h; sh++)
            for (uint64_t i = 0; i <= t.last(); i += 1ull << (sh - 1)) s.key("node key", t.node(sh, i));
        return;
    }
    for (uint64_t l : {a, b})
        for (unsigned sh = 2; sh < t.h; sh++) {
            s.key("node key", t.node(sh, l));
            s.key("node key", t.node(sh, l ^ 1ull << (sh - 1)));
        }
}
static void tree(const rc::Kind& r)
{
    unsigned  h = rng().chance(2, 3) ? (unsigned)rng().range(2, 7) : (unsigned)rng().range(8, 64);
    Bytes     k = rng().bytes(32);
    orc::Tree t{h, k, r.n};
    auto      m = r.master(k, h);
    uint64_t  a = rc::leaf_in(0, t.last()), b = rc::leaf_in(0, t.last());
    if (a > b) std::swap(a, b);
    uint64_t l  = rc::leaf_in(a, b);
    Secrets  s, s2;
    tree_secrets(s, t, a, b);
    tree_secrets(s, t, l, l);
    Bytes out;
    out.reserve(r.n + 64);
    go("RCPrf eval", [&] { out = m->eval(l); });
    inspect("RCPrf eval", s, 0);
    uint64_t b5 = std::min(b - a, (uint64_t)6) + a, n = 0;
    tree_secrets(s, t, a, b5);
    go("RCPrf eval_range", [&] { m->eval_range(a, b5, [&](uint64_t, const Bytes&) { n++; }); });
    inspect("RCPrf eval_range", s, 0);
    if (n != b5 - a + 1) viol("unexpected", "eval_range: %llu leaves", (unsigned long long)n);
    tree_secrets(s2, t, a, b);
    if (a == 0 && b == t.last()) return;
    std::unique_ptr<rc::Any> c, d;
    Outcome                  o = go("RCPrf constrain", [&] { c = m->constrain(a, b); });
    if (o != OK) return viol("unexpected", "constrain failed");
    inspect("RCPrf constrain", s2, 0);
    go("constrained eval", [&] { out = c->eval(l); });
    inspect("constrained eval", s, 0);
    go("constrained eval_range", [&] { c->eval_range(a, b5, [&](uint64_t, const Bytes&) { n++; }); });
    inspect("constrained eval_range", s, 0);
    Secrets s3 = s2;
    tree_secrets(s3, t, a, l);
    if (!(l == b))
        if (go("constrained constrain", [&] { d = c->constrain(a, l); }) == OK) inspect("constrained constrain", s3, 0);
    go("constrained outside", [&] { out = c->eval(b + 1); });
    inspect("constrained outside", s3, 0);
    go("tree destruction", [&] {
        d.reset();
        c.reset();
        m.reset();
    });
    inspect("tree destruction", s3, 0);
    seenf("tree/%zu/%u/%llu/%llu", (size_t)r.n, h, (unsigned long long)a, (unsigned long long)b);
}
// ---------------------------------------------------------------- wrapping
static void wrapping(const obj::Kind& k)
{
    Bytes         wk = rng().bytes(32), sec = obj::secret_for(k), content;
    Secrets       s;
    orc::WrapKeys w(wk);
    s.key("wrapping key", wk);
    s.key("tag key", w.tag);
    s.key("wrap encryption key", w.enc);
    auto o = k.make(sec, &content);
    if (k.keylen == 49) { // the values of single leaves are outputs, not keys
        orc::Tree t{(unsigned)(uint8_t)sec[32], sec.substr(0, 32), (size_t)((uint8_t)k.context[0] * 256 + (uint8_t)k.context[1])};
        s.key("wrapped root key", t.root);
        if (k.type == 6) {
            std::vector<orc::Elt> e;
            obj::cover(t, t.h, 0, obj::le(sec, 33), obj::le(sec, 41), e);
            for (auto& x : e)
                if (x.sh > 1) s.key("wrapped node key", x.key);
        }
    } else {
        s.add("wrapped key material", content);
        if (k.keylen == 32) s.key("wrapped key", sec);
    }
    auto                     key = K<32>(wk);
    std::unique_ptr<Wrapper> W;
    go("Wrapper construction", [&] { W.reset(new Wrapper(std::move(key))); });
    inspect("Wrapper construction", s, STACK);
    Bytes blob;
    blob.reserve(content.size() + 100);
    int flags = k.name == "Prp" ? 0 : STACK; // the permutation's key schedule is out of scope on the stack
    go("wrap", [&] { blob = o->wrap(*W); });
    inspect("wrap", s, flags);
    std::vector<uint8_t> v(blob.begin(), blob.end());
    std::vector<uint8_t> bad = v;
    std::unique_ptr<obj::Obj> o2;
    bad[rng().below(bad.size())] ^= 1;
    if (go("unwrap (forged)", [&] { o2 = k.unwrap(*W, bad); }) == OK) viol("unexpected", "forged blob accepted");
    inspect("unwrap (forged)", s, flags);
    if (go("unwrap", [&] { o2 = k.unwrap(*W, v); }) != OK) viol("unexpected", "unwrap failed");
    inspect("unwrap", s, flags);
    go("wrapping destruction", [&] {
        W.reset();
        o2.reset();
        o.reset();
    });
    inspect("wrapping destruction", s, STACK);
    tally(("wrapped_" + k.name).c_str());
    seenf("wrap/%s/%zu", k.name.c_str(), content.size());
}
// ---------------------------------------------------------------- TDP elements
static void tdp_elements()
{
    static orc::Rsa r = orc::make_rsa(rng(), 2048, orc::exponent(0));
    static Tdp      f(r.pem_pub());
    Bytes           k = rng().bytes(32), seed = rng().bytes(some(60)), out;
    auto            key = K<32>(k);
    Prf<264>        p(K<32>(k));
    Secrets         s;
    s.key("element PRF key", k);
    out.reserve(400);
    go("Tdp generate (key)", [&] { out = f.generate(std::move(key), seed); });
    inspect("Tdp generate (key)", s, STACK);
    go("Tdp generate (PRF)", [&] { out = f.generate(p, seed); });
    inspect("Tdp generate (PRF)", s, STACK);
    seenf("tdp/%zu", seed.size());
}
// ---------------------------------------------------------------- private TDP
static void number(Secrets& s, const std::string& n, const orc::Z& z)
{
    Bytes b = z.to_be((mpz_sizeinbase(z.v, 2) + 7) / 8), l(b.rbegin(), b.rend());
    s.add(n, l);
    // big-endian bytes may start anywhere in an encoding, so use both ends
    s.add(n, b);
}
static void tdp_private(unsigned i)
{
    static std::vector<orc::Rsa> keys;
    if (keys.size() < 3) keys.push_back(orc::make_rsa(rng(), 2048, orc::exponent((unsigned)keys.size())));
    const orc::Rsa& r = keys[i % keys.size()];
    Secrets         s;
    number(s, "RSA d", r.d);
    number(s, "RSA p", r.p);
    number(s, "RSA q", r.q);
    number(s, "RSA dp", r.dp);
    number(s, "RSA dq", r.dq);
    number(s, "RSA qp", r.qp);
    Bytes pem = r.pem_priv(), pk8 = r.pem_pkcs8(), der = r.der_priv();
    for (size_t o = 0; o < 8; o++) {
        s.add("private key text", pem.substr(700 + o, 800));
        s.add("private key text", pk8.substr(700 + o, 800));
    }
    std::unique_ptr<TdpInverse> f;
    const Bytes&                t = i % 3 == 0 ? pem : i % 3 == 1 ? pk8 : der;
    Bytes                       out, m = r.eval(rng().bytes(256));
    out.reserve(4000);
    Outcome o = go("TdpInverse import", [&] { f.reset(new TdpInverse(t)); });
    if (o != OK) return viol("unexpected", "import");
    // the live object holds its key: only released memory is looked at
    auto released = [&](const char* op) {
        scan::State& st = scan::st();
        size_t       at;
        if (auto n = s.find(st.arena, st.used, &at)) viol("released-heap", "%s released ordinary memory holding: %s", op, n->c_str());
        if (auto n = s.find_whole(Runner::get().stack, scan::kStack, &at)) viol("stack", "%s leaves on its stack (%zu bytes from its top): %s", op, scan::kStack - at, n->c_str());
        tally("stacks_trapdoor");
        tally("released_blocks", st.frees);
        st.frees = 0;
        tally("ops");
        tally((std::string("op_") + op).c_str());
    };
    released("TdpInverse import");
    Bytes cut = t.substr(0, t.size() - 60);
    go("TdpInverse import (bad)", [&] { TdpInverse x(cut); });
    released("TdpInverse import (bad)");
    go("TdpInverse invert", [&] { f->invert(m, out); });
    released("TdpInverse invert");
    go("TdpInverse invert_mult", [&] { f->invert_mult(m, out, (uint32_t)(1 + rng().below(9))); });
    released("TdpInverse invert_mult");
    std::string text;
    go("TdpInverse export", [&] { text = f->private_key(); });
    released("TdpInverse export");
    auto                 key = K<32>(rng().bytes(32));
    Wrapper              w(std::move(key));
    std::vector<uint8_t> blob;
    go("TdpInverse wrap", [&] { blob = w.wrap(*f); });
    released("TdpInverse wrap");
    std::unique_ptr<TdpInverse> g;
    go("TdpInverse unwrap", [&] { g.reset(new TdpInverse(w.unwrap<TdpInverse>(blob))); });
    released("TdpInverse unwrap");
    go("TdpInverse destruction", [&] {
        f.reset();
        g.reset();
    });
    released("TdpInverse destruction");
    seenf("tdpinv/%u", i % 9);
}
// -------------------------------------------------------- generated key pairs
// the secrets are known only once the key exists
static Bytes of_mpi(const mbedtls_mpi& x)
{
    Bytes b(mbedtls_mpi_size(&x), 0);
    if (!b.empty() && mbedtls_mpi_write_binary(&x, reinterpret_cast<unsigned char*>(&b[0]), b.size()) != 0) harness_error("mpi");
    return b;
}
static int watched_rng(void* r, unsigned char* p, size_t n)
{
    static_cast<Rng*>(r)->fill(p, n);
    return 0;
}
static void key_generation(unsigned bits)
{
    mbedtls_rsa_context k;
    mbedtls_rsa_init(&k, 0, 0);
    Rng r(rng().next());
    int ret = -1;
    note("key generation, %u bits", bits);
    Runner::get().run([&] { ret = mbedtls_rsa_gen_key(&k, watched_rng, &r, bits, 65537); });
    if (ret != 0) return viol("unexpected", "key generation fails (%d)", ret);
    scan::State& st = scan::st();
    Secrets      s;
    const mbedtls_mpi* v[] = {&k.D, &k.P, &k.Q, &k.DP, &k.DQ, &k.QP};
    const char*        n[] = {"RSA d", "RSA p", "RSA q", "RSA dp", "RSA dq", "RSA qp"};
    for (int i = 0; i < 6; i++) {
        Bytes b = of_mpi(*v[i]), l(b.rbegin(), b.rend());
        s.add(n[i], l);
        // the candidates met on the way to a prime differ from it in the end only
        s.add(n[i], b);
    }
    size_t at;
    if (st.overflow) {
        tally("generations_too_long");
        st.overflow = false;
    }
    if (auto x = s.find(st.arena, st.used, &at)) viol("released-heap", "generating a key released ordinary memory holding: %s", x->c_str());
    if (auto x = s.find_whole(Runner::get().stack, scan::kStack, &at)) viol("stack", "generating a key leaves on its stack (%zu bytes from its top): %s", scan::kStack - at, x->c_str());
    tally("released_blocks", st.frees);
    st.frees = 0;
    tally("generations");
    tally("ops");
    mbedtls_rsa_free(&k);
    seenf("generation/%u", bits);
}
void vh::run()
{
    // the observer sees what it has to see
    {
        Bytes   k = rng().bytes(32);
        Secrets s;
        s.key("k", k);
        volatile uint8_t sink = 0;
        Runner::get().run([&] {
            volatile uint8_t* h = (volatile uint8_t*)malloc(64);
            for (int i = 0; i < 32; i++) h[i + 3] = (uint8_t)(k[i] ^ 0x36);
            sink = h[5];
            asm volatile("" ::"r"(h) : "memory");
            free((void*)h);
            uint8_t st[40];
            asm volatile("" ::"r"(st) : "memory");
            for (int i = 0; i < 32; i++) st[i] = (uint8_t)k[i];
            asm volatile("" ::"r"(st) : "memory");
        });
        if (!s.find(scan::st().arena, scan::st().used)) harness_error("the observer does not see released memory");
        if (!s.find_whole(Runner::get().stack, scan::kStack)) harness_error("the observer does not see the stack");
        scan::st().frees = scan::st().bytes = 0;
    }
    size_t R = ctx().thorough ? 400 : 12;
    for (size_t i = 0; i < R; i++) {
        for (int j = 0; j < 4; j++) cipher();
        prf<1>();
        prf<16>();
        prf<32>();
        prf<48>();
        prf<64>();
        prf<65>();
        prf<100>();
        prf<264>();
        mac<Hash, 16>();
        mac<Hash, 32>();
        mac<Hash, 64>();
        mac<Hash, 128>();
        mac<hash::sha512, 32>();
        mac<hash::sha512, 100>();
        prg();
        prp();
        for (auto& r : rc::kinds()) tree(r);
        for (auto& k : obj::kinds()) wrapping(k);
        tdp_elements();
        if (i % 4 == 0) tdp_private((unsigned)(i / 4 + ctx().shard));
        if (i % 8 == 0) key_generation(512 + 128 * (unsigned)rng().below(i % 32 == 0 ? 5 : 3));
    }
}
