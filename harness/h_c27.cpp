// C27: a failed allocation is reported, and nothing is lost or wrong after it.
// Every allocation (operator new, malloc/calloc/realloc of the library's C
// files, protected memory) made while an operation runs is numbered; the
// operation is repeated with the k-th one failing. The monitor demands: the
// operation throws / returns an error, or returns the right result; no live
// secure block is accessible; the same operation on the same objects then
// gives the right result; and when the objects are gone, so is all the memory
// allocated meanwhile.
#include "mpi.hpp"
#include "objects.hpp"
#include "secobs.hpp"
#include <sse/crypto/hash.hpp>
#include <sse/crypto/hmac.hpp>
#include <sse/crypto/random.hpp>
#include <sse/crypto/set_hash.hpp>
#include <sse/crypto/utils.hpp>
#include "hash/sha512.hpp"
extern "C" {
#include "mbedtls/pem.h"
#include "mbedtls/rsa.h"
#include "mbedtls/rsa_io.h"
#include "mbedtls/base64.h"
}
using namespace sse::crypto;

// ------------------------------------------------------------- the allocators
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void  __real_free(void*);
}
namespace al {
struct Ent
{
    void*    p;
    uint64_t ord;
};
static const size_t kTab = 1u << 18;
static Ent*         tab;
static size_t       nlive;
static bool         on;           // count, track
static uint64_t     count, armed; // armed: the (armed)-th allocation fails
static bool         hit;
static uint64_t     by_new, by_c, by_sec, hit_new, hit_c, hit_sec;
static size_t       slot(void* p)
{
    return (size_t)(((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 46) & (kTab - 1);
}
static void track(void* p, uint64_t ord)
{
    if (p == nullptr || !on || sec::st().quiet) return;
    if (nlive > kTab / 2) harness_error("too many live blocks");
    for (size_t i = slot(p);; i = (i + 1) & (kTab - 1)) {
        if (tab[i].p == nullptr) {
            tab[i] = Ent{p, ord};
            nlive++;
            return;
        }
    }
}
static void untrack(void* p)
{
    if (p == nullptr || nlive == 0) return;
    size_t i = slot(p);
    for (; tab[i].p != p; i = (i + 1) & (kTab - 1)) {
        if (tab[i].p == nullptr) return;
    }
    nlive--;
    size_t j = i;
    for (;;) { // close the gap
        tab[i].p = nullptr;
        for (;;) {
            j = (j + 1) & (kTab - 1);
            if (tab[j].p == nullptr) return;
            size_t h = slot(tab[j].p);
            if (i <= j ? (i < h && h <= j) : (i < h || h <= j)) continue;
            break;
        }
        tab[i] = tab[j];
        i      = j;
    }
}
// one allocation is about to be made: must it fail?
static bool fails(uint64_t* kind, uint64_t* kind_hit)
{
    if (!on || sec::st().quiet) return false;
    count++;
    (*kind)++;
    if (armed != 0 && count == armed) {
        hit = true;
        (*kind_hit)++;
        return true;
    }
    return false;
}
static bool sec_hook()
{
    return fails(&by_sec, &hit_sec);
}
// changes of protection are numbered apart
static uint64_t pcount, parmed, hit_lock, hit_unlock;
static bool     phit, plock;
static void*    pblock; // what could not be locked
static bool     prot_hook(void* p, bool lock)
{
    if (!on || sec::st().quiet) return false;
    pcount++;
    if (parmed != 0 && pcount == parmed) {
        phit   = true;
        plock  = lock;
        pblock = lock ? p : nullptr;
        (lock ? hit_lock : hit_unlock)++;
        return true;
    }
    return false;
}
static uint64_t lost() // ordinal of the oldest block still alive
{
    uint64_t m = ~0ull;
    for (size_t i = 0; i < kTab; i++) {
        if (tab[i].p != nullptr) m = std::min(m, tab[i].ord);
    }
    return m;
}
} // namespace al
extern "C" {
void* __wrap_malloc(size_t n)
{
    if (al::fails(&al::by_c, &al::hit_c)) return nullptr;
    void* p = __real_malloc(n);
    al::track(p, al::count);
    return p;
}
void* __wrap_calloc(size_t a, size_t b)
{
    if (al::fails(&al::by_c, &al::hit_c)) return nullptr;
    void* p = __real_calloc(a, b);
    al::track(p, al::count);
    return p;
}
void* __wrap_realloc(void* o, size_t n)
{
    if (al::fails(&al::by_c, &al::hit_c)) return nullptr;
    al::untrack(o);
    void* p = __real_realloc(o, n);
    al::track(p, al::count);
    return p;
}
void __wrap_free(void* p)
{
    al::untrack(p);
    __real_free(p);
}
}
static void* do_new(size_t n)
{
    if (al::fails(&al::by_new, &al::hit_new)) return nullptr;
    void* p = __real_malloc(n ? n : 1);
    al::track(p, al::count);
    return p;
}
void* operator new(size_t n)
{
    void* p = do_new(n);
    if (p == nullptr) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n)
{
    return operator new(n);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    return do_new(n);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept
{
    return do_new(n);
}
static void do_delete(void* p)
{
    al::untrack(p);
    __real_free(p);
}
void operator delete(void* p) noexcept
{
    do_delete(p);
}
void operator delete[](void* p) noexcept
{
    do_delete(p);
}
void operator delete(void* p, size_t) noexcept
{
    do_delete(p);
}
void operator delete[](void* p, size_t) noexcept
{
    do_delete(p);
}

// ----------------------------------------------------------------- the monitor
// The result of an operation, kept outside of the heap: operations append to it
// what they give.
struct Res
{
    size_t   n = 0;
    uint64_t h = 1469598103934665603ull;
    void     put(const void* p, size_t len)
    {
        h = fnv(&len, sizeof len, h);
        h = fnv(p, len, h);
        n++;
    }
    void put(const std::string& s)
    {
        put(s.data(), s.size());
    }
    template<size_t N>
    void put(const std::array<uint8_t, N>& a)
    {
        put(a.data(), N);
    }
    void put(const std::vector<uint8_t>& v)
    {
        put(v.data(), v.size());
    }
    bool operator!=(const Res& o) const
    {
        return n != o.n || h != o.h;
    }
};
struct Failed : std::runtime_error // an error code of a C function
{
    Failed() : std::runtime_error("error code")
    {
    }
};
static void ok(int ret)
{
    if (ret < 0) throw Failed();
}
static sec::Maps& maps()
{
    static sec::Maps* m = new sec::Maps;
    return *m;
}
static bool told; // the operation itself received an exception which it expects
static bool all_locked(void* but = nullptr)
{
#ifdef ENABLE_MEMORY_LOCK
    if (sec::st().live.empty()) return true;
    maps().read();
    for (auto& kv : sec::st().live) {
        sec::Prot p = maps().at(kv.first);
        if (p.known && (p.r || p.w) && kv.first != but) return false;
        tally("protections_read");
    }
#endif
    return true;
}
static void fresh_random(uint64_t x)
{
    librng() = Rng(x);
}
static std::vector<std::string>* g_names = nullptr;

// P: () -> State (by unique_ptr); O: (State&, Res&). The operation is repeated
// on the same objects after a failure, and after a success if `again` is set.
// pure: the protected blocks held by the state hold keys at rest.
template<class P, class O>
static void go(const char* name, P prepare, O op, bool again = true, uint64_t cap = 0, bool stable = true)
{
    static uint64_t nth = 0;
    if (!mine(nth++)) return;
    if (cap == 0) cap = ctx().thorough ? 100000 : 400;
    else if (ctx().thorough) cap *= 12;
    note("%s, no fault", name);
    const uint64_t R = ctx().seed * 77777 + nth;
    Res            want;
    uint64_t       N = 0, NP = 0;
    size_t         l0;
    for (int i = 0; i < 3; i++) { // the first time warms whatever is made once
        al::nlive = 0;
        memset(al::tab, 0, sizeof(al::Ent) * al::kTab);
        size_t s0 = sec::st().live.size();
        Res    r;
        {
            fresh_random(R);
            al::on  = true;
            auto st = prepare();
            fresh_random(R + 1);
            al::count = al::pcount = 0;
            op(*st, r);
            N  = al::count;
            NP = al::pcount;
            st.reset();
            al::on = false;
        }
        if (i > 0 && al::nlive != 0)
            viol("lost-memory", "%s: %zu blocks are lost without any fault (the oldest: allocation %llu)", name, al::nlive, (unsigned long long)al::lost());
        if (sec::st().live.size() != s0 && i > 0) viol("lost-secure-memory", "%s: a secure block is lost without any fault", name);
        if (i == 0) want = r;
        else if (want != r) {
            if (stable) harness_error(name);
            want = r;
        }
    }
    if (N == 0) {
        tally("operations_without_allocation");
        seenf("%s/none", name);
    }
    // (k, false): allocation k fails; (k, true): change of protection k fails
    std::vector<std::pair<uint64_t, bool>> ks;
    auto                                   choose = [&](uint64_t n, bool prot) {
        if (n <= cap) {
            for (uint64_t k = 1; k <= n; k++) ks.emplace_back(k, prot);
            return;
        }
        uint64_t edge = cap / 3;
        size_t   from = ks.size();
        for (uint64_t k = 1; k <= edge; k++) ks.emplace_back(k, prot);
        for (uint64_t k = n - edge + 1; k <= n; k++) ks.emplace_back(k, prot);
        while (ks.size() - from < cap) ks.emplace_back(1 + rng().below(n), prot);
        tally("operations_sampled");
    };
    choose(N, false);
    choose(NP, true);
    tally("operations");
    for (auto kp : ks) {
        const uint64_t k    = kp.first;
        const bool     prot = kp.second;
        note("%s, %s %llu of %llu fails", name, prot ? "change of protection" : "allocation", (unsigned long long)k, (unsigned long long)(prot ? NP : N));
        size_t s0 = sec::st().live.size();
        memset(al::tab, 0, sizeof(al::Ent) * al::kTab);
        al::nlive = 0;
        bool thrown = false, alien = false, locked = true, retried = false, refail = false;
        Res  r, r2;
        {
            fresh_random(R);
            al::on  = true;
            auto st = prepare();
            fresh_random(R + 1);
            al::count = al::pcount = 0;
            al::hit = al::phit = false;
            al::pblock         = nullptr;
            told               = false;
            (prot ? al::parmed : al::armed) = k;
            try {
                op(*st, r);
            } catch (const std::exception&) {
                thrown = true;
            } catch (...) {
                alien = true;
            }
            al::armed = al::parmed = 0;
            al::on    = false; // the monitor's own memory
            // a key whose own locking was refused may stay accessible, but only when the caller is told
            locked    = all_locked(thrown || alien || told ? al::pblock : nullptr);
            al::on    = true;
            if (thrown || alien || again) {
                retried = true;
                fresh_random(R + 1);
                try {
                    op(*st, r2);
                } catch (const std::exception&) {
                    refail = true;
                }
                if (prot) {
                    al::on = false;
                    locked = locked && all_locked();
                    al::on = true;
                }
            }
            st.reset();
            al::on = false;
        }
        l0 = al::nlive;
        if (!(prot ? al::phit : al::hit)) {
            if (stable) harness_error(name); // fewer allocations than before
            continue;
        }
        if (alien) viol("strange-exception", "%s: what was thrown is not a std::exception", name);
        if (!thrown && !alien && r != want) viol("wrong-result", "%s: returned a wrong result", name);
        if (!locked) viol("unlocked", "%s: key memory is accessible after the failure", name);
        if (refail) viol("retry-fails", "%s: the operation keeps failing on the same objects", name);
        else if (retried && r2 != want) viol("retry-wrong", "%s: repeated on the same objects, the operation gives a wrong result", name);
        if (l0 != 0) viol("lost-memory", "%s: %zu blocks are lost (the oldest: allocation %llu)", name, l0, (unsigned long long)al::lost());
        if (sec::st().live.size() != s0) viol("lost-secure-memory", "%s: %zu secure blocks are lost", name, sec::st().live.size() - s0);
        tally(prot ? "protection_faults" : "faults");
        tally(thrown ? "reported" : "survived");
        if (retried) tally("retries");
        seenf("%s/%s%llu", name, prot ? "p" : "", (unsigned long long)k);
    }
    if (g_names) g_names->push_back(name);
    sample("%s: %llu allocations and %llu changes of protection, %zu failed one at a time", name, (unsigned long long)N, (unsigned long long)NP, ks.size());
}
struct None
{
};
static std::unique_ptr<None> none()
{
    return std::unique_ptr<None>(new None);
}
template<class T>
static std::unique_ptr<T> box(T&& t)
{
    return std::unique_ptr<T>(new T(std::move(t)));
}
static Bytes kb(unsigned i, size_t n)
{
    Bytes b(n, 0);
    Rng   r(i * 131 + n + ctx().seed * 7);
    r.fill(&b[0], n);
    return b;
}
template<size_t N>
static Key<N> key(unsigned i = 1)
{
    uint8_t b[N];
    Rng     r(i * 131 + N + ctx().seed * 7);
    r.fill(b, N);
    return Key<N>(b);
}

// --------------------------------------------------------------- symmetric part
static void symmetric()
{
    go("Key<32>()", none, [](None&, Res& r) { Prf<16> p{Key<32>()}; r.put(p.prf("x")); });
    go("Key<32>(bytes)", none, [](None&, Res& r) { Prf<16> p{key<32>()}; r.put(p.prf("x")); });
    go("Key move-assign", [] { return box(key<32>(1)); }, [](Key<32>& k, Res& r) {
        Key<32> n(key<32>(2));
        k = std::move(n);
        r.put("moved");
    });
    for (size_t len : {(size_t)0, (size_t)1, (size_t)40, (size_t)1000}) {
        std::string m = kb(3, len);
        go(("HMac<Hash,32> " + std::to_string(len)).c_str(), [] { return box(HMac<Hash, 32>(key<32>())); }, [&](HMac<Hash, 32>& h, Res& r) {
            r.put(h.hmac(m));
            uint8_t o[20];
            h.hmac(U(m), m.size(), o, 20);
            r.put(o, 20);
        });
        go(("HMac<Hash,200> " + std::to_string(len)).c_str(), [] { return box(HMac<Hash, 200>(key<200>())); }, [&](HMac<Hash, 200>& h, Res& r) { r.put(h.hmac(m)); });
        go(("Hash " + std::to_string(len)).c_str(), none, [&](None&, Res& r) {
            std::string o("old");
            Hash::hash(m, o);
            r.put(o);
            r.put(Hash::hash(m));
            r.put(Hash::hash(m, 17));
            Hash::hash(m, 33, o);
            r.put(o);
        });
        go(("Prf<12> " + std::to_string(len)).c_str(), [] { return box(Prf<12>(key<32>())); }, [&](Prf<12>& p, Res& r) {
            r.put(p.prf(m));
            r.put(p.prf(U(m), m.size()));
        });
        go(("Prf<100> " + std::to_string(len)).c_str(), [] { return box(Prf<100>(key<32>())); }, [&](Prf<100>& p, Res& r) { r.put(p.prf(m)); });
        go(("Prf<16>::derive_key " + std::to_string(len)).c_str(), [] { return box(Prf<32>(key<32>())); }, [&](Prf<32>& p, Res& r) {
            Prf<16> q(p.derive_key(m));
            r.put(q.prf("x"));
        });
        go(("Prf<200>::derive_key " + std::to_string(len)).c_str(), [] { return box(Prf<200>(key<32>())); }, [&](Prf<200>& p, Res& r) {
            HMac<Hash, 200> q(p.derive_key(m));
            r.put(q.hmac("x"));
        });
        go(("Prg " + std::to_string(len)).c_str(), [] { return box(Prg(key<32>())); }, [&](Prg& p, Res& r) {
            r.put(p.derive(len));
            r.put(p.derive(5, len));
            std::string o("before");
            p.derive(63, len + 1, o);
            r.put(o);
            uint8_t b[70];
            p.derive(7, 70, b);
            r.put(b, 70);
        });
        go(("Prg static " + std::to_string(len)).c_str(), none, [&](None&, Res& r) {
            r.put(Prg::derive(key<32>(), len));
            r.put(Prg::derive(key<32>(), 70, len));
            std::string o;
            Prg::derive(key<32>(), len, o);
            r.put(o);
            uint8_t b[70];
            Prg::derive(key<32>(), 3, 70, b);
            r.put(b, 70);
        });
        if (len >= 1) {
            go(("Cipher::encrypt " + std::to_string(len)).c_str(), [] { return box(Cipher(key<32>())); }, [&](Cipher& c, Res& r) {
            std::string o("old"), d;
            c.encrypt(m, o);
            r.put(o);
            c.decrypt(o, d);
            r.put(d);
        });
            go(("Prp " + std::to_string(len)).c_str(), [] { return box(Prp(key<48>())); }, [&](Prp& p, Res& r) {
                std::string c = p.encrypt(m), o("zz");
                r.put(c);
                r.put(p.decrypt(c));
                p.encrypt(m, o);
                r.put(o);
                p.decrypt(m, o);
                r.put(o);
                r.put(std::to_string(p.encrypt_64(77)));
            });
        }
    }
    go("Cipher::decrypt (forged)", [] { return box(Cipher(key<32>())); }, [&](Cipher& c, Res& r) {
        std::string d;
        bool        refused = false;
        std::string m(100, 'x');
        try {
            c.decrypt(m, d);
        } catch (const std::runtime_error&) {
            refused = told = true;
        }
        if (!refused) r.put("accepted");
        else r.put(d);
    });
    go("Prg::derive_key", [] { return box(Prg(key<32>())); }, [](Prg& p, Res& r) {
        Prf<16> q(p.derive_key<32>(3));
        r.put(q.prf("x"));
        Prf<16> s(Prg::derive_key<32>(key<32>(4), 5));
        r.put(s.prf("x"));
    });
    go("Prg::derive_keys", [] { return box(Prg(key<32>())); }, [](Prg& p, Res& r) {
        auto v = p.derive_keys<32>(7, 3);
        for (auto& k : v) {
            Prf<16> q(std::move(k));
            r.put(q.prf("x"));
        }
        auto w = Prg::derive_keys<48>(key<32>(4), 5, 1);
        for (auto& k : w) {
            Prp q(std::move(k));
            r.put(q.encrypt("abcd"));
        }
    });
    go("Prp()", none, [](None&, Res& r) { Prp p; r.put(p.encrypt("abcdef")); });
    go("Prp(key)", none, [](None&, Res& r) { Prp p(key<48>()); r.put(p.encrypt("abcdef")); });
    go("Cipher(key)", none, [](None&, Res& r) { Cipher p(key<32>()); std::string o; p.encrypt("abcdef", o); r.put(o); });
    go("Wrapper(key)", none, [](None&, Res& r) {
        Wrapper w(key<32>());
        r.put(w.wrap(Prg(key<32>())));
    });
    go("random_string", none, [](None&, Res& r) {
        r.put(random_string(100));
        r.put(random_bytes<uint8_t, 33>());
    });
}

// ----------------------------------------------------------- wrapping every kind
struct Wr
{
    Wrapper                   w;
    std::unique_ptr<obj::Obj> o;
    std::vector<uint8_t>      blob;
    Wr() : w(key<32>(9))
    {
    }
};
static void wrapping()
{
    static const Bytes probe = kb(5, 40);
    for (auto& k : obj::kinds()) {
        Bytes s = obj::secret_for(k), sealed = k.name == "Cipher" ? orc::cipher_encrypt(s, kb(6, 16), "hello") : Bytes();
        go(("make " + k.name).c_str(), none, [&](None&, Res& r) {
            auto o = k.make(s, nullptr);
            Wrapper w(key<32>(9));
            r.put(o->wrap(w));
        }, true, 200);
        auto prep = [&] {
            std::unique_ptr<Wr> x(new Wr);
            x->o        = k.make(s, nullptr);
            Bytes b     = x->o->wrap(x->w);
            x->blob.assign(b.begin(), b.end());
            return x;
        };
        go(("wrap " + k.name).c_str(), prep, [&](Wr& x, Res& r) { r.put(x.o->wrap(x.w)); }, true, 200);
        go(("unwrap " + k.name).c_str(), prep, [&](Wr& x, Res& r) {
            std::vector<uint8_t> b(x.blob); // a successful unwrapping consumes it
            auto                 o = k.unwrap(x.w, b);
            if (k.name != "Cipher") r.put(o->probe(probe));
            else {
                r.put(o->wrap(x.w));
                r.put(o->probe(sealed));
            }
        }, true, 200);
        go(("unwrap (forged) " + k.name).c_str(), prep, [&](Wr& x, Res& r) {
            std::vector<uint8_t> b(x.blob);
            b[b.size() / 2] ^= 1;
            bool refused = false;
            try {
                auto o = k.unwrap(x.w, b);
            } catch (const std::runtime_error&) {
                refused = told = true;
            } catch (const std::invalid_argument&) {
                refused = told = true;
            }
            r.put(refused ? "refused" : "accepted");
        }, true, 100);
        go(("use " + k.name).c_str(), prep, [&](Wr& x, Res& r) {
            if (k.name != "Cipher") r.put(x.o->probe(probe));
            else r.put("-");
        }, true, 200);
    }
}

// --------------------------------------------------------------------- tree PRFs
template<uint16_t N>
static void trees()
{
    for (unsigned h : {2u, 3u, 6u, 20u, 64u}) {
        uint64_t    L  = (1ull << (h - 1)) - 1;
        std::string nm = "RCPrf<" + std::to_string(N) + "> h=" + std::to_string(h);
        typedef RCPrf<N>            Mas;
        typedef ConstrainedRCPrf<N> Con;
        auto mas = [&] { return std::unique_ptr<Mas>(new Mas(key<32>(), (uint8_t)h)); };
        uint64_t a = L / 3, b = L - L / 5;
        if (a == 0 && b == L) b = L - 1;
        if (a > b) a = b;
        auto con = [&, a, b] {
            auto m = mas();
            return std::unique_ptr<Con>(new Con(m->constrain(a, b)));
        };
        go((nm + " ctor").c_str(), none, [&](None&, Res& r) { Mas m(key<32>(), (uint8_t)h); r.put(m.eval(0)); });
        go((nm + " eval").c_str(), mas, [&](Mas& m, Res& r) { r.put(m.eval(a)); r.put(m.eval(L)); });
        go((nm + " eval_range").c_str(), mas, [&](Mas& m, Res& r) {
            m.eval_range(a, std::min(b, a + 9), [&](uint64_t i, std::array<uint8_t, N> v) { r.put(&i, 8); r.put(v); });
        });
        go((nm + " constrain").c_str(), mas, [&](Mas& m, Res& r) { Con c(m.constrain(a, b)); r.put(c.eval(a)); r.put(c.eval(b)); });
        go((nm + " constrained eval").c_str(), con, [&](Con& c, Res& r) { r.put(c.eval(a)); r.put(c.eval(b)); });
        go((nm + " constrained eval_range").c_str(), con, [&](Con& c, Res& r) {
            c.eval_range(a, std::min(b, a + 9), [&](uint64_t i, std::array<uint8_t, N> v) { r.put(&i, 8); r.put(v); });
        });
        go((nm + " constrained twice").c_str(), con, [&](Con& c, Res& r) {
            uint64_t x = a + (b - a) / 7, y = b - (b - a) / 3;
            if (x == a && y == b && a != b) x = a + 1;
            Con d(c.constrain(x, y));
            r.put(d.eval(x));
            r.put(d.eval(y));
        });
        go((nm + " constrained move").c_str(), con, [&](Con& c, Res& r) {
            Con d(std::move(c));
            c = std::move(d);
            r.put(c.eval(a));
        });
    }
}

// ---------------------------------------------------------------------- set hash
static void sets()
{
    auto three = [] {
        std::unique_ptr<SetHash> s(new SetHash);
        s->add_element("a");
        s->add_element("b");
        s->add_element("a");
        return s;
    };
    go("SetHash list", none, [](None&, Res& r) {
        std::vector<std::string> v{"one", "two", std::string(300, 'x'), ""};
        SetHash                  s(v);
        r.put(s.data());
    });
    go("SetHash import", three, [](SetHash& s, Res& r) { SetHash t(s.data()); r.put(t.data()); });
    // not idempotent: repeated only when the first attempt failed
    go("SetHash add_element", three, [](SetHash& s, Res& r) { s.add_element(std::string(200, 'q')); r.put(s.data()); }, false);
    go("SetHash remove_element", three, [](SetHash& s, Res& r) { s.remove_element(std::string(200, 'q')); r.put(s.data()); }, false);
    go("SetHash add_set", three, [](SetHash& s, Res& r) { SetHash t(s); s.add_set(t); r.put(s.data()); }, false);
    go("SetHash remove_set", three, [](SetHash& s, Res& r) { SetHash t; t.add_element("b"); s.remove_set(t); r.put(s.data()); }, false);
}

// ---------------------------------------------------------- trapdoor permutations
struct Inv
{
    TdpInverse t;
    Prf<Tdp::kRSAPrfSize> f;
    explicit Inv(const std::string& sk) : t(sk), f(key<32>(3))
    {
    }
};
struct Pub
{
    Tdp t, u;
    Prf<Tdp::kRSAPrfSize> f;
    Pub(const std::string& a, const std::string& b) : t(a), u(b), f(key<32>(3))
    {
    }
};
struct Pools
{
    TdpMultPool t, u;
    Pools(const std::string& a, const std::string& b) : t(a, 5), u(b, 3)
    {
    }
};
static void tdps()
{
    obj::fill_rsa_pool(2);
    const orc::Rsa &k1 = obj::rsa_pool()[0], &k2 = obj::rsa_pool()[1];
    const std::string pub1 = k1.pem_pub(), pub2 = k2.pem_pub(), sk1 = k1.pem_priv();
    const std::string m = std::string(8, 0) + kb(1, 248);
    std::array<uint8_t, 256> ma = to_arr<256>(m);
    const uint64_t c = 90;
    go("Tdp ctor", none, [&](None&, Res& r) { Tdp t(pub1); r.put(t.eval(m)); }, true, c);
    auto pub = [&] { return std::unique_ptr<Pub>(new Pub(pub1, pub2)); };
    go("Tdp eval", pub, [&](Pub& p, Res& r) { r.put(p.t.eval(m)); r.put(p.t.eval(ma)); std::string o("x"); p.t.eval(m, o); r.put(o); }, true, c);
    go("Tdp eval again", [&] { auto p = pub(); p->t.eval(m); return p; }, [&](Pub& p, Res& r) { r.put(p.t.eval(m)); }, true, c);
    go("Tdp public_key", pub, [&](Pub& p, Res& r) { r.put(p.t.public_key()); }, true, c);
    go("Tdp sample", pub, [&](Pub& p, Res& r) { r.put(p.t.sample()); r.put(p.t.sample_array()); }, true, c);
    go("Tdp generate", pub, [&](Pub& p, Res& r) {
        r.put(p.t.generate(p.f, "seed"));
        r.put(p.t.generate_array(p.f, "seed"));
        r.put(p.t.generate(key<32>(3), "seed"));
    }, true, c);
    go("Tdp copy", pub, [&](Pub& p, Res& r) { Tdp v(p.t); r.put(v.eval(m)); }, true, c);
    // after a failed assignment, the object holds the old key or the new one
    go("Tdp assign", pub, [&](Pub& p, Res& r) {
        p.u = p.t;
        r.put(p.u.eval(m));
        r.put(p.u.public_key());
    }, true, c);
    go("Tdp keeps its key in a failed assignment", pub, [&](Pub& p, Res& r) {
        bool f = false;
        try {
            p.u = p.t;
        } catch (const std::exception&) {
            f = told = true;
        }
        std::string k = p.u.public_key();
        if (!f && k == pub1) k = pub2; // succeeded
        r.put(k);
    }, true, 200);

    auto pools = [&] { return std::unique_ptr<Pools>(new Pools(pub1, pub2)); };
    go("TdpMultPool ctor", none, [&](None&, Res& r) { TdpMultPool t(pub1, 4); r.put(t.eval(m, 3)); }, true, c);
    go("TdpMultPool eval", pools, [&](Pools& p, Res& r) {
        for (uint8_t o : {1, 2, 5}) {
            r.put(p.t.eval(m, o));
            r.put(p.t.eval(ma, o));
        }
        r.put(p.t.eval(m));
    }, true, c);
    go("TdpMultPool eval again", [&] { auto p = pools(); p->t.eval(m, 3); p->t.eval(m); return p; }, [&](Pools& p, Res& r) { r.put(p.t.eval(m, 3)); r.put(p.t.eval(m)); }, true, c);
    go("TdpMultPool copy", pools, [&](Pools& p, Res& r) { TdpMultPool v(p.t); r.put(v.eval(m, 5)); }, true, c);
    go("TdpMultPool copy of a used one", [&] { auto p = pools(); p->t.eval(m, 3); return p; }, [&](Pools& p, Res& r) { TdpMultPool v(p.t); r.put(v.eval(m, 3)); }, true, c);
    go("TdpMultPool assign", pools, [&](Pools& p, Res& r) {
        p.u = p.t;
        r.put(p.u.eval(m, 5));
        r.put(p.u.public_key());
    }, true, c);
    go("TdpMultPool other", pools, [&](Pools& p, Res& r) {
        r.put(p.t.public_key());
        r.put(p.t.sample());
        r.put(p.t.generate(key<32>(3), "seed"));
    }, true, c);

    auto inv = [&] { return std::unique_ptr<Inv>(new Inv(sk1)); };
    auto used = [&] { auto p = inv(); p->t.invert(m); p->t.invert_mult(m, 2); return p; };
    go("TdpInverse ctor", none, [&](None&, Res& r) { TdpInverse t(sk1); r.put(t.invert(m)); }, true, c);
    go("TdpInverse invert, first", inv, [&](Inv& p, Res& r) { r.put(p.t.invert(m)); }, true, 150);
    go("TdpInverse invert, later", used, [&](Inv& p, Res& r) { r.put(p.t.invert(m)); }, true, 150);
    go("TdpInverse invert array", used, [&](Inv& p, Res& r) { r.put(p.t.invert(ma)); }, true, c);
    go("TdpInverse invert_mult", inv, [&](Inv& p, Res& r) { r.put(p.t.invert_mult(m, 9)); r.put(p.t.invert_mult(ma, 1)); }, true, c);
    go("TdpInverse invert_mult, later", used, [&](Inv& p, Res& r) { r.put(p.t.invert_mult(m, 9)); }, true, c);
    go("TdpInverse keys", inv, [&](Inv& p, Res& r) { r.put(p.t.public_key()); r.put(p.t.private_key()); }, true, c);
    go("TdpInverse eval", inv, [&](Inv& p, Res& r) { r.put(p.t.eval(m)); r.put(p.t.eval(ma)); r.put(p.t.sample()); r.put(p.t.generate(p.f, "seed")); }, true, c);
    struct W
    {
        Wrapper              w;
        TdpInverse           t;
        std::vector<uint8_t> b;
        explicit W(const std::string& s) : w(key<32>(8)), t(s), b(w.wrap(t))
        {
        }
    };
    auto wr = [&] { return std::unique_ptr<W>(new W(sk1)); };
    go("TdpInverse wrap", wr, [&](W& x, Res& r) { r.put(x.w.wrap(x.t)); }, true, c);
    go("TdpInverse unwrap", wr, [&](W& x, Res& r) { std::vector<uint8_t> b(x.b); TdpInverse t(x.w.unwrap<TdpInverse>(b)); r.put(t.invert(m)); }, true, c);
    // key generation: the outcome is any valid pair
    go("TdpInverse keygen", none, [&](None&, Res& r) {
        TdpInverse t;
        r.put(t.invert(t.eval(m)) == m ? "fine" : "wrong");
    }, true, ctx().thorough ? 12 : 24);
}

// ------------------------------------------------------------------ C interfaces
struct R3 // an RSA context
{
    mbedtls_rsa_context c;
    R3()
    {
        mbedtls_rsa_init(&c, 0, 0);
    }
    R3(const R3&) = delete;
    ~R3()
    {
        mbedtls_rsa_free(&c);
    }
};
static int rngf(void*, unsigned char* p, size_t n)
{
    randombytes_buf(p, n);
    return 0;
}
static void putm(Res& r, const mbedtls_mpi& m)
{
    uint8_t b[1500];
    size_t  n = mbedtls_mpi_size(&m);
    if (n > sizeof b || mbedtls_mpi_write_binary(&m, b, n) != 0) harness_error("putm");
    int s = n == 0 ? 1 : m.s;
    r.put(&s, sizeof s);
    r.put(b, n);
}
static void putr(Res& r, const mbedtls_rsa_context& c)
{
    for (const mbedtls_mpi* m : {&c.N, &c.E, &c.D, &c.P, &c.Q, &c.DP, &c.DQ, &c.QP}) putm(r, *m);
    r.put(&c.len, sizeof c.len);
}
struct Nums
{
    M a, b, n, x, y;
};
static void numbers()
{
    for (unsigned bits : {60u, 500u, 2048u}) {
        Z A, B, N;
        A = Z::be(kb(bits, bits / 8));
        B = Z::be(kb(bits + 1, bits / 16 + 1));
        Bytes nb = kb(bits + 2, bits / 8);
        nb.back() |= 1;
        nb[0] |= 0x40;
        N = Z::be(nb);
        auto prep = [&] {
            std::unique_ptr<Nums> p(new Nums);
            load(p->a, A, 0);
            load(p->b, B, 0);
            load(p->n, N, 0);
            return p;
        };
        auto one = [&](const char* nm, void (*f)(Nums&)) {
            go((std::string("mpi ") + nm + " " + std::to_string(bits)).c_str(), prep, [&](Nums& p, Res& r) {
                f(p);
                putm(r, p.x.v);
                putm(r, p.y.v);
            }, true, 120);
        };
        one("add", [](Nums& p) { ok(mbedtls_mpi_add_mpi(p.x, p.a, p.b)); });
        one("sub", [](Nums& p) { ok(mbedtls_mpi_sub_mpi(p.x, p.b, p.a)); });
        one("mul", [](Nums& p) { ok(mbedtls_mpi_mul_mpi(p.x, p.a, p.b)); });
        one("mul_int", [](Nums& p) { ok(mbedtls_mpi_mul_int(p.x, p.a, 77777)); });
        one("div", [](Nums& p) { ok(mbedtls_mpi_div_mpi(p.x, p.y, p.a, p.b)); });
        one("mod", [](Nums& p) { ok(mbedtls_mpi_mod_mpi(p.x, p.a, p.n)); });
        one("exp_mod", [](Nums& p) { ok(mbedtls_mpi_exp_mod(p.x, p.a, p.b, p.n, nullptr)); });
        one("exp_mod cached", [](Nums& p) { mbedtls_mpi_free(p.y); ok(mbedtls_mpi_exp_mod(p.x, p.a, p.b, p.n, p.y)); });
        one("inv_mod", [](Nums& p) { ok(mbedtls_mpi_lset(p.y, 65537)); ok(mbedtls_mpi_inv_mod(p.x, p.y, p.n)); });
        one("gcd", [](Nums& p) { ok(mbedtls_mpi_gcd(p.x, p.a, p.b)); });
        one("shift", [](Nums& p) { ok(mbedtls_mpi_copy(p.x, p.a)); ok(mbedtls_mpi_shift_l(p.x, 300)); ok(mbedtls_mpi_shift_r(p.x, 31)); });
        one("lset", [](Nums& p) { ok(mbedtls_mpi_lset(p.x, -5)); ok(mbedtls_mpi_set_bit(p.x, 400, 1)); });
        one("add_int", [](Nums& p) { ok(mbedtls_mpi_add_int(p.x, p.a, 99)); ok(mbedtls_mpi_sub_int(p.y, p.a, 99)); });
        one("cond", [](Nums& p) { ok(mbedtls_mpi_safe_cond_assign(p.x, p.a, 1)); ok(mbedtls_mpi_copy(p.y, p.b)); ok(mbedtls_mpi_safe_cond_swap(p.x, p.y, 1)); });
        one("text", [](Nums& p) {
            char   t[6000];
            size_t n = 0;
            ok(mbedtls_mpi_write_string(p.a, 10, t, sizeof t, &n));
            ok(mbedtls_mpi_read_string(p.x, 10, t));
            ok(mbedtls_mpi_write_string(p.b, 16, t, sizeof t, &n));
            ok(mbedtls_mpi_read_string(p.y, 16, t));
        });
        one("in place", [](Nums& p) {
            ok(mbedtls_mpi_copy(p.x, p.a));
            ok(mbedtls_mpi_mul_mpi(p.x, p.x, p.x));
            ok(mbedtls_mpi_mod_mpi(p.x, p.x, p.n));
            ok(mbedtls_mpi_sub_mpi(p.x, p.x, p.n));
            ok(mbedtls_mpi_add_abs(p.x, p.b, p.x));
        });
        one("random", [](Nums& p) { ok(mbedtls_mpi_fill_random(p.x, 77, rngf, nullptr)); ok(mbedtls_mpi_shrink(p.x, 1)); ok(mbedtls_mpi_grow(p.x, 40)); });
    }
    // a prime stays prime, a composite stays composite, or an error is returned
    for (unsigned bits : {64u, 128u, 256u}) {
        Bytes nb = kb(bits + 2, bits / 8);
        Z     q;
        q = Z::be(nb);
        mpz_nextprime(q.v, q.v);
        Z c;
        mpz_mul(c.v, q.v, q.v);
        for (bool prime : {true, false}) {
            go((std::string(prime ? "is_prime " : "is_prime of a composite ") + std::to_string(bits)).c_str(),
               [&] { std::unique_ptr<Nums> p(new Nums); load(p->a, prime ? q : c, 0); return p; },
               [&](Nums& p, Res& r) {
                   int x = mbedtls_mpi_is_prime(p.a, rngf, nullptr);
                   if (x != 0 && x != MBEDTLS_ERR_MPI_NOT_ACCEPTABLE) throw Failed();
                   r.put(x == 0 ? "prime" : "composite");
               }, true, 200);
        }
        go(("gen_prime " + std::to_string(bits)).c_str(), [] { return std::unique_ptr<Nums>(new Nums); },
           [&](Nums& p, Res& r) { ok(mbedtls_mpi_gen_prime(p.x, bits, 0, rngf, nullptr)); putm(r, p.x.v); }, true, 150);
    }
}
static void rsa()
{
    for (unsigned bits : {256u, 1024u}) {
        orc::Rsa    k  = orc::make_rsa(rng(), bits, orc::exponent(bits == 256 ? 0 : 3));
        std::string pp = k.pem_pub(), sp = k.pem_priv(), s8 = k.pem_pkcs8();
        std::string b  = " rsa" + std::to_string(bits);
        auto        ctxp = [] { return std::unique_ptr<R3>(new R3); };
        auto        full = [&] {
            std::unique_ptr<R3> r(new R3);
            if (mbedtls_rsa_parse_key(&r->c, (const unsigned char*)sp.c_str(), sp.size() + 1, nullptr, 0) != 0) harness_error("parse");
            return r;
        };
        // a parse that failed must leave a context which can be parsed into again
        auto parse = [&](const char* nm, const std::string& t, bool priv) {
            go((nm + b).c_str(), ctxp, [&](R3& x, Res& r) {
                mbedtls_rsa_free(&x.c);
                mbedtls_rsa_init(&x.c, 0, 0);
                ok(priv ? mbedtls_rsa_parse_key(&x.c, (const unsigned char*)t.data(), t.size(), nullptr, 0)
                        : mbedtls_rsa_parse_public_key(&x.c, (const unsigned char*)t.data(), t.size()));
                putr(r, x.c);
            }, true, 200);
        };
        parse("parse private", sp + std::string(1, 0), true);
        parse("parse PKCS8", s8 + std::string(1, 0), true);
        parse("parse public", pp + std::string(1, 0), false);
        go(("write" + b).c_str(), full, [&](R3& x, Res& r) {
            unsigned char o[6000];
            for (auto f : {mbedtls_rsa_write_pubkey_der, mbedtls_rsa_write_key_der}) {
                memset(o, 0, sizeof o);
                int n = f(&x.c, o, sizeof o);
                ok(n);
                r.put(o, sizeof o);
            }
            for (auto f : {mbedtls_rsa_write_pubkey_pem, mbedtls_rsa_write_key_pem}) {
                memset(o, 0, sizeof o);
                ok(f(&x.c, o, sizeof o));
                r.put(o, strlen((char*)o));
            }
        }, true, 200);
        go(("rsa_copy" + b).c_str(), full, [&](R3& x, Res& r) { R3 y; ok(mbedtls_rsa_copy(&y.c, &x.c)); putr(r, y.c); }, true, 200);
        go(("rsa_check" + b).c_str(), full, [&](R3& x, Res& r) { ok(mbedtls_rsa_check_pubkey(&x.c)); ok(mbedtls_rsa_check_privkey(&x.c)); ok(mbedtls_rsa_check_pub_priv(&x.c, &x.c)); r.put("good"); }, true, 300);
        go(("rsa_public" + b).c_str(), full, [&](R3& x, Res& r) {
            std::array<uint8_t, 128> in{}, out{};
            in[x.c.len - 1] = 77;
            ok(mbedtls_rsa_public(&x.c, in.data(), out.data()));
            r.put(out);
        }, true, 200);
        for (int uses : {0, 1, 3}) {
            go(("rsa_private use " + std::to_string(uses) + b).c_str(), [&] {
                auto                     x = full();
                std::array<uint8_t, 128> in{}, out{};
                in[x->c.len - 1] = 5;
                for (int i = 0; i < uses; i++) {
                    if (mbedtls_rsa_private(&x->c, rngf, nullptr, in.data(), out.data()) != 0) harness_error("private");
                }
                return x;
            }, [&](R3& x, Res& r) {
                std::array<uint8_t, 128> in{}, out{};
                in[x.c.len - 1] = 77;
                ok(mbedtls_rsa_private(&x.c, rngf, nullptr, in.data(), out.data()));
                r.put(out);
            }, true, 300);
        }
    }
    for (unsigned bits : {128u, 192u, 256u}) {
        go(("gen_key " + std::to_string(bits)).c_str(), [] { return std::unique_ptr<R3>(new R3); },
           [&](R3& x, Res& r) {
               mbedtls_rsa_free(&x.c);
               mbedtls_rsa_init(&x.c, 0, 0);
               ok(mbedtls_rsa_gen_key(&x.c, rngf, nullptr, bits, 65537));
               putr(r, x.c);
           }, true, 200);
    }
    std::string pem = orc::make_rsa(rng(), 256, orc::exponent(0)).pem_pub();
    go("pem_read_buffer", none, [&](None&, Res& r) {
        mbedtls_pem_context c;
        mbedtls_pem_init(&c);
        size_t n   = 0;
        int    ret = mbedtls_pem_read_buffer(&c, "-----BEGIN PUBLIC KEY-----", "-----END PUBLIC KEY-----", (const unsigned char*)pem.c_str(), nullptr, 0, &n);
        if (ret == 0) r.put(c.buf, c.buflen);
        mbedtls_pem_free(&c);
        ok(ret);
    });
    go("pem_write_buffer", none, [&](None&, Res& r) {
        unsigned char o[600];
        size_t        n = 0;
        Bytes         d = kb(4, 100);
        ok(mbedtls_pem_write_buffer("-----BEGIN X-----\n", "-----END X-----\n", U(d), d.size(), o, sizeof o, &n));
        r.put(o, n);
    });
}

void vh::run()
{
    sec::st();
    al::tab = (al::Ent*)__real_calloc(al::kTab, sizeof(al::Ent));
    sec::st().alloc_hook = al::sec_hook;
    sec::st().prot_hook  = al::prot_hook;
    symmetric();
    wrapping();
    trees<16>();
    trees<32>();
    sets();
    tdps();
    numbers();
    rsa();
    tally("alloc_cpp", al::by_new);
    tally("alloc_c", al::by_c);
    tally("alloc_secure", al::by_sec);
    tally("fault_cpp", al::hit_new);
    tally("fault_c", al::hit_c);
    tally("fault_secure", al::hit_sec);
    tally("fault_lock", al::hit_lock);
    tally("fault_unlock", al::hit_unlock);
}
