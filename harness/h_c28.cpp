// C28: the library can be started, stopped and started again; the permutation
// is refused where the processor (as libsodium reports it) cannot run it.
#define VH_NO_INIT
#include "objects.hpp"
#include "sse/crypto/utils.hpp"
#include <sodium.h>
using namespace vh;
using namespace obj;
extern "C" {
int __real_sodium_init(void);
int __real_sodium_runtime_has_aesni(void);
int __real_sodium_runtime_has_neon(void);
static int g_init_fails, g_no_aes, g_asked;
int __wrap_sodium_init(void)
{
    if (g_init_fails) return -1;
    return __real_sodium_init();
}
int __wrap_sodium_runtime_has_aesni(void)
{
    g_asked++;
    return g_no_aes ? 0 : __real_sodium_runtime_has_aesni();
}
int __wrap_sodium_runtime_has_neon(void)
{
    return g_no_aes ? 0 : __real_sodium_runtime_has_neon();
}
}
struct Live
{
    const Kind*          k;
    Bytes                secret;
    std::unique_ptr<Obj> o;
    unsigned             born;
};
static std::vector<Kind>& kinds_()
{
    static std::vector<Kind> v = [] {
        std::vector<Kind> r = kinds();
        r.push_back(tdp_kind());
        return r;
    }();
    return v;
}
static bool is_prp(const Kind& k)
{
    return k.name == "Prp";
}
static Live birth(unsigned epoch, bool want_prp)
{
    Live l;
    for (;;) {
        l.k = &kinds_()[rng().below(kinds_().size())];
        if (l.k->slow && !rng().chance(1, 6)) continue;
        if (want_prp && !is_prp(*l.k) && !rng().chance(1, 20)) continue;
        if (!want_prp && is_prp(*l.k)) continue;
        break;
    }
    l.secret = secret_for(*l.k);
    note("make %s secret=%s", l.k->name.c_str(), hex(l.secret, 48).c_str());
    must("make-throws", [&] { l.o = l.k->make(l.secret, nullptr); });
    l.born = epoch;
    return l;
}
static void works(Live& l, unsigned epoch)
{
    if (!l.o) return;
    Bytes want, x = probe_for(*l.k, l.secret, &want), got;
    note("%s born in period %u, used in period %u", l.k->name.c_str(), l.born, epoch);
    if (must("use-throws", [&] { got = l.o->probe(x); }) && got != want)
        viol("other-result", "%s born in period %u gives another result in period %u: %s want %s", l.k->name.c_str(), l.born, epoch, hex(got, 60).c_str(), hex(want, 60).c_str());
    tally("uses");
    if (l.born != epoch) tally("uses_of_older_objects");
    seenf("%s/%u", l.k->name.c_str(), epoch - l.born);
}
template<class F>
static void refused(const char* what, F f)
{
    if (!throws(f)) viol("not-refused", "%s is done although the processor cannot run the permutation", what);
    tally("refused");
}
// what a permutation does on a processor without the instructions
static void no_aes(std::vector<Live>& live, Prp* old)
{
    EXPECT("available", !Prp::is_available());
    refused("Prp()", [] { Prp p; });
    Bytes s = rng().bytes(48);
    refused("Prp(key)", [&] { Prp p(K<48>(s)); });
    if (old) {
        Prp&        p = *old;
        std::string in = rng().bytes(1 + rng().below(100)), out = "untouched";
        refused("encrypt(string,string)", [&] { p.encrypt(in, out); });
        refused("decrypt(string,string)", [&] { p.decrypt(in, out); });
        if (out != "untouched") viol("written", "a refused call wrote %s", hex(out).c_str());
        refused("encrypt(string)", [&] { (void)p.encrypt(in); });
        refused("decrypt(string)", [&] { (void)p.decrypt(in); });
        refused("encrypt(32)", [&] { (void)p.encrypt(uint32_t(5)); });
        refused("decrypt(32)", [&] { (void)p.decrypt(uint32_t(5)); });
        refused("encrypt_64", [&] { (void)p.encrypt_64(5); });
        refused("decrypt_64", [&] { (void)p.decrypt_64(5); });
        Bytes       wkey = rng().bytes(32);
        Wrapper     w    = rc::wrapper(wkey);
        refused("wrap", [&] { (void)w.wrap(p); });
        // an authentic blob of a permutation
        GoldenPrp     g(s);
        orc::WrapKeys wk(wkey);
        for (const Kind& k : kinds_())
            if (is_prp(k)) {
                Bytes                b = wk.seal(rng().bytes(16), k.type, k.context, Bytes((char*)&g.c, sizeof g.c));
                std::vector<uint8_t> v(b.begin(), b.end());
                refused("unwrap", [&] { (void)w.unwrap<Prp>(v); });
                if (Bytes(v.begin(), v.end()) != b) viol("blob-changed", "a refused blob was changed");
            }
    }
    for (Live& l : live)
        if (l.o && !is_prp(*l.k) && rng().chance(1, 3)) works(l, l.born + 1);
}
void vh::run()
{
    fill_rsa_pool(1);
    // before the library is started
    note("before initialisation");
    EXPECT("available-early", !Prp::is_available());
    {
        if (!throws([] { Prp p; })) viol("early", "a permutation was made before the library was initialised");
        tally("early");
    }
    if (rng().chance(1, 2)) {
        note("clean-up before initialisation");
        must("cleanup-throws", [] { cleanup_crypto_lib(); });
    }
    std::vector<Live>    live;
    std::unique_ptr<Prp> prp;
    Bytes                psecret;
    bool                 up = false, aes = false;
    unsigned             epoch = 0;
    const size_t         steps = ctx().thorough ? 4000 : 400;
    for (size_t i = 0; i < steps; i++) {
        switch (rng().below(8)) {
        case 0: // start (again, perhaps while running)
        case 1: {
#ifdef VH_PPKE
            if (up) break; // the pairing library is started once
#endif
            g_no_aes     = rng().chance(1, 4);
            g_init_fails = rng().chance(1, 8);
            note("init (epoch %u, %s%s)", epoch, g_no_aes ? "no AES" : "AES", g_init_fails ? ", fails" : "");
            std::string why;
            Outcome     o = outcome([] { init_crypto_lib(); }, &why);
            if (g_init_fails) {
                if (o == OK) viol("init-failure", "a failed start of libsodium was not reported");
                g_init_fails = 0;
                tally("failed_starts");
                up = false;
#ifdef VH_PPKE
                cleanup_crypto_lib();
#endif
                break;
            }
            if (o != OK) viol("init-throws", "%s: %s", oname(o), why.c_str());
            up  = true;
            aes = !g_no_aes && (__real_sodium_runtime_has_aesni() == 1 || __real_sodium_runtime_has_neon() == 1);
            if (Prp::is_available() != aes) viol("available", "available: %d, the processor: %d", (int)Prp::is_available(), (int)aes);
            epoch++;
            tally("starts");
            break;
        }
        case 2:
            note("cleanup (epoch %u)", epoch);
            must("cleanup-throws", [] { cleanup_crypto_lib(); });
            if (rng().chance(1, 5)) must("cleanup-throws", [] { cleanup_crypto_lib(); });
            up = false;
            tally("stops");
            break;
        default: break;
        }
        if (!up) continue;
        if (!aes) {
            no_aes(live, prp.get());
            tally("periods_without_aes");
            continue;
        }
        if (!prp) {
            psecret = rng().bytes(48);
            note("make Prp");
            must("make-throws", [&] { prp.reset(new Prp(K<48>(psecret))); });
        } else {
            Bytes x = rng().bytes(1 + rng().below(64)), y;
            if (must("use-throws", [&] { y = prp->encrypt(x); }) && y != GoldenPrp(psecret).enc(x)) viol("other-result", "the permutation gives another result after a restart");
            tally("permutations");
        }
        if (live.size() < 24) live.push_back(birth(epoch, rng().chance(1, 4)));
        for (int k = 0; k < 3; k++) works(live[rng().below(live.size())], epoch);
        if (live.size() > 8 && rng().chance(1, 3)) {
            size_t j = rng().below(live.size());
            std::swap(live[j], live.back());
            live.pop_back();
        }
    }
    if (!up) {
        g_no_aes = 0;
        must("init-throws", [] { init_crypto_lib(); });
        aes = Prp::is_available();
        epoch++;
    }
    // what libsodium takes for misuse; libsodium cannot be started again after
    // it (it keeps its own lock), so this comes last
    for (int i = 0; i < 5; i++) {
        note("misuse");
        bool caught = false;
        try {
            sodium_misuse();
        } catch (const std::exception&) {
            caught = true;
        }
        if (!caught) viol("misuse", "misuse of libsodium is not reported as an exception");
        tally("misuses");
        for (Live& l : live)
            if (aes || !is_prp(*l.k)) works(l, epoch);
    }
    live.clear();
    prp.reset();
    must("cleanup-throws", [] { cleanup_crypto_lib(); });
}
