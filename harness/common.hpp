// Shared scaffolding of all harnesses: seeded PRNG, case tracking that survives
// a crash, violation and statistics reporting, and guard-paged buffers.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>

#include <algorithm>
#include <array>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <sodium/core.h>
#include <sodium/randombytes.h>

typedef std::string Bytes;

namespace vh {

struct Ctx
{
    uint64_t    seed    = 1;
    unsigned    shard   = 0;
    unsigned    nshards = 1;
    bool        thorough = false;
    std::string out;
    std::string mode;
    bool        real_random = false;
};
inline Ctx& ctx()
{
    static Ctx& c = *new Ctx; // outlives every static destructor
    return c;
}

// ------------------------------------------------------------------ PRNG
struct Rng
{
    uint64_t s[4];
    static uint64_t sm(uint64_t& x)
    {
        uint64_t z = (x += 0x9E3779B97F4A7C15ull);
        z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    explicit Rng(uint64_t seed)
    {
        for (auto& x : s) {
            x = sm(seed);
        }
    }
    static uint64_t rotl(uint64_t x, int k)
    {
        return (x << k) | (x >> (64 - k));
    }
    uint64_t next()
    {
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = rotl(s[3], 45);
        return r;
    }
    uint64_t below(uint64_t n)
    {
        return n == 0 ? 0 : next() % n;
    }
    uint64_t range(uint64_t a, uint64_t b) // inclusive
    {
        return (b - a == UINT64_MAX) ? next() : a + next() % (b - a + 1);
    }
    bool chance(unsigned num, unsigned den)
    {
        return below(den) < num;
    }
    void fill(void* p, size_t n)
    {
        uint8_t* q = static_cast<uint8_t*>(p);
        while (n >= 8) {
            uint64_t v = next();
            memcpy(q, &v, 8);
            q += 8;
            n -= 8;
        }
        if (n != 0) {
            uint64_t v = next();
            memcpy(q, &v, n);
        }
    }
    Bytes bytes(size_t n)
    {
        Bytes b(n, 0);
        if (n != 0) {
            fill(&b[0], n);
        }
        return b;
    }
    // content classes: random, all-equal, counting, sparse
    Bytes content(size_t n)
    {
        Bytes b(n, 0);
        switch (below(6)) {
        case 0: return b;
        case 1: return Bytes(n, char(0xff));
        case 2:
            for (size_t i = 0; i < n; i++) {
                b[i] = char(i);
            }
            return b;
        case 3:
            if (n != 0) {
                b[below(n)] = char(1u << below(8));
            }
            return b;
        default: return bytes(n);
        }
    }
};
inline Rng& rng()
{
    static Rng r(0);
    return r;
}
// library-side randomness, deterministic for replay
inline Rng& librng()
{
    static Rng r(0);
    return r;
}

// ----------------------------------------------------- crash-proof case note
inline char*& case_buf()
{
    static char* p = nullptr;
    return p;
}
constexpr size_t kCaseLen = 4096;
typedef char  Noted[200];
inline Noted* noted()
{
    static Noted v[3];
    return v;
}
inline int& samples()
{
    static int n = 0;
    return n;
}
inline void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char* fmt, ...)
{
    if (case_buf() == nullptr) {
        return;
    }
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(case_buf(), kCaseLen - 1, fmt, ap);
    va_end(ap);
    // keep a few cases as examples of what was run
    static unsigned long n = 0;
    n++;
    if (n == 4 || n == 60 || n == 900) {
        snprintf(noted()[n == 4 ? 0 : n == 60 ? 1 : 2], 200, "%.190s", case_buf());
    }
}
inline std::string cur_case()
{
    return case_buf() == nullptr ? std::string() : std::string(case_buf());
}

// -------------------------------------------------------------- reporting
inline std::map<std::string, uint64_t>& stats()
{
    static auto& m = *new std::map<std::string, uint64_t>;
    return m;
}
inline void tally(const char* k, uint64_t n = 1)
{
    stats()[k] += n;
}
inline uint64_t& evals()
{
    static uint64_t e = 0;
    return e;
}
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const uint8_t* q = static_cast<const uint8_t*>(p);
    for (size_t i = 0; i < n; i++) {
        h = (h ^ q[i]) * 1099511628211ull;
    }
    return h;
}
inline std::unordered_set<uint64_t>& distinct_set()
{
    static auto& s = *new std::unordered_set<uint64_t>;
    return s;
}
// one evaluation of the oracle; `key` identifies the (non-trivial) case
inline void seen(const std::string& key)
{
    evals()++;
    if (distinct_set().size() < 2000000) {
        distinct_set().insert(fnv(key.data(), key.size()));
    }
}
inline void seenf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void seenf(const char* fmt, ...)
{
    char    b[512];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    seen(std::string(b, std::min<size_t>(n < 0 ? 0 : n, sizeof b - 1)));
}
inline std::string hex(const void* p, size_t n, size_t lim = 80)
{
    static const char* d = "0123456789abcdef";
    std::string        o;
    const uint8_t*     q = static_cast<const uint8_t*>(p);
    for (size_t i = 0; i < n && i < lim; i++) {
        o += d[q[i] >> 4];
        o += d[q[i] & 15];
    }
    if (n > lim) {
        o += "...(" + std::to_string(n) + ")";
    }
    return o;
}
inline std::string hex(const Bytes& b, size_t lim = 80)
{
    return hex(b.data(), b.size(), lim);
}
inline unsigned& nviol()
{
    static unsigned n = 0;
    return n;
}
inline void finish();
inline void viol(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
inline void viol(const char* key, const char* fmt, ...)
{
    char    b[3000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    for (char* c = b; *c != 0; c++) {
        if (*c == '\n') {
            *c = ' ';
        }
    }
    printf("VIOL %s %s [case: %s]\n", key, b, cur_case().c_str());
    fflush(stdout);
    if (++nviol() >= 12) {
        finish();
        fflush(stdout);
        _exit(1);
    }
}
inline void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void sample(const char* fmt, ...)
{
    if (samples()++ >= 3) {
        return;
    }
    va_list ap;
    va_start(ap, fmt);
    printf("SAMPLE ");
    vprintf(fmt, ap);
    printf("\n");
    va_end(ap);
}
#define CHECK_EQ_BYTES(key, got, want)                                         \
    do {                                                                       \
        const Bytes g_(got), w_(want);                                         \
        if (g_ != w_) {                                                        \
            vh::viol(key, "got %s want %s", vh::hex(g_).c_str(),               \
                     vh::hex(w_).c_str());                                     \
        }                                                                      \
    } while (0)
#define EXPECT(key, cond)                                                      \
    do {                                                                       \
        if (!(cond)) {                                                         \
            vh::viol(key, "condition failed: %s", #cond);                      \
        }                                                                      \
    } while (0)

[[noreturn]] inline void harness_error(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vfprintf(stderr, fmt, ap);
    va_end(ap);
    fprintf(stderr, "\n");
    fflush(stderr);
    fflush(stdout);
    _exit(97);
}

inline void finish()
{
    printf("STAT evals=%llu\n", (unsigned long long)evals());
    for (auto& kv : stats()) {
        printf("STAT %s=%llu\n", kv.first.c_str(), (unsigned long long)kv.second);
    }
    if (!ctx().out.empty()) {
        FILE* f = fopen((ctx().out + ".hash").c_str(), "wb");
        if (f != nullptr) {
            for (uint64_t h : distinct_set()) {
                fwrite(&h, 8, 1, f);
            }
            fclose(f);
        }
    }
    for (int i = 0; i < 3 && samples() == 0; i++) {
        if (noted()[i][0] != 0) {
            printf("SAMPLE %s\n", noted()[i]);
        }
    }
    printf("DONE\n");
    fflush(stdout);
}

// ------------------------------------------------------- exceptions as values
enum Outcome
{
    OK,
    INVALID_ARG,
    OUT_OF_RANGE,
    RUNTIME,
    BAD_ALLOC,
    LOGIC,
    OTHER
};
template<class F>
Outcome outcome(F&& f, std::string* what = nullptr)
{
    try {
        f();
        return OK;
    } catch (const std::invalid_argument& e) {
        if (what) *what = e.what();
        return INVALID_ARG;
    } catch (const std::out_of_range& e) {
        if (what) *what = e.what();
        return OUT_OF_RANGE;
    } catch (const std::bad_alloc& e) {
        if (what) *what = e.what();
        return BAD_ALLOC;
    } catch (const std::logic_error& e) {
        if (what) *what = e.what();
        return LOGIC;
    } catch (const std::runtime_error& e) {
        if (what) *what = e.what();
        return RUNTIME;
    } catch (const std::exception& e) {
        if (what) *what = e.what();
        return OTHER;
    } catch (...) {
        return OTHER;
    }
}
template<class F>
bool throws(F&& f)
{
    return outcome(std::forward<F>(f)) != OK;
}
inline const char* oname(Outcome o)
{
    static const char* n[] = {"no exception", "invalid_argument", "out_of_range", "runtime_error", "bad_alloc", "logic_error", "other exception"};
    return n[o];
}
// run f, report any exception as a violation
template<class F>
bool must(const char* key, F&& f)
{
    std::string w;
    Outcome     o = outcome(std::forward<F>(f), &w);
    if (o != OK) {
        viol(key, "unexpected %s: %s", oname(o), w.c_str());
        return false;
    }
    return true;
}

// ------------------------------------------------ exact buffers with guards
// A buffer which ends exactly at an inaccessible page (and, unless aligned,
// is preceded by canary bytes).
struct Guard
{
    uint8_t* map = nullptr;
    size_t   maplen = 0, len = 0;
    uint8_t* p = nullptr;
    explicit Guard(size_t n)
    {
        const size_t pg = 4096;
        size_t       body = ((n + 64 + pg - 1) / pg) * pg;
        maplen            = body + 2 * pg;
        map = static_cast<uint8_t*>(mmap(nullptr, maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (map == MAP_FAILED) {
            harness_error("mmap failed");
        }
        mprotect(map, pg, PROT_NONE);
        mprotect(map + pg + body, pg, PROT_NONE);
        p   = map + pg + body - n;
        len = n;
        memset(map + pg, 0xA5, body);
    }
    Guard(const Guard&) = delete;
    Guard(const Bytes& b) : Guard(b.size())
    {
        if (!b.empty()) {
            memcpy(p, b.data(), b.size());
        }
    }
    ~Guard()
    {
        munmap(map, maplen);
    }
    void ro()
    {
        mprotect(map + 4096, maplen - 8192, PROT_READ);
    }
    void rw()
    {
        mprotect(map + 4096, maplen - 8192, PROT_READ | PROT_WRITE);
    }
    bool front_ok() const
    {
        for (const uint8_t* q = map + 4096; q < p; q++) {
            if (*q != 0xA5) {
                return false;
            }
        }
        return true;
    }
    Bytes str() const
    {
        return Bytes(reinterpret_cast<char*>(p), len);
    }
    uint8_t* data()
    {
        return p;
    }
};

template<size_t N>
std::array<uint8_t, N> to_arr(const Bytes& b)
{
    std::array<uint8_t, N> a;
    if (b.size() != N) {
        harness_error("to_arr: size");
    }
    memcpy(a.data(), b.data(), N);
    return a;
}
template<class A>
Bytes from_arr(const A& a)
{
    return Bytes(reinterpret_cast<const char*>(a.data()), a.size());
}
inline const uint8_t* U(const Bytes& b)
{
    return reinterpret_cast<const uint8_t*>(b.data());
}

// lengths which matter, 0..dense contiguous then boundaries, then random
inline std::vector<size_t> lengths(size_t dense, size_t maxlen, unsigned nrandom, size_t first = 0)
{
    std::vector<size_t> v;
    for (size_t i = first; i <= dense; i++) {
        v.push_back(i);
    }
    for (size_t p2 = 64; p2 <= maxlen; p2 *= 2) {
        for (long d : {-17, -16, -15, -1, 0, 1, 15, 16, 17}) {
            long x = (long)p2 + d;
            if (x > (long)dense && x <= (long)maxlen) {
                v.push_back((size_t)x);
            }
        }
    }
    for (unsigned i = 0; i < nrandom; i++) {
        v.push_back(rng().range(first, maxlen));
    }
    return v;
}
// round-robin distribution of an enumeration over the shards
inline bool mine(uint64_t i)
{
    return i % ctx().nshards == ctx().shard;
}

// ------------------------------------------- deterministic library randomness
inline const char* rb_name()
{
    return "vh-deterministic";
}
inline uint32_t rb_random()
{
    return (uint32_t)librng().next();
}
inline void rb_stir()
{
}
inline void rb_buf(void* const b, const size_t n)
{
    librng().fill(b, n);
}
inline int rb_close()
{
    return 0;
}
inline randombytes_implementation& rb_impl()
{
    static randombytes_implementation i = {rb_name, rb_random, rb_stir, nullptr, rb_buf, rb_close};
    return i;
}

void run(); // each harness defines it

} // namespace vh

namespace sse {
namespace crypto {
void init_crypto_lib();
void cleanup_crypto_lib();
}
}

#ifndef VH_NO_MAIN
int main(int argc, char** argv)
{
    using namespace vh;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto        v = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") ctx().seed = strtoull(v().c_str(), nullptr, 10);
        else if (a == "--shard") ctx().shard = (unsigned)atoi(v().c_str());
        else if (a == "--nshards") ctx().nshards = (unsigned)atoi(v().c_str());
        else if (a == "--tier") ctx().thorough = v() == "thorough";
        else if (a == "--out") ctx().out = v();
        else if (a == "--mode") ctx().mode = v();
        else if (a == "--real-random") ctx().real_random = true;
    }
    if (!ctx().out.empty()) {
        int fd = open((ctx().out + ".case").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd >= 0 && ftruncate(fd, kCaseLen) == 0) {
            void* m = mmap(nullptr, kCaseLen, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) {
                case_buf() = static_cast<char*>(m);
            }
        }
    }
    note("start");
    uint64_t base = ctx().seed * 1000003ull + ctx().shard * 7919ull + fnv(ctx().mode.data(), ctx().mode.size());
    rng()         = Rng(base);
    librng()      = Rng(base ^ 0x5bd1e995abcdefull);
#ifndef VH_REAL_RANDOM
    if (!ctx().real_random) {
        randombytes_set_implementation(&rb_impl());
    }
#endif
#ifndef VH_NO_INIT
    sse::crypto::init_crypto_lib();
#endif
    run();
#ifndef VH_NO_INIT
    sse::crypto::cleanup_crypto_lib();
#endif
    finish();
    return nviol() ? 1 : 0;
}
#endif
