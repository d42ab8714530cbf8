// Observer of ordinary memory: interposes the allocator (glibc), keeps what
// every released block contained, and runs operations on a stack of its own, so
// that a monitor can look for secrets an operation left behind. Not for use
// with sanitizers (they have their own allocator).
#pragma once
#include "common.hpp"
#include <cerrno>
#include <malloc.h>
#include <ucontext.h>
#include <link.h>
#include <sys/auxv.h>

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_memalign(size_t, size_t);
void  __libc_free(void*);
}
namespace scan {
struct Rec
{
    void*  p;
    size_t n;
};
constexpr size_t kSlots = 1 << 16, kArena = 96u << 20;
struct State
{
    bool     watching = false;
    Rec      tab[kSlots]; // live blocks allocated while watching
    size_t   live    = 0;
    uint8_t* arena   = nullptr; // contents of the blocks released while watching
    size_t   used    = 0;
    size_t   blocks = 0, frees = 0, bytes = 0;
    bool     overflow = false;
};
inline State& st()
{
    static State s;
    return s;
}
inline size_t slot(void* p)
{
    uint64_t x = (uint64_t)(uintptr_t)p >> 4;
    return (size_t)(x * 0x9E3779B97F4A7C15ull >> 48) & (kSlots - 1);
}
inline void* born(void* p, size_t n)
{
    State& s = st();
    if (s.watching && p) {
        if (s.live * 2 >= kSlots) s.overflow = true;
        else {
            size_t i = slot(p);
            while (s.tab[i].p && s.tab[i].p != p && s.tab[i].p != (void*)1) i = (i + 1) & (kSlots - 1);
            s.tab[i] = Rec{p, n};
            s.live++;
            s.blocks++;
        }
    }
    return p;
}
inline void dies(void* p)
{
    State& s = st();
    if (!p) return;
    size_t n = malloc_usable_size(p);
    if (s.watching) {
        for (size_t i = slot(p); s.tab[i].p; i = (i + 1) & (kSlots - 1))
            if (s.tab[i].p == p) {
                s.tab[i].p = (void*)1;
                s.live--;
                break;
            }
        if (s.used + n <= kArena) {
            memcpy(s.arena + s.used, p, n);
            s.used += n;
        } else
            s.overflow = true;
        s.frees++;
        s.bytes += n;
    }
    // never let an old content come back in a new block
    memset(p, 0, n);
    asm volatile("" ::"r"(p) : "memory");
    __libc_free(p);
}
// ------------------------------------------------------------- secrets
// kept masked, so that the registry itself never matches
struct Win
{
    uint64_t a, b; // 16 bytes, masked
    int      name;
};
constexpr uint64_t kMask = 0xA5C3F00F5A3C9669ull;
struct Secrets
{
    std::vector<Win>         w;
    std::vector<std::string> names;
    uint8_t                  filter[8192]; // of the first 8 bytes
    Secrets()
    {
        memset(filter, 0, sizeof filter);
    }
    static uint32_t h(uint64_t x)
    {
        return (uint32_t)(x * 0x9E3779B97F4A7C15ull >> 48);
    }
    // windows of 16 bytes, every 8 bytes
    void add(const std::string& name, const Bytes& s)
    {
        names.push_back(name);
        for (size_t o = 0; o + 16 <= s.size(); o += 8) {
            uint64_t x, y;
            memcpy(&x, s.data() + o, 8);
            memcpy(&y, s.data() + o + 8, 8);
            if (x == 0 || y == 0 || x == ~0ull) continue; // not characteristic
            w.push_back(Win{x ^ kMask, y ^ kMask, (int)names.size() - 1});
            uint32_t k = h(x ^ kMask);
            filter[(k & 0xffff) >> 3] |= (uint8_t)(1 << (k & 7));
        }
    }
    // a key and the two forms the MAC uses it in
    void key(const std::string& name, const Bytes& s)
    {
        add(name, s);
        Bytes i = s, o = s;
        for (auto& c : i) c = (char)(c ^ 0x36);
        for (auto& c : o) c = (char)(c ^ 0x5c);
        add(name + " (inner pad)", i);
        add(name + " (outer pad)", o);
    }
    // name of the first secret which occurs in the region, or null
    const std::string* find(const uint8_t* p, size_t n, size_t* at = nullptr) const
    {
        if (n < 16) return nullptr;
        for (size_t i = 0; i + 16 <= n; i++) {
            uint64_t x;
            memcpy(&x, p + i, 8);
            if (x == 0) continue;
            x ^= kMask;
            uint32_t k = h(x);
            if (!(filter[(k & 0xffff) >> 3] & (1 << (k & 7)))) continue;
            uint64_t y;
            memcpy(&y, p + i + 8, 8);
            y ^= kMask;
            for (auto& q : w)
                if (q.a == x && q.b == y) {
                    if (at) *at = i;
                    return &names[(size_t)q.name];
                }
        }
        return nullptr;
    }
    // whole 32-byte (or longer) secrets only: contiguous windows
    const std::string* find_whole(const uint8_t* p, size_t n, size_t* at = nullptr) const
    {
        size_t o = 0;
        while (o + 32 <= n) {
            size_t             i = 0;
            const std::string* s = find(p + o, n - o - 16, &i);
            if (!s) return nullptr;
            o += i;
            const std::string* t = find(p + o + 16, 16);
            if (t == s) {
                if (at) *at = o;
                return s;
            }
            o++;
        }
        return nullptr;
    }
};
// ------------------------- static and thread-local variables of the program
struct Statics
{
    std::vector<std::pair<uint8_t*, size_t>> v; // of the main thread
    static int cb(dl_phdr_info* i, size_t, void* p)
    {
        Statics& s = *static_cast<Statics*>(p);
        if (i->dlpi_name && i->dlpi_name[0]) return 0; // libraries have their own secrets; the code under test is in the program
        for (int k = 0; k < i->dlpi_phnum; k++) {
            auto& h = i->dlpi_phdr[k];
            if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) s.add((uint8_t*)(i->dlpi_addr + h.p_vaddr), h.p_memsz);
            if (h.p_type == PT_TLS && i->dlpi_tls_data && h.p_memsz) s.add((uint8_t*)i->dlpi_tls_data, h.p_memsz);
        }
        return 0;
    }
    // without the observer's own tables, and without what is no longer writable (relro)
    void add(uint8_t* p, size_t n)
    {
        uint8_t *a = (uint8_t*)&st(), *b = a + sizeof(State);
        if (a >= p && b <= p + n) {
            add(p, (size_t)(a - p));
            add(b, (size_t)(p + n - b));
            return;
        }
        if (n) v.emplace_back(p, n);
    }
    static Statics& get()
    {
        static Statics* s = nullptr;
        if (!s) {
            s = new Statics;
            dl_iterate_phdr(cb, s);
        }
        return *s;
    }
};
// ------------------------------------------- operations on a watched stack
constexpr size_t kStack = 1 << 20;
struct Runner
{
    uint8_t*                     stack;
    ucontext_t                   me, it;
    const std::function<void()>* f;
    vh::Outcome                  out;
    Runner()
    {
        stack = (uint8_t*)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        st().arena = (uint8_t*)mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (getenv("LD_BIND_NOW") == nullptr) vh::harness_error("LD_BIND_NOW is not set"); // lazy binding saves registers
        if (stack == MAP_FAILED || st().arena == MAP_FAILED) vh::harness_error("mmap");
    }
    static Runner& get()
    {
        static Runner* r = new Runner;
        return *r;
    }
    // keeps the operation's frames away from what runs after it
    __attribute__((noinline)) static void deeper(const std::function<void()>& g)
    {
        volatile char pad[16384];
        pad[0] = pad[sizeof pad - 1] = 0;
        g();
        asm volatile("" ::"r"(&pad[0]) : "memory");
    }
    static void entry()
    {
        Runner& r = get();
        State&  s = st();
        try {
            s.watching = true;
            deeper(*r.f);
            s.watching = false;
            r.out      = vh::OK;
        } catch (const std::invalid_argument&) {
            s.watching = false;
            r.out      = vh::INVALID_ARG;
        } catch (const std::out_of_range&) {
            s.watching = false;
            r.out      = vh::OUT_OF_RANGE;
        } catch (const std::runtime_error&) {
            s.watching = false;
            r.out      = vh::RUNTIME;
        } catch (const std::bad_alloc&) {
            s.watching = false;
            r.out      = vh::BAD_ALLOC;
        } catch (...) {
            s.watching = false;
            r.out      = vh::OTHER;
        }
    }
    // the monitor's own computations leave secrets in vector registers, which
    // may be saved on the stack later: clear them
    __attribute__((noinline)) static void clear_vectors()
    {
        if (__builtin_cpu_supports("avx512f"))
            asm volatile(".irp n,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31\n vpxorq %%zmm\\n,%%zmm\\n,%%zmm\\n\n.endr" ::: "memory");
        if (__builtin_cpu_supports("avx")) asm volatile("vzeroall" ::: "memory");
        else
            asm volatile(".irp n,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15\n pxor %%xmm\\n,%%xmm\\n\n.endr" ::: "memory");
    }
    vh::Outcome run(const std::function<void()>& g)
    {
        State& s = st();
        memset(s.tab, 0, sizeof s.tab);
        s.live = s.used = 0;
        memset(stack, 0, kStack);
        f = &g;
        getcontext(&it);
        it.uc_stack.ss_sp   = stack;
        it.uc_stack.ss_size = kStack;
        it.uc_link          = &me;
        makecontext(&it, entry, 0);
        clear_vectors();
        swapcontext(&me, &it);
        return out;
    }
};
} // namespace scan

extern "C" {
void* malloc(size_t n) noexcept
{
    return scan::born(__libc_malloc(n), n);
}
void* calloc(size_t c, size_t n) noexcept
{
    return scan::born(__libc_calloc(c, n), c * n);
}
void free(void* p) noexcept
{
    scan::dies(p);
}
void* realloc(void* p, size_t n) noexcept
{
    if (!p) return malloc(n);
    if (n == 0) {
        free(p);
        return nullptr;
    }
    void* q = malloc(n);
    if (q) {
        size_t o = malloc_usable_size(p);
        memcpy(q, p, o < n ? o : n);
        free(p);
    }
    return q;
}
void* memalign(size_t a, size_t n) noexcept
{
    return scan::born(__libc_memalign(a, n), n);
}
void* aligned_alloc(size_t a, size_t n) noexcept
{
    return memalign(a, n);
}
int scan_posix_memalign(void** o, size_t a, size_t n) noexcept __asm__("posix_memalign");
int scan_posix_memalign(void** o, size_t a, size_t n) noexcept
{
    void* p = memalign(a, n);
    if (!p) return ENOMEM;
    *o = p;
    return 0;
}
}
