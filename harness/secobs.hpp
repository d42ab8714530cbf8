// Observer of libsodium's guarded allocations, by link-time wrapping
// (-Wl,--wrap=...). Records every live secure block, so that a monitor can see
// contents and page protections without touching the library's private state.
#pragma once
#include "common.hpp"
#include <map>
#include <mutex>
#include <sodium/utils.h>

extern "C" {
void* __real_sodium_malloc(size_t n);
void* __real_sodium_allocarray(size_t c, size_t n);
void  __real_sodium_free(void* p);
int   __real_sodium_mprotect_noaccess(void* p);
int   __real_sodium_mprotect_readonly(void* p);
int   __real_sodium_mprotect_readwrite(void* p);
}
namespace sec {
struct Blk
{
    size_t   size;
    uint64_t serial;
};
struct State
{
    std::mutex              m;
    std::map<uint8_t*, Blk> live;
    uint64_t                serial = 0, nalloc = 0, nfree = 0, badfree = 0;
    uint64_t                n_noaccess = 0, n_readonly = 0, n_readwrite = 0;
    // fault injection
    bool     armed      = false;
    uint64_t fail_at    = 0; // n-th call fails
    uint64_t calls      = 0;
    bool     failed     = false;
    // decides whether an allocation fails
    bool (*alloc_hook)() = nullptr;
    // decides whether a change of protection fails
    bool (*prot_hook)(void* p, bool lock) = nullptr;
    bool quiet           = false; // this observer is using the heap for itself
    // called with the content of each block just before it is released
    void (*on_free)(const uint8_t*, size_t) = nullptr;
};
inline State& st()
{
    static State* s = new State;
    return *s;
}
inline uint64_t mark()
{
    return st().serial;
}
inline bool fault()
{
    State& s = st();
    if (!s.armed) {
        return false;
    }
    if (s.calls++ == s.fail_at) {
        s.failed = true;
        return true;
    }
    return false;
}
inline void* note_alloc(void* p, size_t n)
{
    if (p != nullptr) {
        State&                      s = st();
        std::lock_guard<std::mutex> g(s.m);
        s.quiet = true;
        s.live[static_cast<uint8_t*>(p)] = Blk{n, ++s.serial};
        s.quiet = false;
        s.nalloc++;
    }
    return p;
}
// protection of the page holding p, from the kernel: "r","w","-"
struct Prot
{
    bool known = false, r = false, w = false;
};
struct Maps
{
    struct R
    {
        uintptr_t a, b;
        bool      r, w;
    };
    std::vector<R> v;
    void read()
    {
        v.clear();
        FILE* f = fopen("/proc/self/maps", "r");
        if (f == nullptr) {
            vh::harness_error("no /proc/self/maps");
        }
        char l[512];
        while (fgets(l, sizeof l, f) != nullptr) {
            unsigned long a, b;
            char          p[8];
            if (sscanf(l, "%lx-%lx %7s", &a, &b, p) == 3) {
                v.push_back(R{a, b, p[0] == 'r', p[1] == 'w'});
            }
        }
        fclose(f);
    }
    Prot at(const void* q) const
    {
        uintptr_t x = (uintptr_t)q;
        Prot      p;
        for (auto& m : v) {
            if (x >= m.a && x < m.b) {
                p.known = true;
                p.r     = m.r;
                p.w     = m.w;
            }
        }
        return p;
    }
};
// content of a live block, whatever its protection; restores the protection
inline Bytes peek(uint8_t* p, size_t n)
{
    // /proc/self/mem reads through page protections, without changing them
    static int fd = open("/proc/self/mem", O_RDONLY);
    Bytes      b(n, 0);
    if (fd >= 0 && pread(fd, &b[0], n, (off_t)(uintptr_t)p) == (ssize_t)n) {
        return b;
    }
    Maps m;
    m.read();
    Prot a = m.at(p);
    if (!a.r) {
        __real_sodium_mprotect_readonly(p);
    }
    b.assign(reinterpret_cast<char*>(p), n);
    if (!a.r) {
        __real_sodium_mprotect_noaccess(p);
    }
    return b;
}
// contents of all live blocks of size n allocated since the mark
inline std::vector<Bytes> blocks_since(uint64_t mk, size_t n)
{
    std::vector<std::pair<uint64_t, uint8_t*>> c;
    for (auto& kv : st().live) {
        if (kv.second.size == n && kv.second.serial > mk) {
            c.emplace_back(kv.second.serial, kv.first);
        }
    }
    std::sort(c.begin(), c.end());
    std::vector<Bytes> o;
    for (auto& x : c) {
        o.push_back(peek(x.second, n));
    }
    return o;
}
// the reasons for which a change of protection can be refused, in turn
inline int refusal()
{
    static const int e[] = {ENOMEM, EACCES, EINVAL, EAGAIN, EPERM};
    static unsigned  n;
    return e[n++ % 5];
}
} // namespace sec

extern "C" {
void* __wrap_sodium_malloc(size_t n)
{
    if ((sec::st().alloc_hook != nullptr && sec::st().alloc_hook()) || sec::fault()) {
        errno = ENOMEM;
        return nullptr;
    }
    return sec::note_alloc(__real_sodium_malloc(n), n);
}
void* __wrap_sodium_allocarray(size_t c, size_t n)
{
    if ((sec::st().alloc_hook != nullptr && sec::st().alloc_hook()) || sec::fault()) {
        errno = ENOMEM;
        return nullptr;
    }
    return sec::note_alloc(__real_sodium_allocarray(c, n), c * n);
}
void __wrap_sodium_free(void* p)
{
    if (p != nullptr) {
        sec::State&                  s = sec::st();
        std::unique_lock<std::mutex> g(s.m);
        auto                         it = s.live.find(static_cast<uint8_t*>(p));
        if (it == s.live.end()) {
            s.badfree++;
            g.unlock();
            vh::viol("secure-double-free", "sodium_free of %p which is not a live secure block", p);
            return;
        }
        s.live.erase(it);
        s.nfree++;
    }
    __real_sodium_free(p);
}
int __wrap_sodium_mprotect_noaccess(void* p)
{
    sec::st().n_noaccess++;
    if ((sec::st().prot_hook != nullptr && sec::st().prot_hook(p, true)) || sec::fault()) {
        errno = sec::refusal();
        return -1;
    }
    return __real_sodium_mprotect_noaccess(p);
}
int __wrap_sodium_mprotect_readonly(void* p)
{
    sec::st().n_readonly++;
    if ((sec::st().prot_hook != nullptr && sec::st().prot_hook(p, false)) || sec::fault()) {
        errno = sec::refusal();
        return -1;
    }
    return __real_sodium_mprotect_readonly(p);
}
int __wrap_sodium_mprotect_readwrite(void* p)
{
    sec::st().n_readwrite++;
    if ((sec::st().prot_hook != nullptr && sec::st().prot_hook(p, false)) || sec::fault()) {
        errno = sec::refusal();
        return -1;
    }
    return __real_sodium_mprotect_readwrite(p);
}
}
