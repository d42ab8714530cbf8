// Long inputs and long lives. VH_HUGE is set for one stage of a check.
#pragma once
#include "common.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <cstdio>
namespace vh {
inline bool heavy()
{
    return getenv("VH_HUGE") != nullptr;
}
// run heavy item `i` on one shard only
inline bool heavy_here(unsigned i)
{
    return heavy() && mine(i);
}
// lengths around and beyond what 16, 20 and 24 bits hold
inline std::vector<size_t> big_lengths(bool thorough)
{
    std::vector<size_t> v = {65535, 65536, 65537, 65552, 65600, 69999, 131071, 131072, 131073, 196608, (1u << 20) - 1, 1u << 20, (1u << 20) + 1, (1u << 20) + 65, (3u << 20) + 7, (1u << 24) + 13};
    for (int i = 0; i < 6; i++) v.push_back(65537 + rng().below(300000));
    if (thorough) {
        for (int i = 0; i < 40; i++) v.push_back(65537 + rng().below(3000000));
        v.push_back((1u << 26) + 5);
    }
    return v;
}
inline unsigned available_gb()
{
    FILE*         f = fopen("/proc/meminfo", "r");
    char          l[200];
    unsigned long kb = 0;
    while (f && fgets(l, sizeof l, f)) {
        if (sscanf(l, "MemAvailable: %lu", &kb) == 1) break;
    }
    if (f) fclose(f);
    return (unsigned)(kb >> 20);
}
// a read-only buffer of n bytes, more than 4 GiB, in little memory: the same
// 16 MiB over and over, then `tail` at the very end
struct Repeated
{
    static constexpr size_t kUnit = 16u << 20;
    uint8_t* base = nullptr;
    const uint8_t* p = nullptr;
    size_t   n = 0, total = 0;
    Repeated(size_t len, const Bytes& tail, int fill = -1)
    {
        n          = len;
        size_t k   = (len + kUnit - 1) / kUnit;
        total      = k * kUnit;
        int fd = memfd_create("vh", 0), fe = memfd_create("vt", 0);
        if (fd < 0 || fe < 0 || ftruncate(fd, kUnit) || ftruncate(fe, kUnit)) harness_error("memfd");
        base = (uint8_t*)mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED) harness_error("mmap");
        Bytes u = fill < 0 ? rng().bytes(kUnit) : Bytes(kUnit, (char)fill);
        put(fd, u);
        u.replace(kUnit - tail.size(), tail.size(), tail);
        put(fe, u);
        for (size_t i = 0; i < k; i++) {
            if (mmap(base + i * kUnit, kUnit, PROT_READ, MAP_SHARED | MAP_FIXED, i + 1 == k ? fe : fd, 0) == MAP_FAILED) harness_error("mmap");
        }
        close(fd), close(fe);
        p = base + (total - len);
    }
    ~Repeated()
    {
        munmap(base, total);
    }
    static void put(int fd, const Bytes& b)
    {
        for (size_t o = 0; o < b.size();) {
            ssize_t w = write(fd, b.data() + o, b.size() - o);
            if (w <= 0) harness_error("write");
            o += (size_t)w;
        }
    }
};
// a long text that can be made again piece by piece
struct Pattern
{
    Bytes unit = rng().bytes((1u << 20) + 7);
    void  fill(uint8_t* p, size_t n) const
    {
        for (size_t o = 0; o < n; o += unit.size()) memcpy(p + o, unit.data(), std::min(unit.size(), n - o));
    }
    // does p hold the bytes [at, at+n) of the text?
    bool is(const uint8_t* p, size_t at, size_t n) const
    {
        while (n > 0) {
            size_t o = at % unit.size(), k = std::min(n, unit.size() - o);
            if (memcmp(p, unit.data() + o, k) != 0) return false;
            p += k, at += k, n -= k;
        }
        return true;
    }
};
inline size_t giant()
{
    return (1ull << 32) + 1 + rng().below(300);
}
} // namespace vh
