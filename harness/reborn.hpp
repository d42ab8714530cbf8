// Objects living one after the other at one address: a new object there has
// its own key and owes nothing to the ones before it.
#pragma once
#include "common.hpp"
namespace vh {
template<class T>
class Slot
{
    typename std::aligned_storage<sizeof(T), alignof(T)>::type mem_;
    bool                                                       live_ = false;

public:
    Slot() {}
    Slot(const Slot&) = delete;
    Slot& operator=(const Slot&) = delete;
    ~Slot()
    {
        clear();
    }
    void clear()
    {
        if (live_) {
            live_ = false;
            get().~T();
        }
    }
    template<class... Args>
    T& put(Args&&... args)
    {
        clear();
        new (static_cast<void*>(&mem_)) T(std::forward<Args>(args)...);
        live_ = true;
        return get();
    }
    T& get()
    {
        return *reinterpret_cast<T*>(&mem_);
    }
    bool live() const
    {
        return live_;
    }
};
// Walks over the combinations of a few keys and a few inputs: step(key index,
// input index, fresh) where fresh tells that the object has to be rebuilt
template<class F>
void reborn_walk(int steps, unsigned keys, unsigned inputs, F&& step)
{
    unsigned k = 0;
    for (int s = 0; s < steps; s++) {
        bool fresh = s == 0 || rng().chance(1, 2);
        if (fresh) k = (unsigned)rng().below(keys);
        step(k, (unsigned)rng().below(inputs), fresh);
        tally("reborn_steps");
    }
    tally("reborn_walks");
}
} // namespace vh
