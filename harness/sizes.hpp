// compile-time size lists: run a functor template over many N
#pragma once
#include <cstddef>
#include <utility>
template<class F, size_t... N>
void each_size(F&& f, std::index_sequence<N...>)
{
    int d[] = {(f(std::integral_constant<size_t, N>()), 0)...};
    (void)d;
}
template<size_t Off, class F, size_t... N>
void each_size_off(F&& f, std::index_sequence<N...>)
{
    int d[] = {(f(std::integral_constant<size_t, N + Off>()), 0)...};
    (void)d;
}
