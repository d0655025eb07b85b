// Memory layout of nested arrays, exported to the analysis as constants:
// {leaf width in bits, is floating, number of dims, n0, stride0, n1, stride1, ...}
#pragma once
#include <array>
#include <type_traits>
namespace vf {
template <class T> struct arr_of { static constexpr bool is = false; };
template <class T, size_t N> struct arr_of<std::array<T, N>> { static constexpr bool is = true; using E = T; static constexpr size_t n = N; };
template <class T, size_t N> struct arr_of<TFHEpp::aligned_array<T, N>> { static constexpr bool is = true; using E = T; static constexpr size_t n = N; };
template <class T> constexpr void lay(std::array<unsigned long, 24> &r)
{
    if constexpr (arr_of<T>::is) {
        using E = typename arr_of<T>::E;
        auto d = r[2]++;
        r[3 + 2 * d] = arr_of<T>::n;
        r[4 + 2 * d] = sizeof(E);
        lay<E>(r);
    }
    else {
        r[0] = sizeof(T) * 8;
        r[1] = std::is_floating_point_v<T>;
    }
}
template <class T> constexpr std::array<unsigned long, 24> layout()
{
    std::array<unsigned long, 24> r{};
    lay<std::remove_cvref_t<T>>(r);
    return r;
}
}  // namespace vf
