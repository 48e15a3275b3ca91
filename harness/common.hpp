// Shared helpers for the verification harnesses.  Every harness is
//   extern "C" void h_name(int64_t const* p, void** b)
// p: integer parameters, b: caller-owned buffers.
#pragma once
#include <neo/config.hpp>
#include <neo/container/mdspan.hpp>

#ifdef VH_ENCODER
    #include "support.hpp"
#endif

#include <complex>
#include <cstddef>
#include <cstdint>
#include <type_traits>

#define HARNESS(name) extern "C" void name([[maybe_unused]] std::int64_t const* p, [[maybe_unused]] void** b)

// identity; the encoder continues with one path per feasible value
extern "C" std::int64_t vh_pick(std::int64_t);

namespace vh {
template<typename T>
using vec_t = stdex::mdspan<T, stdex::dextents<std::size_t, 1>>;

template<typename T>
using svec_t = stdex::mdspan<T, stdex::dextents<std::size_t, 1>, stdex::layout_stride>;

template<typename T>
using mat_t = stdex::mdspan<T, stdex::dextents<std::size_t, 2>>;

template<typename T>
auto vec(void* q, std::size_t n)
{
    return vec_t<T>{static_cast<T*>(q), n};
}

template<typename T>
auto mat(void* q, std::size_t r, std::size_t c)
{
    return mat_t<T>{static_cast<T*>(q), r, c};
}

// every `stride`-th element of a buffer
template<typename T>
auto svec(void* q, std::size_t n, std::size_t stride)
{
    using E = stdex::dextents<std::size_t, 1>;
    return svec_t<T>{static_cast<T*>(q), stdex::layout_stride::mapping<E>{E{n}, std::array<std::size_t, 1>{stride}}};
}
}  // namespace vh
