#include "common.hpp"

#include <neo/math/windowing.hpp>

template<typename T, typename W>
static void run(std::int64_t const* p, void** b)
{
    auto const n = static_cast<std::size_t>(p[0]);
    if (p[1] == 0) {
        auto const w = neo::generate_window<T, W>(n);
        for (std::size_t i{0}; i < n; ++i) { static_cast<T*>(b[0])[i] = w(i); }
    } else {
        neo::fill_window(vh::svec<T>(b[0], n, static_cast<std::size_t>(p[1])), W{});
    }
}
template<typename T, typename W>
static void run1(std::int64_t const*, void** b)
{
    auto const n = static_cast<std::int32_t>(static_cast<std::int32_t*>(b[0])[0]);
    auto const i = static_cast<std::int32_t>(static_cast<std::int32_t*>(b[0])[1]);
    static_cast<T*>(b[1])[0] = W{}(i, n);
}
#define H_WIN(T, n)                                                                                                    \
    HARNESS(h_rect_##n) { run<T, neo::rectangular_window<T>>(p, b); }                                                  \
    HARNESS(h_hann_##n) { run<T, neo::hann_window<T>>(p, b); }                                                         \
    HARNESS(h_hamming_##n) { run<T, neo::hamming_window<T>>(p, b); }                                                   \
    HARNESS(h_rect1_##n) { run1<T, neo::rectangular_window<T>>(p, b); }                                                \
    HARNESS(h_hann1_##n) { run1<T, neo::hann_window<T>>(p, b); }                                                       \
    HARNESS(h_hamming1_##n) { run1<T, neo::hamming_window<T>>(p, b); }
H_WIN(float, f)
H_WIN(double, d)

HARNESS(h_default_f)
{
    auto const w = neo::generate_window<float>(static_cast<std::size_t>(p[0]));
    for (std::size_t i{0}; i < w.extent(0); ++i) { static_cast<float*>(b[0])[i] = w(i); }
}
