#include "common.hpp"

#include <neo/convolution.hpp>

#include <vector>

// p: n, l, variant; b[0] signal, b[1] patch, b[2] out
template<typename T>
static void run_direct(std::int64_t const* p, void** b)
{
    auto const n = static_cast<std::size_t>(p[0]);
    auto const l = static_cast<std::size_t>(p[1]);
    if (p[2] == 0) {
        neo::convolution::direct_convolve(vh::vec<T>(b[0], n), vh::vec<T>(b[1], l), vh::vec<T>(b[2], n + l - 1));
    } else if (p[2] == 1) {
        auto r = neo::convolution::direct_convolve(vh::vec<T>(b[0], n), vh::vec<T>(b[1], l));
        if (r.extent(0) != n + l - 1) { return; }
        for (std::size_t i = 0; i < r.extent(0); ++i) { static_cast<T*>(b[2])[i] = r(i); }
    } else {
        neo::convolution::direct_convolve(vh::svec<T>(b[0], n, 2), vh::svec<T>(b[1], l, 2), vh::svec<T>(b[2], n + l - 1, 2));
    }
}
HARNESS(h_direct_f) { run_direct<float>(p, b); }
HARNESS(h_direct_d) { run_direct<double>(p, b); }

// variant 0: fft_convolve, 1: convolver object used p[3] times with other data before, 2: strided
template<typename T>
static void run_fft(std::int64_t const* p, void** b)
{
    auto const n = static_cast<std::size_t>(p[0]);
    auto const l = static_cast<std::size_t>(p[1]);
    if (p[2] == 0) {
        auto r = neo::convolution::fft_convolve(vh::vec<T>(b[0], n), vh::vec<T>(b[1], l));
        if (r.extent(0) != (n == 0 or l == 0 ? 0 : n + l - 1)) { return; }
        for (std::size_t i = 0; i < r.extent(0); ++i) { static_cast<T*>(b[2])[i] = r(i); }
        static_cast<std::int64_t*>(b[3])[0] = static_cast<std::int64_t>(r.extent(0));
        return;
    }
    auto elsewhere = [&](std::size_t a, std::size_t d) {
        auto o = neo::convolution::fft_convolver<T>{a, d};
        auto s = std::vector<T>(a, T(1));
        auto q = std::vector<T>(d, T(-2));
        auto r = std::vector<T>(a + d - 1);
        o(vh::vec<T>(s.data(), a), vh::vec<T>(q.data(), d), vh::vec<T>(r.data(), a + d - 1));
    };
    if (p[2] == 3) { elsewhere(n + l, l + 1); }
    auto c = neo::convolution::fft_convolver<T>{n, l};
    if (p[2] == 3) {
        elsewhere(n + 1, 2 * l);
        auto copy = c;
        auto s    = std::vector<T>(n, T(3));
        auto q    = std::vector<T>(l, T(-2));
        auto o    = std::vector<T>(n + l - 1);
        c(vh::vec<T>(s.data(), n), vh::vec<T>(q.data(), l), vh::vec<T>(o.data(), n + l - 1));
        copy(vh::vec<T>(b[0], n), vh::vec<T>(b[1], l), vh::vec<T>(b[2], n + l - 1));
        static_cast<std::int64_t*>(b[3])[0] = static_cast<std::int64_t>(copy.output_size());
        return;
    }
    if (p[2] == 1) {
        auto s = std::vector<T>(n, T(1));
        auto q = std::vector<T>(l, T(-2));
        auto o = std::vector<T>(n + l - 1);
        for (std::int64_t k = 0; k < p[3]; ++k) {
            c(vh::vec<T>(s.data(), n), vh::vec<T>(q.data(), l), vh::vec<T>(o.data(), n + l - 1));
        }
        c(vh::vec<T>(b[0], n), vh::vec<T>(b[1], l), vh::vec<T>(b[2], n + l - 1));
    } else {
        c(vh::svec<T>(b[0], n, 2), vh::svec<T>(b[1], l, 2), vh::svec<T>(b[2], n + l - 1, 2));
    }
    static_cast<std::int64_t*>(b[3])[0] = static_cast<std::int64_t>(c.output_size());
}
HARNESS(h_fftconv_f) { run_fft<float>(p, b); }
HARNESS(h_fftconv_d) { run_fft<double>(p, b); }
