#include "common.hpp"

#include <neo/complex.hpp>
#include <neo/fft.hpp>

namespace {
using namespace neo::fft;

// naive DFT. p: n, backward ; b: x, X
template<typename C>
void run_naive(std::int64_t const* p, void** b)
{
    auto n = static_cast<std::size_t>(p[0]);
    auto x = vh::vec<C const>(b[0], n);
    auto y = vh::vec<C>(b[1], n);
    if (p[1] == 0) { dft(x, y, direction::forward); } else { dft(x, y, direction::backward); }
}

// Bluestein. p: n, backward, variant
template<typename C>
void run_blue(std::int64_t const* p, void** b)
{
    auto n    = static_cast<std::size_t>(p[0]);
    auto elsewhere = [&](std::size_t m) {
        auto pl = dft_plan<C>{m};
        using F = typename C::value_type;
        auto x  = stdex::mdarray<C, stdex::dextents<std::size_t, 1>>{m};
        for (std::size_t i = 0; i < m; ++i) { x(i) = C{F(1) + F(i), F(2)}; }
        dft(pl, x.to_mdspan());
        idft(pl, x.to_mdspan());
    };
    if (p[2] == 6) { elsewhere(2 * n); }
    if (p[2] == 7) { elsewhere(n - 1); }
    auto plan = dft_plan<C>{n};
    if (p[2] == 6) { elsewhere(n - 1); }
    if (p[2] == 7) { elsewhere(2 * n + 1); }
    if (p[2] >= 100) {
        auto other = stdex::mdarray<C, stdex::dextents<std::size_t, 1>>{n};
        using F    = typename C::value_type;
        for (auto r = 100; r < p[2]; ++r) {
            for (std::size_t i = 0; i < n; ++i) { other(i) = C{F(1) + F(i), F(2) - F(i)}; }
            if (r % 2 != 0) { dft(plan, other.to_mdspan()); } else { idft(plan, other.to_mdspan()); }
        }
    }
    if (p[2] == 0 or p[2] >= 100 or p[2] == 6 or p[2] == 7) {
        auto x = vh::vec<C>(b[0], n);
        if (p[1] == 0) { dft(plan, x); } else { idft(plan, x); }
    } else if (p[2] == 1) {
        auto x = vh::vec<C const>(b[0], n);
        auto y = vh::vec<C>(b[1], n);
        if (p[1] == 0) { dft(plan, x, y); } else { idft(plan, x, y); }
    } else if (p[2] == 3) {
        auto other = stdex::mdarray<C, stdex::dextents<std::size_t, 1>>{n};
        using F    = typename C::value_type;
        for (std::size_t i = 0; i < n; ++i) { other(i) = C{F(1) + F(i), F(2) - F(i) * F(i)}; }
        if (p[1] != 0) { dft(plan, other.to_mdspan()); } else { idft(plan, other.to_mdspan()); }
        auto copy  = plan;
        auto moved = std::move(copy);
        auto x     = vh::vec<C>(b[0], n);
        if (p[1] == 0) { dft(moved, x); } else { idft(moved, x); }
    } else if (p[2] == 4) {
        auto x = vh::svec<C>(b[0], n, 2);
        if (p[1] == 0) { dft(plan, x); } else { idft(plan, x); }
    } else {
        auto x = vh::vec<C>(b[0], n);
        dft(plan, x);
        idft(plan, x);
    }
    static_cast<std::int64_t*>(b[2])[0] = static_cast<std::int64_t>(plan.size());
}
}  // namespace
HARNESS(h_naive_cf) { run_naive<std::complex<float>>(p, b); }
HARNESS(h_naive_cd) { run_naive<std::complex<double>>(p, b); }
HARNESS(h_blue_cf) { run_blue<std::complex<float>>(p, b); }
HARNESS(h_blue_cd) { run_blue<std::complex<double>>(p, b); }
