#include "common.hpp"

#include <neo/fft.hpp>
#include <neo/fft/dct.hpp>

template<typename F>
static void run_dct(std::int64_t const* p, void** b)
{
    auto elsewhere = [&](std::size_t o) {
        auto pl = neo::fft::fallback_dct2_plan<F>{neo::fft::from_order, o};
        auto x  = stdex::mdarray<F, stdex::dextents<std::size_t, 1>>{pl.size()};
        for (std::size_t i = 0; i < pl.size(); ++i) { x(i) = F(1) + F(i); }
        pl(x.to_mdspan());
    };
    if (p[1] == 6) { elsewhere(static_cast<std::size_t>(p[0]) + 1); }
    if (p[1] == 7) { elsewhere(static_cast<std::size_t>(p[0]) - 1); }
    auto plan = neo::fft::fallback_dct2_plan<F>{neo::fft::from_order, static_cast<std::size_t>(p[0])};
    auto n    = std::size_t(1) << p[0];
    static_cast<std::int64_t*>(b[1])[0] = static_cast<std::int64_t>(plan.size());
    static_cast<std::int64_t*>(b[1])[1] = static_cast<std::int64_t>(plan.order());
    for (auto r = 0; r < (p[1] == 1 ? 1 : p[1] >= 100 ? p[1] - 100 : 0); ++r) {  // dirty the plan with another signal first
        auto other = stdex::mdarray<F, stdex::dextents<std::size_t, 1>>{n};
        for (std::size_t i = 0; i < n; ++i) { other(i) = F(1) + F(i); }
        plan(other.to_mdspan());
    }
    if (p[1] == 6) { elsewhere(static_cast<std::size_t>(p[0]) - 1); }
    if (p[1] == 7) { elsewhere(static_cast<std::size_t>(p[0]) + 1); }
    if (p[1] == 2) { plan(vh::svec<F>(b[0], n, 2)); return; }
    plan(vh::vec<F>(b[0], n));
}
HARNESS(h_dct_f) { run_dct<float>(p, b); }
HARNESS(h_dct_d) { run_dct<double>(p, b); }
