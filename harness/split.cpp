#include "common.hpp"

#include <neo/complex.hpp>
#include <neo/fft.hpp>

namespace {
using namespace neo::fft;

// p: order, backward, variant(0 in place, 1 out of place) ; b: re, im, re2, im2, info
template<typename F>
void run_split(std::int64_t const* p, void** b)
{
    auto elsewhere = [&](std::size_t o) {
        auto pl = split_fft_plan<F>{from_order, o};
        auto re = stdex::mdarray<F, stdex::dextents<std::size_t, 1>>{pl.size()};
        auto im = stdex::mdarray<F, stdex::dextents<std::size_t, 1>>{pl.size()};
        for (std::size_t i = 0; i < pl.size(); ++i) { re(i) = im(i) = F(1) + F(i); }
        fft(pl, neo::split_complex{re.to_mdspan(), im.to_mdspan()});
        ifft(pl, neo::split_complex{re.to_mdspan(), im.to_mdspan()});
    };
    if (p[2] == 6) { elsewhere(static_cast<std::size_t>(p[0]) + 1); }
    if (p[2] == 7) { elsewhere(static_cast<std::size_t>(p[0]) - 1); }
    auto plan = split_fft_plan<F>{from_order, static_cast<std::size_t>(p[0])};
    if (p[2] == 6) { elsewhere(static_cast<std::size_t>(p[0]) - 1); }
    if (p[2] == 7) { elsewhere(static_cast<std::size_t>(p[0]) + 1); }
    auto n    = std::size_t(1) << p[0];
    auto x    = neo::split_complex{vh::vec<F>(b[0], n), vh::vec<F>(b[1], n)};
    if (p[2] >= 100) {
        auto other = stdex::mdarray<F, stdex::dextents<std::size_t, 2>>{2, n};
        for (auto r = 100; r < p[2]; ++r) {
            for (std::size_t i = 0; i < n; ++i) {
                other(0, i) = F(1) + F(i);
                other(1, i) = F(2) - F(i);
            }
            auto const m = other.to_mdspan();
            auto o       = neo::split_complex{stdex::submdspan(m, 0, stdex::full_extent), stdex::submdspan(m, 1, stdex::full_extent)};
            if (r % 2 != 0) { ifft(plan, o); } else { fft(plan, o); }
        }
    }
    if (p[2] == 0 or p[2] >= 100 or p[2] == 6 or p[2] == 7) {
        if (p[1] != 0) { ifft(plan, x); } else { fft(plan, x); }
    } else if (p[2] == 1) {
        auto y = neo::split_complex{vh::vec<F>(b[2], n), vh::vec<F>(b[3], n)};
        if (p[1] != 0) { ifft(plan, x, y); } else { fft(plan, x, y); }
    } else if (p[2] == 3) {
        auto other = stdex::mdarray<F, stdex::dextents<std::size_t, 2>>{2, n};
        for (std::size_t i = 0; i < n; ++i) {
            other(0, i) = F(1) + F(i);
            other(1, i) = F(2) - F(i) * F(i);
        }
        auto const m = other.to_mdspan();
        auto o       = neo::split_complex{stdex::submdspan(m, 0, stdex::full_extent), stdex::submdspan(m, 1, stdex::full_extent)};
        if (p[1] != 0) { fft(plan, o); } else { ifft(plan, o); }
        auto copy  = plan;
        auto moved = std::move(copy);
        if (p[1] != 0) { ifft(moved, x); } else { fft(moved, x); }
    } else if (p[2] == 4) {
        auto u = neo::split_complex{vh::svec<F>(b[0], n, 2), vh::svec<F>(b[1], n, 3)};
        if (p[1] != 0) { ifft(plan, u); } else { fft(plan, u); }
    } else if (p[2] == 5) {
        auto u = neo::split_complex{vh::svec<F const>(b[0], n, 2), vh::svec<F const>(b[1], n, 2)};
        auto y = neo::split_complex{vh::svec<F>(b[2], n, 3), vh::svec<F>(b[3], n, 3)};
        if (p[1] != 0) { ifft(plan, u, y); } else { fft(plan, u, y); }
    } else {
        fft(plan, x);
        ifft(plan, x);
    }
    static_cast<std::int64_t*>(b[4])[0] = static_cast<std::int64_t>(plan.size());
    static_cast<std::int64_t*>(b[4])[1] = static_cast<std::int64_t>(plan.order());
}
}  // namespace
HARNESS(h_split_f) { run_split<float>(p, b); }
HARNESS(h_split_d) { run_split<double>(p, b); }
