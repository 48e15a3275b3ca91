#pragma once
#include "common.hpp"

#include <neo/complex.hpp>
#include <neo/fft.hpp>

#include <utility>

namespace {
using namespace neo::fft;

// p: order, direction(0 forward / 1 backward), variant (0 in place, 1 out of place, 2 strided in place, 3 member call)
template<typename Plan>
void run_plan(std::int64_t const* p, void** b)
{
    using C          = typename Plan::value_type;
    auto const order = static_cast<std::size_t>(p[0]);
    auto const back  = p[1] != 0;
    // plans of other sizes, made and used before, between and after
    auto elsewhere = [&](std::size_t o) {
        auto pl = Plan{from_order, o};
        auto x  = stdex::mdarray<C, stdex::dextents<std::size_t, 1>>{pl.size()};
        using F = typename C::value_type;
        for (std::size_t i = 0; i < pl.size(); ++i) { x(i) = C{F(1) + F(i), F(2)}; }
        fft(pl, x.to_mdspan());
        ifft(pl, x.to_mdspan());
    };
    if (p[2] == 6) { elsewhere(order + 1); }
    if (p[2] == 7) { elsewhere(order - 1); }
    auto plan        = Plan{from_order, order};
    if (p[2] == 6) { elsewhere(order - 1); }
    if (p[2] == 7) { elsewhere(order + 1); }
    auto const n     = static_cast<std::size_t>(p[3]);
    static_cast<std::int64_t*>(b[2])[0] = static_cast<std::int64_t>(plan.size());
    static_cast<std::int64_t*>(b[2])[1] = static_cast<std::int64_t>(plan.order());
    if (p[2] >= 100) {  // used p[2] - 100 times before, in both directions and both ways of calling
        using F    = typename C::value_type;
        auto other = stdex::mdarray<C, stdex::dextents<std::size_t, 1>>{n};
        auto res   = stdex::mdarray<C, stdex::dextents<std::size_t, 1>>{n};
        for (auto r = 100; r < p[2]; ++r) {
            for (std::size_t i = 0; i < n; ++i) { other(i) = C{F(1) + F(i), F(2) - F(i)}; }
            if (r % 4 == 0) { fft(plan, other.to_mdspan()); }
            if (r % 4 == 1) { ifft(plan, other.to_mdspan()); }
            if (r % 4 == 2) { fft(plan, other.to_mdspan(), res.to_mdspan()); }
            if (r % 4 == 3) { ifft(plan, other.to_mdspan(), res.to_mdspan()); }
        }
    }
    if (p[2] == 0 or p[2] >= 100 or p[2] == 6 or p[2] == 7) {
        auto x = vh::vec<C>(b[0], n);
        if (back) { ifft(plan, x); } else { fft(plan, x); }
    } else if (p[2] == 1) {
        auto x = vh::vec<C const>(b[0], n);
        auto y = vh::vec<C>(b[1], n);
        if (back) { ifft(plan, x, y); } else { fft(plan, x, y); }
    } else if (p[2] == 2) {
        auto x = vh::svec<C>(b[0], n, 2);
        if (back) { ifft(plan, x); } else { fft(plan, x); }
    } else if (p[2] == 4) {
        // the plan has already transformed something else, in the other direction, and is then copied and moved
        auto y = vh::vec<C>(b[1], n);
        if (back) { fft(plan, y); } else { ifft(plan, y); }
        auto copy  = plan;
        auto moved = std::move(copy);
        auto x     = vh::vec<C>(b[0], n);
        if (back) { ifft(moved, x); } else { fft(moved, x); }
        auto z = vh::vec<C>(b[3], n);
        if (back) { ifft(plan, z); } else { fft(plan, z); }
    } else if (p[2] == 5) {
        auto x = vh::svec<C const>(b[0], n, 2);
        auto y = vh::svec<C>(b[1], n, 3);
        if (back) { ifft(plan, x, y); } else { fft(plan, x, y); }
    } else {
        auto x = vh::vec<C>(b[0], n);
        fft(plan, x);
        ifft(plan, x);
    }
}

// plans supplied by a user: out of place supported by the plan, or only in place
template<typename C, bool Out>
struct user_plan
{
    using value_type = C;

    template<neo::inout_vector Vec>
    auto operator()(Vec x, direction dir) noexcept -> void
    {
        for (std::size_t i{0}; i < x.extent(0); ++i) { x[i] = x[i] * (dir == direction::forward ? C(2) : C(3)); }
    }

    template<neo::in_vector In, neo::out_vector Vec>
    auto operator()(In in, Vec x, direction dir) noexcept -> void
        requires Out
    {
        for (std::size_t i{0}; i < x.extent(0); ++i) { x[i] = in[i] * (dir == direction::forward ? C(5) : C(7)); }
    }
};

template<typename C, bool Out>
void run_user(std::int64_t const* p, void** b)
{
    auto plan    = user_plan<C, Out>{};
    auto const n = static_cast<std::size_t>(p[2]);
    if (p[1] == 0) {
        auto x = vh::vec<C>(b[0], n);
        if (p[0] != 0) { ifft(plan, x); } else { fft(plan, x); }
    } else {
        auto x = vh::vec<C const>(b[0], n);
        auto y = vh::vec<C>(b[1], n);
        if (p[0] != 0) { ifft(plan, x, y); } else { fft(plan, x, y); }
    }
}
template<typename C, typename K>
using dit2 = c2c_dit2_plan<C, K>;
}  // namespace

#define PLANS(T, C)                                                                                                    \
    HARNESS(h_user_##T) { run_user<C, true>(p, b); }                                                                   \
    HARNESS(h_userin_##T) { run_user<C, false>(p, b); }                                                                \
    HARNESS(h_plan_##T) { run_plan<fft_plan<C>>(p, b); }                                                               \
    HARNESS(h_dit2_v1_##T) { run_plan<dit2<C, kernel::c2c_dit2_v1>>(p, b); }                                           \
    HARNESS(h_dit2_v2_##T) { run_plan<dit2<C, kernel::c2c_dit2_v2>>(p, b); }                                           \
    HARNESS(h_dit2_v3_##T) { run_plan<dit2<C, kernel::c2c_dit2_v3>>(p, b); }                                           \
    HARNESS(h_dit2_v4_##T) { run_plan<dit2<C, kernel::c2c_dit2_v4>>(p, b); }                                           \
    HARNESS(h_dif3_##T) { run_plan<c2c_dif3_plan<C>>(p, b); }                                                          \
    HARNESS(h_dif4_##T) { run_plan<c2c_dif4_plan<C>>(p, b); }                                                          \
    HARNESS(h_dif5_##T) { run_plan<c2c_dif5_plan<C>>(p, b); }                                                          \
    HARNESS(h_dit4_##T) { run_plan<c2c_dit4_plan<C>>(p, b); }                                                          \
    HARNESS(h_sdif2r_##T) { run_plan<c2c_stockham_dif2r_plan<C>>(p, b); }                                              \
    HARNESS(h_sdif2i_##T) { run_plan<c2c_stockham_dif2i_plan<C>>(p, b); }                                              \
    HARNESS(h_sdif3_##T) { run_plan<c2c_stockham_dif3_plan<C>>(p, b); }                                                \
    HARNESS(h_sdif4_##T) { run_plan<c2c_stockham_dif4_plan<C>>(p, b); }                                                \
    HARNESS(h_sdif5_##T) { run_plan<c2c_stockham_dif5_plan<C>>(p, b); }                                                \
    HARNESS(h_sdif8_##T) { run_plan<c2c_stockham_dif8_plan<C>>(p, b); }                                                \
    HARNESS(h_sdit4_##T) { run_plan<c2c_stockham_dit4_plan<C>>(p, b); }

