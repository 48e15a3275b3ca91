#include "common.hpp"

#include <neo/complex.hpp>
#include <neo/fft.hpp>
#include <neo/fft/experimental/rfft.hpp>

namespace {
using namespace neo::fft;

// an earlier use of the plan
template<typename F, typename C, typename Plan>
void dirty(Plan& plan, std::size_t n)
{
    auto x = stdex::mdarray<F, stdex::dextents<std::size_t, 1>>{n};
    auto X = stdex::mdarray<C, stdex::dextents<std::size_t, 1>>{n / 2 + 1};
    for (std::size_t i = 0; i < n; ++i) { x(i) = F(1) + F(i) * F(i); }
    rfft(plan, x.to_mdspan(), X.to_mdspan());
    irfft(plan, X.to_mdspan(), x.to_mdspan());
}

// plans of other sizes, made and used before or in between
template<typename Plan, typename F, typename C>
void elsewhere(std::int64_t const* p, std::int64_t when)
{
    if (p[2] != when) { return; }
    for (auto d = 1; d < 4; d += 2) {
        auto pl = Plan{from_order, static_cast<std::size_t>(p[0] - 2 + d)};
        dirty<F, C>(pl, std::size_t(1) << (p[0] - 2 + d));
    }
}

// real -> half spectrum.  p: order, outsize, insize ; b: x, X
template<typename F, typename C>
void run_rfft(std::int64_t const* p, void** b)
{
    elsewhere<rfft_plan<F, C>, F, C>(p, 5);
    auto plan = rfft_plan<F, C>{from_order, static_cast<std::size_t>(p[0])};
    auto n    = std::size_t(1) << p[0];
    auto x    = vh::vec<F const>(b[0], n);
    auto X    = vh::vec<C>(b[1], static_cast<std::size_t>(p[1]));
    static_cast<std::int64_t*>(b[2])[0] = static_cast<std::int64_t>(plan.size());
    static_cast<std::int64_t*>(b[2])[1] = static_cast<std::int64_t>(plan.order());
    elsewhere<rfft_plan<F, C>, F, C>(p, 6);
    if (p[2] == 5 or p[2] == 6) {
        rfft(plan, x, X);
        return;
    }
    if (p[2] == 2) {
        dirty<F, C>(plan, n);
        auto copy  = plan;
        auto moved = std::move(copy);
        rfft(moved, x, X);
        return;
    }
    if (p[2] == 3) {
        rfft(plan, vh::svec<F const>(b[0], n, 2), vh::svec<C>(b[1], static_cast<std::size_t>(p[1]), 3));
        return;
    }
    if (p[2] >= 100) {
        for (auto r = 100; r < p[2]; ++r) { dirty<F, C>(plan, n); }
        rfft(plan, x, X);
        return;
    }
    for (auto r = 0; r <= p[2]; ++r) { rfft(plan, x, X); }
}

template<typename F, typename C>
void run_irfft(std::int64_t const* p, void** b)
{
    elsewhere<rfft_plan<F, C>, F, C>(p, 5);
    auto plan = rfft_plan<F, C>{from_order, static_cast<std::size_t>(p[0])};
    auto n    = std::size_t(1) << p[0];
    auto X    = vh::vec<C const>(b[0], static_cast<std::size_t>(p[1]));
    auto x    = vh::vec<F>(b[1], n);
    elsewhere<rfft_plan<F, C>, F, C>(p, 6);
    if (p[2] == 5 or p[2] == 6) {
        irfft(plan, X, x);
        return;
    }
    if (p[2] == 2) {
        dirty<F, C>(plan, n);
        auto copy  = plan;
        auto moved = std::move(copy);
        irfft(moved, X, x);
        return;
    }
    if (p[2] == 3) {
        irfft(plan, vh::svec<C const>(b[0], static_cast<std::size_t>(p[1]), 2), vh::svec<F>(b[1], n, 3));
        return;
    }
    if (p[2] >= 100) {
        for (auto r = 100; r < p[2]; ++r) { dirty<F, C>(plan, n); }
        irfft(plan, X, x);
        return;
    }
    for (auto r = 0; r <= p[2]; ++r) { irfft(plan, X, x); }
}

template<typename F, typename C>
void run_rtrip(std::int64_t const* p, void** b)
{
    auto plan = rfft_plan<F, C>{from_order, static_cast<std::size_t>(p[0])};
    auto n    = std::size_t(1) << p[0];
    auto x    = vh::vec<F const>(b[0], n);
    auto y    = vh::vec<F>(b[1], n);
    auto X    = vh::vec<C>(b[2], n / 2 + 1);
    rfft(plan, x, X);
    irfft(plan, X, y);
}

template<typename C>
void run_deint(std::int64_t const* p, void** b)
{
    auto n = static_cast<std::size_t>(p[0]);
    rfft_deinterleave(vh::vec<C const>(b[0], n), vh::vec<C>(b[1], n / 2 + 1), vh::vec<C>(b[2], n / 2 + 1));
}

// two real signals packed into one complex transform, then separated
template<typename F, typename C>
void run_two(std::int64_t const* p, void** b)
{
    auto n    = std::size_t(1) << p[0];
    auto plan = fft_plan<C>{from_order, static_cast<std::size_t>(p[0])};
    auto x    = static_cast<F const*>(b[0]);
    auto y    = static_cast<F const*>(b[1]);
    auto buf  = stdex::mdarray<C, stdex::dextents<std::size_t, 1>>{n};
    for (std::size_t i = 0; i < n; ++i) { buf(i) = C{x[i], y[i]}; }
    fft(plan, buf.to_mdspan());
    rfft_deinterleave(buf.to_mdspan(), vh::vec<C>(b[2], n / 2 + 1), vh::vec<C>(b[3], n / 2 + 1));
}

template<typename F>
void run_xc2c(std::int64_t const* p, void** b)
{
    auto plan = neo::fft::experimental::c2c_dit2_plan<F>{from_order, static_cast<std::size_t>(p[0])};
    auto n    = std::size_t(1) << p[0];
    if (p[1] >= 100) {
        auto other = stdex::mdarray<F, stdex::dextents<std::size_t, 1>>{2 * n};
        for (auto r = 100; r < p[1]; ++r) {
            for (std::size_t i = 0; i < 2 * n; ++i) { other(i) = F(1) + F(i); }
            plan(other.to_mdspan(), r % 2 != 0 ? direction::backward : direction::forward);
        }
        plan(vh::vec<F>(b[0], 2 * n), direction::forward);
        return;
    }
    plan(vh::vec<F>(b[0], 2 * n), p[1] != 0 ? direction::backward : direction::forward);
}

template<typename F>
void run_xrfft(std::int64_t const* p, void** b)
{
    auto plan = neo::fft::experimental::rfft_plan<F>{from_order, static_cast<std::size_t>(p[0])};
    auto n    = std::size_t(1) << p[0];
    auto x    = vh::vec<F>(b[0], n);
    if (p[1] >= 100) {
        auto other = stdex::mdarray<F, stdex::dextents<std::size_t, 1>>{n};
        for (auto r = 100; r < p[1]; ++r) {
            for (std::size_t i = 0; i < n; ++i) { other(i) = F(1) + F(i); }
            plan(other.to_mdspan(), r % 2 != 0 ? direction::backward : direction::forward);
        }
        plan(x, direction::forward);
        return;
    }
    if (p[1] == 2) {
        plan(x, direction::forward);
        plan(x, direction::backward);
        return;
    }
    plan(x, p[1] != 0 ? direction::backward : direction::forward);
}
}  // namespace

#define ALL(T, F, C)                                                                                                   \
    HARNESS(h_rfft_##T) { run_rfft<F, C>(p, b); }                                                                      \
    HARNESS(h_irfft_##T) { run_irfft<F, C>(p, b); }                                                                    \
    HARNESS(h_rtrip_##T) { run_rtrip<F, C>(p, b); }                                                                    \
    HARNESS(h_deint_##T) { run_deint<C>(p, b); }                                                                       \
    HARNESS(h_two_##T) { run_two<F, C>(p, b); }

ALL(cf, float, std::complex<float>)
ALL(cd, double, std::complex<double>)
ALL(nf, float, neo::complex64)
HARNESS(h_xc2c_cf) { run_xc2c<float>(p, b); }
HARNESS(h_xc2c_cd) { run_xc2c<double>(p, b); }
HARNESS(h_xrfft_cf) { run_xrfft<float>(p, b); }
HARNESS(h_xrfft_cd) { run_xrfft<double>(p, b); }
