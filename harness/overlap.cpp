#include "common.hpp"

#include <neo/algorithm.hpp>
#include <neo/convolution.hpp>
#include <neo/fft.hpp>

#include <algorithm>

// p: B, F, blocks, variant; b[0] taps, b[1] in, b[2] out, b[3] info
// variant 2: as 0, with another object of another size used in between and the object replaced by a copy in mid-stream
// variant 0: the callback multiplies with the spectrum of the taps, 1: the callback leaves the spectrum alone
template<template<typename> typename Overlap, typename Fl>
static void run_ov(std::int64_t const* p, void** b)
{
    using C        = std::complex<Fl>;
    auto const B   = static_cast<std::size_t>(p[0]);
    auto const F   = static_cast<std::size_t>(p[1]);
    auto ov        = Overlap<C>{B, F};
    auto const K   = ov.transform_size();
    auto* info     = static_cast<std::int64_t*>(b[3]);
    info[0]        = static_cast<std::int64_t>(ov.block_size());
    info[1]        = static_cast<std::int64_t>(ov.filter_size());
    info[2]        = static_cast<std::int64_t>(K >= B + F - 1);
    auto spec      = stdex::mdarray<C, stdex::dextents<std::size_t, 1>>{K / 2 + 1};
    {
        auto plan = neo::fft::rfft_plan<Fl, C>{neo::fft::from_order, neo::fft::next_order(K)};
        auto taps = stdex::mdarray<Fl, stdex::dextents<std::size_t, 1>>{K};
        for (std::size_t i = 0; i < F; ++i) { taps(i) = static_cast<Fl const*>(b[0])[i]; }
        neo::fft::rfft(plan, taps.to_mdspan(), spec.to_mdspan());
    }
    auto* in  = static_cast<Fl*>(b[1]);
    auto* out = static_cast<Fl*>(b[2]);
    info[3]   = 1;
    auto second = Overlap<C>{B + 3, F + 9};
    auto junk   = stdex::mdarray<Fl, stdex::dextents<std::size_t, 1>>{B + 3};
    auto third  = Overlap<C>{B, F};
    auto what   = 0;
    auto apply  = [&](auto s) {
        if (what == 1) {
            neo::scale(Fl(2), s);
            return;
        }
        if (s.extent(0) != K / 2 + 1) { info[3] = 0; }
        if (p[3] != 1) { neo::multiply(s, spec.to_mdspan(), s); }
    };
    auto mess = [&](auto& obj, std::size_t bs) {
        for (std::size_t i = 0; i < bs; ++i) { junk(i) = Fl(1) + Fl(i); }
        what = 1;
        obj(vh::vec<Fl>(junk.data(), bs), apply);
        what = 0;
    };
    for (std::int64_t k = 0; k < p[2]; ++k) {
        if (p[3] == 2) {
            mess(second, B + 3);
            mess(third, B);
            if (k == 1) {
                auto copy = ov;
                mess(ov, B);
                ov = std::move(copy);
            }
        }
        std::copy(in, in + B, out);
        ov(vh::vec<Fl>(out, B), apply);
        in += B;
        out += B;
    }
}
HARNESS(h_ola_f) { run_ov<neo::convolution::overlap_add, float>(p, b); }
HARNESS(h_ola_d) { run_ov<neo::convolution::overlap_add, double>(p, b); }
HARNESS(h_ols_f) { run_ov<neo::convolution::overlap_save, float>(p, b); }
HARNESS(h_ols_d) { run_ov<neo::convolution::overlap_save, double>(p, b); }
