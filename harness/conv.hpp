#pragma once
#include "common.hpp"

#include <neo/convolution.hpp>
#include <neo/fft.hpp>

#include <algorithm>
#include <vector>

// the object filters something else: a response of 3 blocks of `bs` samples and `count` samples in chunks of one block, the last
// possibly longer
template<typename F, typename Conv, typename... Args>
static void other_life(Conv& conv, std::size_t bs, std::size_t count, bool load, Args... args)
{
    if (load) {
        auto ir2 = stdex::mdarray<F, stdex::dextents<std::size_t, 2>>{1, 3 * bs};
        for (std::size_t i = 0; i < 3 * bs; ++i) { ir2(0, i) = F(1) / F(1 + i); }
        auto const pp = neo::convolution::uniform_partition(ir2.to_mdspan(), bs);
        conv.filter(stdex::submdspan(pp.to_mdspan(), 0, stdex::full_extent, stdex::full_extent), args...);
    }
    for (auto left = count; left > 0;) {
        auto const n = left >= 2 * bs ? bs : left;
        auto junk    = stdex::mdarray<F, stdex::dextents<std::size_t, 1>>{n};
        for (std::size_t i = 0; i < n; ++i) { junk(i) = F(1) + F(left - i) / F(8); }
        conv(junk.to_mdspan());
        left -= n;
    }
}

// p: channels, channel, L (taps per channel), B, history, then the chunk sizes, ending with 0
// history % 100000: samples the same object filtered before with another response; history / 100000, bits: 1 it did so with twice
// the block size, 2 with half of it, 4 another object with another response is used in between, 8 the object is replaced by a copy
// in mid-stream while the original goes on with something else, 16 the object is assigned to a used one in mid-stream
// b[0]: impulse response (channels x L), b[1]: signal in, b[2]: signal out
template<typename Conv, typename C, typename... Args>
static void run_conv(std::int64_t const* p, void** b, Args... args)
{
    using F           = typename C::value_type;
    auto const nch    = static_cast<std::size_t>(p[0]);
    auto const ch     = static_cast<std::size_t>(p[1]);
    auto const L      = static_cast<std::size_t>(p[2]);
    auto const B      = static_cast<std::size_t>(p[3]);
    auto const reload = static_cast<std::size_t>(p[4] % 100000);
    auto const mode   = p[4] / 100000;
    auto conv         = Conv{};
    if (reload != 0) { other_life<F>(conv, (mode & 1) != 0 ? 2 * B : (mode & 2) != 0 ? B / 2 : B, reload, true, args...); }
    auto second = Conv{};
    if ((mode & 4) != 0) { other_life<F>(second, 2 * B, 2 * B, true, args...); }
    auto const parts = neo::convolution::uniform_partition(vh::mat<F>(b[0], nch, L), B);
    conv.filter(stdex::submdspan(parts.to_mdspan(), ch, stdex::full_extent, stdex::full_extent), args...);
    auto* in  = static_cast<F*>(b[1]);
    auto* out = static_cast<F*>(b[2]);
    for (std::size_t k = 5; p[k] != 0; ++k) {
        auto const n = static_cast<std::size_t>(p[k]);
        if ((mode & 4) != 0) { other_life<F>(second, 2 * B, 2 * B, false, args...); }
        if ((mode & 8) != 0 and k == 6) {
            auto copy = conv;
            other_life<F>(conv, B, 2 * B, false, args...);
            conv = std::move(copy);
        }
        if ((mode & 16) != 0 and k == 7) {
            auto used = Conv{};
            other_life<F>(used, B, 2 * B, true, args...);
            used = conv;
            other_life<F>(conv, B, 3 * B, false, args...);
            conv = used;
        }
        std::copy(in, in + n, out);
        conv(vh::vec<F>(out, n));
        in += n;
        out += n;
    }
}
