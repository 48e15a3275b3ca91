#include "common.hpp"

#include <neo/complex.hpp>
#include <neo/convolution/uniform_partition.hpp>
#include <neo/fft.hpp>
#include <neo/math/windowing.hpp>

namespace {
template<typename M>
void out(M const& r, void** b)
{
    using C = typename M::value_type;
    auto i  = static_cast<std::int64_t*>(b[1]);
    i[0]    = static_cast<std::int64_t>(r.extent(0));
    i[1]    = static_cast<std::int64_t>(r.extent(1));
    i[2]    = static_cast<std::int64_t>(r.extent(2));
    auto o  = static_cast<C*>(b[2]);
    for (std::size_t c = 0; c < r.extent(0); ++c) {
        for (std::size_t f = 0; f < r.extent(1); ++f) {
            for (std::size_t k = 0; k < r.extent(2); ++k) { *o++ = r(c, f, k); }
        }
    }
}

// p: channels, length, frame, transform, overlap, window ; b: x, extents, spectrum
template<typename F>
void run_stft(std::int64_t const* p, void** b)
{
    auto x   = vh::mat<F>(b[0], static_cast<std::size_t>(p[0]), static_cast<std::size_t>(p[1]));
    if (p[5] < 0) {
        out(neo::fft::stft(x, static_cast<std::size_t>(p[3])), b);
        return;
    }
    auto opt = neo::fft::stft_options<F>{
        .frame_size     = static_cast<std::size_t>(p[2]),
        .transform_size = static_cast<std::size_t>(p[3]),
        .overlap_size   = static_cast<std::size_t>(p[4]),
    };
    if (p[5] == 0) { opt.window = neo::rectangular_window<F>{}; }
    if (p[5] == 2) { opt.window = neo::hamming_window<F>{}; }
    if (p[6] == 3) {
        auto o2           = opt;
        o2.frame_size     = 2 * opt.frame_size;
        o2.transform_size = 2 * opt.transform_size;
        o2.window         = neo::hamming_window<F>{};
        auto other        = stdex::mdarray<F, stdex::dextents<std::size_t, 2>>{1, 9};
        for (std::size_t j = 0; j < 9; ++j) { other(0, j) = F(1) + F(j); }
        auto big = neo::fft::stft_plan<F>{o2};
        (void)big(other.to_mdspan());
        auto plan = neo::fft::stft_plan<F>{opt};
        (void)big(other.to_mdspan());
        out(plan(x), b);
        return;
    }
    if (p[6] == 2) {
        auto const r = static_cast<std::size_t>(p[0]), c = static_cast<std::size_t>(p[1]);
        auto plan    = neo::fft::stft_plan<F>{opt};
        auto other   = stdex::mdarray<F, stdex::dextents<std::size_t, 2>>{r + 1, 2 * c + 3};
        for (std::size_t i = 0; i < r + 1; ++i) {
            for (std::size_t j = 0; j < 2 * c + 3; ++j) { other(i, j) = F(1) + F(i) - F(j); }
        }
        (void)plan(other.to_mdspan());
        auto copy  = plan;
        auto moved = std::move(copy);
        // channels interleaved in memory
        using E  = stdex::dextents<std::size_t, 2>;
        auto col = stdex::mdspan<F, E, stdex::layout_stride>{static_cast<F*>(b[0]), stdex::layout_stride::mapping<E>{E{r, c}, std::array<std::size_t, 2>{1, r}}};
        out(moved(col), b);
        return;
    }
    if (p[6] == 1 or p[6] >= 100) {
        auto plan = neo::fft::stft_plan<F>{opt};
        for (auto r = 0; r < (p[6] == 1 ? 1 : p[6] - 100); ++r) { (void)plan(x); }
        out(plan(x), b);
        return;
    }
    out(neo::fft::stft(x, opt), b);
}

template<typename F>
void run_up(std::int64_t const* p, void** b)
{
    auto x = vh::mat<F>(b[0], static_cast<std::size_t>(p[0]), static_cast<std::size_t>(p[1]));
    out(neo::convolution::uniform_partition(x, static_cast<std::size_t>(p[2])), b);
}
}  // namespace
HARNESS(h_stft_f) { run_stft<float>(p, b); }
HARNESS(h_stft_d) { run_stft<double>(p, b); }
HARNESS(h_up_f) { run_up<float>(p, b); }
HARNESS(h_up_d) { run_up<double>(p, b); }
