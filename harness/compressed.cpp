#include "common.hpp"

#include <neo/complex.hpp>
#include <neo/container/compressed_accessor.hpp>
#include <neo/convolution/compressed_fdl.hpp>

// b: spectra (K x n complex), slots (K), out (segments x n complex); p: segments, n, K
template<typename Cf, typename Int>
static void run_fdl(std::int64_t const* p, void** b)
{
    using F      = typename Cf::value_type;
    auto const s = static_cast<std::size_t>(p[0]);
    auto const n = static_cast<std::size_t>(p[1]);
    auto const k = static_cast<std::size_t>(p[2]);
    auto fdl     = neo::convolution::compressed_fdl<Cf, neo::scalar_complex<Int>>{stdex::dextents<std::size_t, 2>{s, n}};
    auto* in     = static_cast<F*>(b[0]);
    for (std::size_t i{0}; i < k; ++i) {
        auto const slot = vh_pick(static_cast<std::int32_t*>(b[1])[i]);
        auto tmp        = stdex::mdarray<Cf, stdex::dextents<std::size_t, 1>>{n};
        for (std::size_t j{0}; j < n; ++j) { tmp(j) = Cf{in[2 * (i * n + j)], in[2 * (i * n + j) + 1]}; }
        fdl.insert(tmp.to_mdspan(), slot);
    }
    auto* out = static_cast<F*>(b[2]);
    for (std::size_t i{0}; i < s; ++i) {
        auto const row = fdl[i];
        for (std::size_t j{0}; j < n; ++j) {
            out[2 * (i * n + j)]     = row[j].real();
            out[2 * (i * n + j) + 1] = row[j].imag();
        }
    }
}
HARNESS(h_fdl_8) { run_fdl<neo::scalar_complex<float>, std::int8_t>(p, b); }
HARNESS(h_fdl_16) { run_fdl<neo::scalar_complex<float>, std::int16_t>(p, b); }
HARNESS(h_fdl_s8) { run_fdl<std::complex<float>, std::int8_t>(p, b); }
HARNESS(h_fdl_s16) { run_fdl<std::complex<float>, std::int16_t>(p, b); }

// b: stored integers (rows x cols), out; p: rows, cols
template<typename F, typename Int>
static void run_acc(std::int64_t const* p, void** b)
{
    using A      = stdex::default_accessor<Int>;
    using E      = stdex::dextents<std::size_t, 2>;
    auto const r = static_cast<std::size_t>(p[0]);
    auto const c = static_cast<std::size_t>(p[1]);
    auto raw     = stdex::mdspan<Int, E>{static_cast<Int*>(b[0]), r, c};
    auto view    = stdex::mdspan<F, E, stdex::layout_right, neo::compressed_accessor<F, A>>{raw.data_handle(), raw.mapping(), neo::compressed_accessor<F, A>{raw.accessor()}};
    for (std::size_t i{0}; i < r; ++i) {
        for (std::size_t j{0}; j < c; ++j) { static_cast<F*>(b[1])[i * c + j] = view(i, j); }
    }
}
HARNESS(h_acc_f8) { run_acc<float, std::int8_t>(p, b); }
HARNESS(h_acc_f16) { run_acc<float, std::int16_t>(p, b); }
HARNESS(h_acc_d8) { run_acc<double, std::int8_t>(p, b); }
HARNESS(h_acc_d16) { run_acc<double, std::int16_t>(p, b); }
HARNESS(h_acc_cf8) { run_acc<std::complex<float>, neo::scalar_complex<std::int8_t>>(p, b); }
HARNESS(h_acc_cf16) { run_acc<std::complex<float>, neo::scalar_complex<std::int16_t>>(p, b); }
HARNESS(h_acc_cd16) { run_acc<std::complex<double>, neo::scalar_complex<std::int16_t>>(p, b); }
