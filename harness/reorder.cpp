#include "common.hpp"

#include <neo/complex.hpp>
#include <neo/fft.hpp>
#include <neo/fft/reference/bitrevorder.hpp>
#include <neo/fft/reference/digitrevorder.hpp>
#include <neo/fft/twiddle.hpp>

namespace {
using namespace neo::fft;
using C = std::complex<float>;
using D = std::complex<double>;

template<std::size_t R>
void digit(std::int64_t const* p, void** b)
{
    auto n    = static_cast<std::size_t>(p[0]);
    auto plan = digitrevorder_plan<R>{n};
    plan(vh::vec<C>(b[0], n));
}

// p: size, first index, count, backward ; b: w
template<typename T>
void tw(std::int64_t const* p, void** b)
{
    auto out = static_cast<T*>(b[0]);
    for (auto i = 0; i < p[2]; ++i) {
        out[i] = twiddle<T>(p[0], p[1] + i, p[3] != 0 ? direction::backward : direction::forward);
    }
}

template<typename T>
void lut(std::int64_t const* p, void** b)
{
    auto w   = make_twiddle_lut_radix2<T>(static_cast<std::size_t>(p[0]), p[1] != 0 ? direction::backward : direction::forward);
    auto out = static_cast<T*>(b[0]);
    for (std::size_t i = 0; i < w.extent(0); ++i) { out[i] = w(i); }
    static_cast<std::int64_t*>(b[1])[0] = static_cast<std::int64_t>(w.extent(0));
}
}  // namespace

HARNESS(h_bitrev_plan) { bitrevorder_plan{static_cast<std::size_t>(p[0])}(vh::vec<C>(b[0], std::size_t(1) << p[0])); }
HARNESS(h_bitrev_plan_n) { bitrevorder_plan{static_cast<std::size_t>(p[0])}(vh::vec<neo::complex64>(b[0], std::size_t(1) << p[0])); }
HARNESS(h_bitrev_plan_f) { bitrevorder_plan{static_cast<std::size_t>(p[0])}(vh::vec<float>(b[0], std::size_t(2) << p[0])); }
HARNESS(h_bitrev_plan_s)
{
    auto n = std::size_t(1) << p[0];
    bitrevorder_plan{static_cast<std::size_t>(p[0])}(neo::split_complex{vh::vec<float>(b[0], n), vh::vec<float>(b[1], n)});
}
HARNESS(h_bitrev_free) { bitrevorder(vh::vec<C>(b[0], std::size_t(1) << p[0])); }
HARNESS(h_bitrev_free_f) { bitrevorder(vh::vec<float>(b[0], std::size_t(2) << p[0])); }
HARNESS(h_bitrev_stride) { bitrevorder(vh::svec<C>(b[0], std::size_t(1) << p[0], 2)); }
HARNESS(h_digit2) { digit<2>(p, b); }
HARNESS(h_digit3) { digit<3>(p, b); }
HARNESS(h_digit4) { digit<4>(p, b); }
HARNESS(h_digit5) { digit<5>(p, b); }
HARNESS(h_digit8) { digit<8>(p, b); }
HARNESS(h_tw_cf) { tw<C>(p, b); }
HARNESS(h_tw_cd) { tw<D>(p, b); }
HARNESS(h_tw_nf) { tw<neo::complex64>(p, b); }
HARNESS(h_tw_nd) { tw<neo::complex128>(p, b); }
HARNESS(h_lut_cf) { lut<C>(p, b); }
HARNESS(h_lut_cd) { lut<D>(p, b); }
HARNESS(h_lut_nf) { lut<neo::complex64>(p, b); }
