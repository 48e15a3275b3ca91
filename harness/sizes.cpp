#include "common.hpp"

#include <neo/complex.hpp>
#include <neo/convolution.hpp>
#include <neo/fft.hpp>
#include <neo/fft/experimental/rfft.hpp>

#include <complex>
#include <exception>
#include <new>
#include <stdexcept>

using namespace neo::fft;

namespace {
using i64 = std::int64_t;

// b[0]: order; b[1]: refused, size, order, size of a copy, order of a copy, size and order of the plan it was assigned to
template<typename Plan>
void made(void** b)
{
    auto const order = static_cast<std::size_t>(vh_pick(static_cast<i64 const*>(b[0])[0]));
    auto* const out  = static_cast<i64*>(b[1]);
    for (auto i{0}; i < 7; ++i) { out[i] = -1; }
    try {
        auto const plan = Plan{from_order, order};
        out[0]          = 0;
        out[1]          = static_cast<i64>(plan.size());
        out[2]          = static_cast<i64>(plan.order());
        auto const copy = plan;
        out[3]          = static_cast<i64>(copy.size());
        out[4]          = static_cast<i64>(copy.order());
        auto other      = Plan{from_order, std::size_t{2}};
        other           = plan;
        out[5]          = static_cast<i64>(other.size());
        out[6]          = static_cast<i64>(other.order());
    } catch (...) {
        out[0] = 1;
    }
}

// b[0]: order; b[1]: 1 if refused; running out of memory is no refusal
template<typename C, typename Plan>
void refused(void** b)
{
    auto const order = static_cast<std::size_t>(static_cast<i64 const*>(b[0])[0]);
    auto* const out  = static_cast<i64*>(b[1]);
    if (order <= fft_plan<C>::max_order()) {
        out[0] = 1;
        return;
    }
    out[0] = 0;
    try {
        auto const plan = Plan{from_order, order};
        out[0]          = plan.order() == order ? 2 : 3;
    } catch (std::bad_alloc const&) {
        out[0] = 4;
    } catch (std::length_error const&) {
        out[0] = 5;
    } catch (std::exception const&) {
        out[0] = 1;
    }
}

template<typename Plan>
void limits(void** b)
{
    static_cast<i64*>(b[1])[0] = static_cast<i64>(Plan::max_order());
    static_cast<i64*>(b[1])[1] = static_cast<i64>(Plan::max_size());
}

// b[0]: block size, filter size; b[1]: the sizes reported, before and after copying
template<typename Overlap>
void overlap(void** b)
{
    auto const* in  = static_cast<i64 const*>(b[0]);
    auto* const out = static_cast<i64*>(b[1]);
    auto const o    = Overlap{static_cast<std::size_t>(vh_pick(in[0])), static_cast<std::size_t>(vh_pick(in[1]))};
    auto const c    = o;
    out[0]          = static_cast<i64>(o.block_size());
    out[1]          = static_cast<i64>(o.filter_size());
    out[2]          = static_cast<i64>(o.transform_size());
    out[3]          = static_cast<i64>(c.block_size());
    out[4]          = static_cast<i64>(c.filter_size());
    out[5]          = static_cast<i64>(c.transform_size());
}

template<typename Float>
void fftconv(void** b)
{
    auto const* in  = static_cast<i64 const*>(b[0]);
    auto* const out = static_cast<i64*>(b[1]);
    auto const o    = neo::convolution::fft_convolver<Float>{static_cast<std::size_t>(vh_pick(in[0])), static_cast<std::size_t>(vh_pick(in[1]))};
    out[0]          = static_cast<i64>(o.signal_size());
    out[1]          = static_cast<i64>(o.patch_size());
    out[2]          = static_cast<i64>(o.output_size());
}

template<typename Plan>
void dftsize(void** b)
{
    auto const plan            = Plan{static_cast<std::size_t>(vh_pick(static_cast<i64 const*>(b[0])[0]))};
    auto const copy            = plan;
    static_cast<i64*>(b[1])[0] = static_cast<i64>(plan.size());
    static_cast<i64*>(b[1])[1] = static_cast<i64>(copy.size());
}
template<typename C, typename K>
using dit2 = c2c_dit2_plan<C, K>;
}  // namespace

#define EACH(T, C, name, ...)                                                                                          \
    HARNESS(h_made_##name##_##T) { made<__VA_ARGS__>(b); }

#define LIM(T, C, name, ...)                                                                                           \
    EACH(T, C, name, __VA_ARGS__)                                                                                      \
    HARNESS(h_lim_##name##_##T) { limits<__VA_ARGS__>(b); }

#define ALL(T, C, F)                                                                                                   \
    LIM(T, C, plan, fft_plan<C>)                                                                                       \
    LIM(T, C, dit2_v1, dit2<C, kernel::c2c_dit2_v1>)                                                                   \
    LIM(T, C, dif3, c2c_dif3_plan<C>)                                                                                  \
    LIM(T, C, dif5, c2c_dif5_plan<C>)                                                                                  \
    LIM(T, C, dif4, c2c_dif4_plan<C>)                                                                                  \
    LIM(T, C, dit4, c2c_dit4_plan<C>)                                                                                  \
    LIM(T, C, sdif2r, c2c_stockham_dif2r_plan<C>)                                                                      \
    LIM(T, C, sdif2i, c2c_stockham_dif2i_plan<C>)                                                                      \
    LIM(T, C, sdif3, c2c_stockham_dif3_plan<C>)                                                                        \
    LIM(T, C, sdif4, c2c_stockham_dif4_plan<C>)                                                                        \
    LIM(T, C, sdif5, c2c_stockham_dif5_plan<C>)                                                                        \
    LIM(T, C, sdif8, c2c_stockham_dif8_plan<C>)                                                                        \
    LIM(T, C, sdit4, c2c_stockham_dit4_plan<C>)                                                                        \
    EACH(T, C, rfft, rfft_plan<F, C>)                                                                                  \
    HARNESS(h_ref_plan_##T) { refused<C, fft_plan<C>>(b); }                                                               \
    HARNESS(h_ref_dit2_v1_##T) { refused<C, dit2<C, kernel::c2c_dit2_v1>>(b); }                                           \
    HARNESS(h_ref_rfft_##T) { refused<C, rfft_plan<F, C>>(b); }

#define CPX(T, C)                                                                                                     \
    HARNESS(h_dftsize_##T) { dftsize<dft_plan<C>>(b); }                                                                \
    HARNESS(h_oladd_##T) { overlap<neo::convolution::overlap_add<C>>(b); }                                             \
    HARNESS(h_olsave_##T) { overlap<neo::convolution::overlap_save<C>>(b); }

#define REAL(T, F)                                                                                                     \
    EACH(T, F, split, split_fft_plan<F>)                                                                               \
    EACH(T, F, dct2, fallback_dct2_plan<F>)                                                                                     \
    EACH(T, F, xrfft, experimental::rfft_plan<F>)                                                                      \
    EACH(T, F, xdit2, experimental::c2c_dit2_plan<F>)                                                                  \
    HARNESS(h_fftconv_##T) { fftconv<F>(b); }

using cf = std::complex<float>;
using cd = std::complex<double>;
using nf = neo::complex64;
ALL(cf, cf, float)
ALL(cd, cd, double)
ALL(nf, nf, float)
CPX(cf, cf)
CPX(cd, cd)
REAL(f, float)
REAL(d, double)
