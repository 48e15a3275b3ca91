// The radix-2 kernels on SIMD batches: every lane is an independent transform.
#include "common.hpp"

#include <neo/complex.hpp>
#include <neo/fft.hpp>

#if defined(NEO_HAS_XSIMD)
    #include <neo/config/xsimd.hpp>

// p: order, backward ; b: x as [n][re lanes..., im lanes...]
template<typename F, typename Kernel>
static void run(std::int64_t const* p, void** b)
{
    using S = std::complex<F>;
    using C = xsimd::batch<S>;
    using R = typename C::real_batch;
    auto const n   = std::size_t(1) << p[0];
    auto const dir = p[1] != 0 ? neo::fft::direction::backward : neo::fft::direction::forward;
    auto tw        = neo::fft::make_twiddle_lut_radix2<S>(n, dir);
    auto w         = stdex::mdarray<C, stdex::dextents<std::size_t, 1>>{tw.extents()};
    for (std::size_t i = 0; i < w.extent(0); ++i) {
        w(i) = C{R::broadcast(tw(i).real()), R::broadcast(tw(i).imag())};
    }
    auto buf = stdex::mdarray<C, stdex::dextents<std::size_t, 1>>{n};
    auto* io = static_cast<F*>(b[0]);
    for (std::size_t i = 0; i < n; ++i) {
        buf(i) = C{R::load_unaligned(io + i * 2 * R::size), R::load_unaligned(io + i * 2 * R::size + R::size)};
    }
    auto x = buf.to_mdspan();
    neo::fft::bitrevorder(x);
    Kernel{}(x, w.to_mdspan());
    for (std::size_t i = 0; i < n; ++i) {
        buf(i).real().store_unaligned(io + i * 2 * R::size);
        buf(i).imag().store_unaligned(io + i * 2 * R::size + R::size);
    }
    static_cast<std::int64_t*>(b[1])[0] = R::size;
}
    #define K(v)                                                                                                       \
        HARNESS(h_xs_v##v##_f) { run<float, neo::fft::kernel::c2c_dit2_v##v>(p, b); }                                  \
        HARNESS(h_xs_v##v##_d) { run<double, neo::fft::kernel::c2c_dit2_v##v>(p, b); }
K(1) K(2) K(3) K(4)
#endif
