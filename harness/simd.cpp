#include "common.hpp"

#include <neo/simd.hpp>
#include <neo/complex.hpp>

// b: x, y, out; p: op (0 add, 1 sub, 2 mul, 3 load/store, 4 broadcast x[0], 5 register round trip)
template<typename V>
static void run_batch(std::int64_t const* p, void** b)
{
    using T = typename V::value_type;
    using R = typename V::register_type;
    auto* o = static_cast<T*>(b[2]);
    auto const x = V::load_unaligned(static_cast<T*>(b[0]));
    auto const y = V::load_unaligned(static_cast<T*>(b[1]));
    if (p[0] == 0) { (x + y).store_unaligned(o); }
    if (p[0] == 1) { (x - y).store_unaligned(o); }
    if (p[0] == 2) { (x * y).store_unaligned(o); }
    if (p[0] == 3) { x.store_unaligned(o); }
    if (p[0] == 4) { V::broadcast(static_cast<T*>(b[0])[0]).store_unaligned(o); }
    if (p[0] == 5) { V{static_cast<R>(y)}.store_unaligned(o); }
}
// complex numbers whose parts are SIMD vectors; b: x (re lanes, im lanes), y, out
template<typename V>
static void run_cbatch(std::int64_t const* p, void** b)
{
    using T = typename V::value_type;
    using C = neo::scalar_complex<V>;
    auto* o = static_cast<T*>(b[2]);
    auto ld = [](void* q) {
        auto* f = static_cast<T*>(q);
        return C{V::load_unaligned(f), V::load_unaligned(f + V::size)};
    };
    auto const x = ld(b[0]);
    auto const y = ld(b[1]);
    auto z       = x;
    if (p[0] == 0) { z = x + y; }
    if (p[0] == 1) { z = x - y; }
    if (p[0] == 2) { z = x * y; }
    if (p[0] == 3) { z += y; }
    if (p[0] == 4) { z -= y; }
    if (p[0] == 5) { z *= y; }
    z.real().store_unaligned(o);
    z.imag().store_unaligned(o + V::size);
}
#define VEC(N)                              \
    HARNESS(h_##N) { run_batch<neo::N>(p, b); } \
    HARNESS(h_c_##N) { run_cbatch<neo::N>(p, b); }
VEC(float32x4)
VEC(float64x2)
#if defined(NEO_HAS_ISA_AVX)
VEC(float32x8)
VEC(float64x4)
#endif
#if defined(NEO_HAS_ISA_AVX2) and defined(NEO_HAS_ISA_F16C) and defined(NEO_HAS_BUILTIN_FLOAT16)
VEC(float16x8)
VEC(float16x16)
#endif
#if defined(NEO_HAS_ISA_AVX512F)
VEC(float32x16)
VEC(float64x8)
#endif
VEC(float32x)
VEC(float64x)
