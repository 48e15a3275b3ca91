#include "common.hpp"

#include <neo/fixed_point.hpp>

#include <span>
#include <utility>

template<typename Int, int F>
using fx = neo::fixed_point<Int, F>;

// b: x, y (stored values), results (stored values), comparisons
template<typename Int, int F>
static void run_scalar(void** b)
{
    using T      = fx<Int, F>;
    auto const x = T{neo::underlying_value, static_cast<Int*>(b[0])[0]};
    auto const y = T{neo::underlying_value, static_cast<Int*>(b[1])[0]};
    auto* r      = static_cast<Int*>(b[2]);
    auto* c      = static_cast<std::int32_t*>(b[3]);
    r[0]         = (x + y).value();
    r[1]         = (x - y).value();
    r[2]         = (x * y).value();
    r[3]         = (-x).value();
    r[4]         = (+x).value();
    r[5]         = x.value();
    c[0]         = x == y;
    c[1]         = x != y;
    c[2]         = x < y;
    c[3]         = x <= y;
    c[4]         = x > y;
    c[5]         = x >= y;
}
// b: float, double, stored value; results of the conversions
template<typename Int, int F>
static void run_conv(void** b)
{
    using T = fx<Int, F>;
    static_cast<Int*>(b[3])[0] = T{static_cast<float*>(b[0])[0]}.value();
    static_cast<Int*>(b[3])[1] = T{static_cast<double*>(b[1])[0]}.value();
    auto const x = T{neo::underlying_value, static_cast<Int*>(b[2])[0]};
    static_cast<float*>(b[4])[0]  = to_float(x);
    static_cast<float*>(b[4])[1]  = static_cast<float>(x);
    static_cast<double*>(b[5])[0] = to_double(x);
    static_cast<double*>(b[5])[1] = static_cast<double>(x);
}
// p: n, alias (0 none, 1 out == lhs, 2 out == rhs, 3 lhs == rhs), op
template<typename Int, int F>
static void run_span(std::int64_t const* p, void** b)
{
    using T      = fx<Int, F>;
    auto const n = static_cast<std::size_t>(p[0]);
    auto* x      = static_cast<T*>(b[0]);
    auto* y      = static_cast<T*>(b[p[1] == 3 ? 0 : 1]);
    auto* o      = static_cast<T*>(b[p[1] == 1 ? 0 : p[1] == 2 ? 1 : 2]);
    auto const l = std::span<T const>{x, n};
    auto const r = std::span<T const>{y, n};
    auto const d = std::span<T>{o, n};
    if (p[2] == 0) { neo::add(l, r, d); }
    if (p[2] == 1) { neo::subtract(l, r, d); }
    if (p[2] == 2) { neo::multiply(l, r, d); }
}
template<typename Int, int F, std::size_t N>
static void run_sspan(std::int64_t const* p, void** b)
{
    using T      = fx<Int, F>;
    auto const l = std::span<T const, N>{static_cast<T*>(b[0]), N};
    auto const r = std::span<T const, N>{static_cast<T*>(b[1]), N};
    auto const d = std::span<T, N>{static_cast<T*>(b[2]), N};
    if (p[2] == 0) { neo::add(l, r, d); }
    if (p[2] == 1) { neo::subtract(l, r, d); }
    if (p[2] == 2) { neo::multiply(l, r, d); }
}
#define ALL(W, F)                                                              \
    HARNESS(h_fx_##W##_##F) { run_scalar<std::int##W##_t, F>(b); }            \
    HARNESS(h_conv_##W##_##F) { run_conv<std::int##W##_t, F>(b); }            \
    HARNESS(h_span_##W##_##F) { run_span<std::int##W##_t, F>(p, b); }
ALL(8, 0) ALL(8, 1) ALL(8, 2) ALL(8, 3) ALL(8, 4) ALL(8, 5) ALL(8, 6) ALL(8, 7)
ALL(16, 0) ALL(16, 1) ALL(16, 4) ALL(16, 7) ALL(16, 8) ALL(16, 9) ALL(16, 10) ALL(16, 11) ALL(16, 12) ALL(16, 13) ALL(16, 14) ALL(16, 15)
HARNESS(h_span_32_15) { run_span<std::int32_t, 15>(p, b); }
HARNESS(h_sspan_8_7) { run_sspan<std::int8_t, 7, 19>(p, b); }
HARNESS(h_sspan_16_15) { run_sspan<std::int16_t, 15, 19>(p, b); }

// b: x, y, out; p: op (0 add, 1 sub, 2 mul, 3 load/store, 4 broadcast x[0])
template<typename V>
static void run_batch(std::int64_t const* p, void** b)
{
    using T = typename V::value_type;
    auto* o = static_cast<T*>(b[2]);
    auto const x = V::load_unaligned(static_cast<T*>(b[0]));
    auto const y = V::load_unaligned(static_cast<T*>(b[1]));
    if (p[0] == 0) { (x + y).store_unaligned(o); }
    if (p[0] == 1) { (x - y).store_unaligned(o); }
    if constexpr (requires { x * y; }) {
        if (p[0] == 2) { (x * y).store_unaligned(o); }
    }
    if (p[0] == 3) { x.store_unaligned(o); }
    if (p[0] == 4) { V::broadcast(static_cast<T*>(b[0])[0]).store_unaligned(o); }
    if (p[0] == 5) {
        using R = typename V::register_type;
        V{static_cast<R>(y)}.store_unaligned(o);
    }
}
HARNESS(h_q7x16) { run_batch<neo::q7x16>(p, b); }
HARNESS(h_q15x8) { run_batch<neo::q15x8>(p, b); }
#if defined(NEO_HAS_ISA_AVX2)
HARNESS(h_q7x32) { run_batch<neo::q7x32>(p, b); }
HARNESS(h_q15x16) { run_batch<neo::q15x16>(p, b); }
#endif
#if defined(NEO_HAS_ISA_AVX512BW)
HARNESS(h_q7x64) { run_batch<neo::q7x64>(p, b); }
HARNESS(h_q15x32) { run_batch<neo::q15x32>(p, b); }
#endif

// b: lhs (re, im), rhs, out
template<typename Q, int Op>
static void run_cx(void** b)
{
    using C      = neo::fixed_point_complex<Q>;
    using I      = typename Q::storage_type;
    auto* l      = static_cast<I*>(b[0]);
    auto* r      = static_cast<I*>(b[1]);
    auto* o      = static_cast<I*>(b[2]);
    auto q       = [](I v) { return Q{neo::underlying_value, v}; };
    auto const x = C{q(l[0]), q(l[1])};
    auto const y = C{q(r[0]), q(r[1])};
    auto z       = C{};
    if constexpr (Op == 0) { z = x + y; }
    if constexpr (Op == 1) { z = x - y; }
    if constexpr (Op == 2) { z = x * y; }
    if constexpr (Op == 3) { z.imag(x.imag()); z.real(y.real()); }
    if constexpr (Op == 4) { z = C{x.imag()}; }
    o[0] = z.real().value();
    o[1] = z.imag().value();
}
HARNESS(h_cx_add_8) { run_cx<neo::q7, 0>(b); }
HARNESS(h_cx_sub_8) { run_cx<neo::q7, 1>(b); }
HARNESS(h_cx_set_8) { run_cx<neo::q7, 3>(b); }
HARNESS(h_cx_re_8) { run_cx<neo::q7, 4>(b); }
HARNESS(h_cx_add_16) { run_cx<neo::q15, 0>(b); }
HARNESS(h_cx_sub_16) { run_cx<neo::q15, 1>(b); }
HARNESS(h_cx_mul_16) { run_cx<neo::q15, 2>(b); }
HARNESS(h_cx_set_16) { run_cx<neo::q15, 3>(b); }
HARNESS(h_cx_re_16) { run_cx<neo::q15, 4>(b); }
