#include "ints.hpp"

FOR_U(H_CEIL)
FOR_ALL(H_NEXT)

#define H_LOG2(T, n)                                                                                                   \
    HARNESS(h_log2_##n) { OUT(T, 0) = neo::bit_log2(IN(T, 0)); }
FOR_U(H_LOG2)

#define H_SIZE(T, n)                                                                                                   \
    HARNESS(h_size_##n) { OUT(T, 0) = neo::fft::size(IN(T, 0)); }
FOR_ALL(H_SIZE)

#define H_IDIV(T, n)                                                                                                   \
    HARNESS(h_idiv_##n) { OUT(T, 0) = neo::idiv(IN(T, 0), IN(T, 1)); }
FOR_ALL(H_IDIV)

#define H_PAR(T, n)                                                                                                    \
    HARNESS(h_par_##n)                                                                                                 \
    {                                                                                                                  \
        static_cast<std::uint8_t*>(b[1])[0] = neo::is_even(IN(T, 0)) ? 1 : 0;                                          \
        static_cast<std::uint8_t*>(b[1])[1] = neo::is_odd(IN(T, 0)) ? 1 : 0;                                           \
    }
FOR_ALL(H_PAR)

// base symbolic, exponent p[0]
#define H_POW(T, n)                                                                                                    \
    HARNESS(h_pow_##n) { OUT(T, 0) = neo::ipow(IN(T, 0), static_cast<T>(p[0])); }
FOR_ALL(H_POW)

// compile-time base p[0], exponent symbolic
#define H_POWB(T, n)                                                                                                   \
    HARNESS(h_powb_##n)                                                                                                \
    {                                                                                                                  \
        auto const e = static_cast<T>(vh_pick(static_cast<std::int64_t>(IN(T, 0))));                                   \
        switch (p[0]) {                                                                                                \
            case 2: OUT(T, 0) = neo::ipow<T(2)>(e); break;                                                             \
            case 3: OUT(T, 0) = neo::ipow<T(3)>(e); break;                                                             \
            case 4: OUT(T, 0) = neo::ipow<T(4)>(e); break;                                                             \
            case 5: OUT(T, 0) = neo::ipow<T(5)>(e); break;                                                             \
            case 7: OUT(T, 0) = neo::ipow<T(7)>(e); break;                                                             \
            case 8: OUT(T, 0) = neo::ipow<T(8)>(e); break;                                                             \
            case 10: OUT(T, 0) = neo::ipow<T(10)>(e); break;                                                           \
            case 16: OUT(T, 0) = neo::ipow<T(16)>(e); break;                                                           \
            case 32: OUT(T, 0) = neo::ipow<T(32)>(e); break;                                                           \
            case 64: OUT(T, 0) = neo::ipow<T(64)>(e); break;                                                           \
        }                                                                                                              \
    }
FOR_ALL(H_POWB)

#include <neo/math/abs.hpp>
#define H_ABS(T, n)                                                                                                    \
    HARNESS(h_abs_##n) { OUT(T, 0) = static_cast<T>(neo::math::abs(IN(T, 0))); }
FOR_ALL(H_ABS)
