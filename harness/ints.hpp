#include "common.hpp"

#include <neo/bit/bit_ceil.hpp>
#include <neo/bit/bit_log2.hpp>
#include <neo/fft/order.hpp>
#include <neo/math/idiv.hpp>
#include <neo/math/ipow.hpp>
#include <neo/math/is_even.hpp>
#include <neo/math/is_odd.hpp>
#include <neo/math/log2.hpp>

#define IN(T, i) (static_cast<T*>(b[0])[i])
#define OUT(T, i) (static_cast<T*>(b[1])[i])

#define FOR_U(X) X(std::uint8_t, u8) X(std::uint16_t, u16) X(std::uint32_t, u32) X(std::uint64_t, u64)
#define FOR_I(X) X(std::int8_t, i8) X(std::int16_t, i16) X(std::int32_t, i32) X(std::int64_t, i64)
#define FOR_ALL(X) FOR_U(X) FOR_I(X)

#define H_CEIL(T, n)                                                                                                   \
    HARNESS(h_ceil_##n) { OUT(T, 0) = neo::bit_ceil(IN(T, 0)); }
#define H_NEXT(T, n)                                                                                                   \
    HARNESS(h_next_##n) { OUT(T, 0) = neo::fft::next_order(IN(T, 0)); }
