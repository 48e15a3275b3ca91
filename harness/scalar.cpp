#include "common.hpp"

#include <neo/fft/rfftfreq.hpp>
#include <neo/math/a_weighting.hpp>
#include <neo/math/fast_math.hpp>
#include <neo/math/log2.hpp>
#include <neo/math/precision.hpp>
#include <neo/unit/decibel.hpp>
#include <neo/unit/mel.hpp>

#include <bit>

#define FOR_F(X) X(float, f) X(double, d)
#define IN(T, i) (static_cast<T*>(b[0])[i])
#define OUT(T, i) (static_cast<T*>(b[1])[i])

#define H_UNIT(T, n)                                                                                                   \
    HARNESS(h_db_##n)                                                                                                  \
    {                                                                                                                  \
        OUT(T, 0) = neo::amplitude_to_db(IN(T, 0), IN(T, 1));                                                          \
        OUT(T, 1) = neo::amplitude_to_db(IN(T, 0));                                                                    \
    }                                                                                                                  \
    HARNESS(h_dbe_##n)                                                                                                 \
    {                                                                                                                  \
        auto const g = static_cast<T>(std::bit_cast<float>(static_cast<std::uint32_t*>(b[0])[0]));                     \
        OUT(T, 0)    = neo::amplitude_to_db<neo::precision::estimate>(g, static_cast<T*>(b[2])[0]);                    \
        OUT(T, 1)    = neo::amplitude_to_db<neo::precision::estimate>(g);                                              \
    }                                                                                                                  \
    HARNESS(h_mel_##n)                                                                                                 \
    {                                                                                                                  \
        OUT(T, 0) = neo::hertz_to_mel(IN(T, 0));                                                                       \
        OUT(T, 1) = neo::mel_to_hertz(neo::hertz_to_mel(IN(T, 0)));                                                    \
    }                                                                                                                  \
    HARNESS(h_hz_##n)                                                                                                  \
    {                                                                                                                  \
        OUT(T, 0) = neo::mel_to_hertz(IN(T, 0));                                                                       \
        OUT(T, 1) = neo::hertz_to_mel(neo::mel_to_hertz(IN(T, 0)));                                                    \
    }                                                                                                                  \
    HARNESS(h_melf_##n) { neo::mel_frequencies(vh::svec<T>(b[1], p[0], p[1]), IN(T, 0), IN(T, 1)); }                   \
    HARNESS(h_aw_##n) { OUT(T, 0) = neo::a_weighting(IN(T, 0)); }                                                      \
    HARNESS(h_log2_##n) { OUT(T, 0) = neo::math::log2(IN(T, 0)); }                                                     \
    HARNESS(h_freq_##n) { OUT(T, 0) = neo::rfftfreq<T>(p[0], p[1], static_cast<double*>(b[0])[0]); }                   \
    HARNESS(h_freqs_##n)                                                                                               \
    {                                                                                                                  \
        auto const* ni = static_cast<std::int32_t*>(b[2]);                                                             \
        OUT(T, 0)      = neo::rfftfreq<T>(ni[0], ni[1], static_cast<double*>(b[0])[0]);                                \
    }                                                                                                                  \
    HARNESS(h_freqv_##n) { neo::rfftfreq(vh::svec<T>(b[1], p[0], p[1]), static_cast<double*>(b[0])[0]); }
FOR_F(H_UNIT)

// argument given by its bits
HARNESS(h_flog2) { OUT(float, 0) = neo::fast_log2(std::bit_cast<float>(static_cast<std::uint32_t*>(b[0])[0])); }
HARNESS(h_flog10) { OUT(float, 0) = neo::fast_log10(std::bit_cast<float>(static_cast<std::uint32_t*>(b[0])[0])); }
