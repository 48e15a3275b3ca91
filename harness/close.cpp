#include "common.hpp"

#include <neo/algorithm.hpp>
#include <neo/complex.hpp>
#include <neo/math/float_equality.hpp>

template<typename T, typename Fn>
static void with(std::int64_t const* p, void** b, Fn fn)
{
    auto const n = static_cast<std::size_t>(p[0]);
    auto const m = static_cast<std::size_t>(p[1]);
    if (p[2] == 3) {
        fn(vh::svec<T>(b[0], n, 2), vh::svec<T>(b[1], n, 2));
    } else if (p[2] == 0) {
        fn(vh::vec<T>(b[0], n), vh::vec<T>(b[1], n));
    } else if (p[2] == 1) {
        fn(vh::mat<T>(b[0], n, m), vh::mat<T>(b[1], n, m));
    } else {
        auto mk = [&](int i) { return stdex::mdspan<T, stdex::dextents<std::size_t, 2>, stdex::layout_left>{static_cast<T*>(b[i]), n, m}; };
        fn(mk(0), mk(1));
    }
}
// b: x, y, tolerance, result
template<typename T, typename F>
static void run_close(std::int64_t const* p, void** b)
{
    with<T>(p, b, [&](auto x, auto y) {
        auto* r = static_cast<std::int32_t*>(b[3]);
        r[0]    = p[3] == 0 ? neo::allclose(x, y) : neo::allclose(x, y, static_cast<F*>(b[2])[0]);
    });
}
HARNESS(h_close_f) { run_close<float, float>(p, b); }
HARNESS(h_close_d) { run_close<double, double>(p, b); }
HARNESS(h_close_cf) { run_close<std::complex<float>, float>(p, b); }
HARNESS(h_close_cd) { run_close<std::complex<double>, double>(p, b); }

HARNESS(h_match_i)
{
    using U = std::int32_t;
    with<U>(p, b, [&](auto x, auto y) {
        auto* r = static_cast<U*>(b[3]);
        r[0]    = neo::allmatch(x, y, [](auto a, auto c) { return a < c; });
        r[1]    = neo::allmatch(x, [](auto a) { return a > 7; });
    });
}
template<typename T>
static void run_exact(void** b)
{
    static_cast<std::int32_t*>(b[3])[0] = neo::float_equality::exact(static_cast<T*>(b[0])[0], static_cast<T*>(b[1])[0]);
}
HARNESS(h_exact_f) { run_exact<float>(b); }
HARNESS(h_exact_d) { run_exact<double>(b); }
HARNESS(h_exact_cf) { run_exact<std::complex<float>>(b); }
HARNESS(h_exact_cd) { run_exact<std::complex<double>>(b); }
