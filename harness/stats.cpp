#include "common.hpp"

#include <neo/algorithm.hpp>
#include <neo/complex.hpp>
#include <neo/convolution.hpp>

// vector (p[1] == 0) or matrix p[0] x p[1], row or column major by p[2]
template<typename T, typename Fn>
static void with(std::int64_t const* p, void* q, Fn fn)
{
    auto const n = static_cast<std::size_t>(p[0]);
    auto const m = static_cast<std::size_t>(p[1]);
    if (p[2] == 3) {
        fn(vh::svec<T>(q, n, 2));
    } else if (p[2] == 0) {
        fn(vh::vec<T>(q, n));
    } else if (p[2] == 1) {
        fn(vh::mat<T>(q, n, m));
    } else {
        fn(stdex::mdspan<T, stdex::dextents<std::size_t, 2>, stdex::layout_left>{static_cast<T*>(q), n, m});
    }
}
template<typename T>
static void put(std::optional<T> v, void* q, std::int64_t* has, int k)
{
    has[k] = v.has_value() ? 1 : 0;
    if (v.has_value()) { static_cast<T*>(q)[k] = *v; }
}
template<typename T>
static void run_stats(std::int64_t const* p, void** b)
{
    auto* has = static_cast<std::int64_t*>(b[2]);
    with<T>(p, b[0], [&](auto x) {
        if (p[3] == 0) { put<T>(neo::mean(x), b[1], has, 0); }
        if (p[3] == 1) { put<T>(neo::variance(x), b[1], has, 0); }
        if (p[3] == 2) { put<T>(neo::standard_deviation(x), b[1], has, 0); }
    });
}
HARNESS(h_stats_f) { run_stats<float>(p, b); }
HARNESS(h_stats_d) { run_stats<double>(p, b); }

template<typename T, typename F>
static void run_mse(std::int64_t const* p, void** b)
{
    with<T>(p, b[0], [&](auto x) {
        auto y = decltype(x){static_cast<T*>(b[1]), x.mapping()};
        static_cast<F*>(b[2])[0] = p[3] == 0 ? neo::mean_squared_error(x, y) : neo::root_mean_squared_error(x, y);
    });
}
// operands of different layout (p[3] < 2: row/column major) or element type; p[3] & 1: root
template<typename L, typename R, typename F>
static void run_mse_mixed(std::int64_t const* p, void** b)
{
    auto const n = static_cast<std::size_t>(p[0]);
    auto const m = static_cast<std::size_t>(p[1]);
    auto run     = [&](auto x, auto y) { static_cast<F*>(b[2])[0] = p[3] == 0 ? neo::mean_squared_error(x, y) : neo::root_mean_squared_error(x, y); };
    if (p[2] == 0) { run(vh::vec<L>(b[0], n), vh::svec<R>(b[1], n, 2)); }
    if (p[2] == 1) {
        run(vh::mat<L>(b[0], n, m), stdex::mdspan<R, stdex::dextents<std::size_t, 2>, stdex::layout_left>{static_cast<R*>(b[1]), n, m});
    }
}
HARNESS(h_mse_xf) { run_mse_mixed<float, float, float>(p, b); }
HARNESS(h_mse_xfd) { run_mse_mixed<float, double, double>(p, b); }
HARNESS(h_mse_xdf) { run_mse_mixed<double, float, double>(p, b); }

HARNESS(h_mse_f) { run_mse<float, float>(p, b); }
HARNESS(h_mse_d) { run_mse<double, double>(p, b); }
HARNESS(h_mse_cf) { run_mse<std::complex<float>, float>(p, b); }
HARNESS(h_mse_cd) { run_mse<std::complex<double>, double>(p, b); }

template<typename T>
static void run_norm(std::int64_t const* p, void** b)
{
    with<T>(p, b[0], [&](auto x) {
        auto* o = static_cast<T*>(b[1]);
        if (p[3] == 0) { o[0] = neo::normalize_peak_factor(x); neo::normalize_peak(x); }
        if (p[3] == 1) { o[0] = neo::normalize_energy_factor(x); neo::normalize_energy(x); }
        if (p[3] == 2) { o[0] = T(0); neo::convolution::normalize_impulse(x); }
    });
}
HARNESS(h_norm_f) { run_norm<float>(p, b); }
HARNESS(h_norm_d) { run_norm<double>(p, b); }
