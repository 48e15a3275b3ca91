#include "common.hpp"

#include <neo/algorithm.hpp>
#include <neo/complex.hpp>

// p: n, variant: 0 out of place, 1 out aliases z, 2 out aliases x, 3 strided
// b: x, y, z, out
template<typename T>
static void run_ma(std::int64_t const* p, void** b)
{
    auto const n = static_cast<std::size_t>(p[0]);
    if (p[1] == 3) {
        neo::multiply_add(vh::svec<T>(b[0], n, 2), vh::svec<T>(b[1], n, 2), vh::svec<T>(b[2], n, 2), vh::svec<T>(b[3], n, 2));
        return;
    }
    auto* o = p[1] == 1 ? b[2] : p[1] == 2 ? b[0] : b[3];
    neo::multiply_add(vh::vec<T>(b[0], n), vh::vec<T>(b[1], n), vh::vec<T>(b[2], n), vh::vec<T>(o, n));
}
HARNESS(h_ma_f) { run_ma<float>(p, b); }
HARNESS(h_ma_d) { run_ma<double>(p, b); }
HARNESS(h_ma_cf) { run_ma<std::complex<float>>(p, b); }
HARNESS(h_ma_cd) { run_ma<std::complex<double>>(p, b); }
HARNESS(h_ma_nf) { run_ma<neo::scalar_complex<float>>(p, b); }
HARNESS(h_ma_nd) { run_ma<neo::scalar_complex<double>>(p, b); }

// split: b: xre, xim, yre, yim, zre, zim, ore, oim
template<typename T>
static void run_split(std::int64_t const* p, void** b)
{
    auto const n = static_cast<std::size_t>(p[0]);
    auto sc      = [&](int i) { return neo::split_complex{vh::vec<T>(b[i], n), vh::vec<T>(b[i + 1], n)}; };
    auto ss      = [&](int i) { return neo::split_complex{vh::svec<T>(b[i], n, 2), vh::svec<T>(b[i + 1], n, 2)}; };
    if (p[1] == 3) { neo::multiply_add(ss(0), ss(2), ss(4), ss(6)); return; }
    neo::multiply_add(sc(0), sc(2), sc(4), sc(p[1] == 1 ? 4 : p[1] == 2 ? 0 : 6));
}
HARNESS(h_mas_f) { run_split<float>(p, b); }
HARNESS(h_mas_d) { run_split<double>(p, b); }
