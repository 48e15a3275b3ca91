#include "common.hpp"

#include <neo/algorithm.hpp>
#include <neo/complex.hpp>

// p: rows, cols, layout (0 vector, 1 row major, 2 column major, 3 strided vector), op, alias (0 none, 1 out = x, 2 out = y)
// b: x, y, out
template<typename T, typename Fn>
static void with(std::int64_t const* p, void** b, int i0, int i1, int i2, Fn fn)
{
    auto const n = static_cast<std::size_t>(p[0]);
    auto const m = static_cast<std::size_t>(p[1]);
    if (p[2] == 3) {
        fn(vh::svec<T>(b[i0], n, 2), vh::svec<T>(b[i1], n, 2), vh::svec<T>(b[i2], n, 2));
    } else if (p[2] == 0) {
        fn(vh::vec<T>(b[i0], n), vh::vec<T>(b[i1], n), vh::vec<T>(b[i2], n));
    } else if (p[2] == 1) {
        fn(vh::mat<T>(b[i0], n, m), vh::mat<T>(b[i1], n, m), vh::mat<T>(b[i2], n, m));
    } else if (p[2] == 2) {
        auto mk = [&](int i) { return stdex::mdspan<T, stdex::dextents<std::size_t, 2>, stdex::layout_left>{static_cast<T*>(b[i]), n, m}; };
        fn(mk(i0), mk(i1), mk(i2));
    } else {  // mixed: row major inputs, column major output
        fn(vh::mat<T>(b[i0], n, m), vh::mat<T>(b[i1], n, m),
           stdex::mdspan<T, stdex::dextents<std::size_t, 2>, stdex::layout_left>{static_cast<T*>(b[i2]), n, m});
    }
}
template<typename T, typename S>
static void run_elem(std::int64_t const* p, void** b)
{
    auto const o = p[4] == 1 ? 0 : p[4] == 2 ? 1 : 2;
    with<T>(p, b, 0, 1, o, [&](auto x, auto y, auto out) {
        switch (p[3]) {
            case 0: neo::add(x, y, out); break;
            case 1: neo::multiply(x, y, out); break;
            case 2: neo::copy(x, out); break;
            case 3: neo::scale(static_cast<S*>(b[1])[0], x); break;
            case 4: neo::fill(x, static_cast<T*>(b[1])[0]); break;
            default: break;
        }
    });
}
HARNESS(h_el_f) { run_elem<float, float>(p, b); }
HARNESS(h_el_d) { run_elem<double, double>(p, b); }
HARNESS(h_el_cf) { run_elem<std::complex<float>, float>(p, b); }
HARNESS(h_el_cd) { run_elem<std::complex<double>, double>(p, b); }
HARNESS(h_el_nf) { run_elem<neo::scalar_complex<float>, float>(p, b); }
HARNESS(h_el_nd) { run_elem<neo::scalar_complex<double>, double>(p, b); }

// copy between interleaved and split storage; b: z, re, im
template<typename C, typename F>
static void run_cs(std::int64_t const* p, void** b)
{
    auto const n = static_cast<std::size_t>(p[0]);
    auto s       = neo::split_complex{vh::vec<F>(b[1], n), vh::vec<F>(b[2], n)};
    if (p[1] == 0) { neo::copy(vh::vec<C>(b[0], n), s); } else { neo::copy(s, vh::vec<C>(b[0], n)); }
}
HARNESS(h_cs_cf) { run_cs<std::complex<float>, float>(p, b); }
HARNESS(h_cs_cd) { run_cs<std::complex<double>, double>(p, b); }
HARNESS(h_cs_nf) { run_cs<neo::scalar_complex<float>, float>(p, b); }
HARNESS(h_cs_nd) { run_cs<neo::scalar_complex<double>, double>(p, b); }
