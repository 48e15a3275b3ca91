#include "common.hpp"

#include <neo/algorithm.hpp>
#include <neo/container.hpp>

using U  = std::uint32_t;
using IX = std::uint32_t;

template<typename M>
static void dump(M const& m, std::size_t R, std::size_t C, U* out, std::int64_t* info)
{
    for (std::size_t r = 0; r < R; ++r) {
        for (std::size_t c = 0; c < C; ++c) { out[r * C + c] = m(r, c); }
    }
    info[0] = static_cast<std::int64_t>(m.rows());
    info[1] = static_cast<std::int64_t>(m.columns());
    info[2] = static_cast<std::int64_t>(m.size());
    info[3] = static_cast<std::int64_t>(m.extent(0));
    info[4] = static_cast<std::int64_t>(m.extent(1));
}

// The three containers are the usual compressed-sparse-row representation: offsets non-decreasing from 0 to the number of
// entries, columns strictly increasing within a row, one value per entry. out2: the matrix as read from them alone.
template<typename M>
static void layout(M const& m, std::size_t R, std::size_t C, U* out2, std::int64_t* info)
{
    auto const& rc = m.row_container();
    auto const& cc = m.column_container();
    auto const& vc = m.value_container();
    auto bad       = std::int64_t(0);
    for (std::size_t i = 0; i < R * C; ++i) { out2[i] = U(0); }
    info[6] = static_cast<std::int64_t>(vc.size());
    if (rc.size() != R + 1) { bad |= 1; }
    if (cc.size() != vc.size()) { bad |= 2; }
    if (bad == 0) {
        if (rc[0] != 0) { bad |= 4; }
        if (static_cast<std::size_t>(rc[R]) != vc.size()) { bad |= 8; }
        for (std::size_t r = 0; r < R and bad == 0; ++r) {
            if (rc[r] > rc[r + 1] or static_cast<std::size_t>(rc[r + 1]) > vc.size()) {
                bad |= 16;
                break;
            }
            for (auto i = static_cast<std::size_t>(rc[r]); i < static_cast<std::size_t>(rc[r + 1]); ++i) {
                if (static_cast<std::size_t>(cc[i]) >= C) {
                    bad |= 32;
                    break;
                }
                if (i > static_cast<std::size_t>(rc[r]) and cc[i] <= cc[i - 1]) { bad |= 64; }
                out2[r * C + static_cast<std::size_t>(cc[i])] = vc[i];
            }
        }
    }
    info[7] = bad;
    auto const e = m.extents();
    info[8] = static_cast<std::int64_t>(e.extent(0));
    info[9] = static_cast<std::int64_t>(e.extent(1));
}

template<typename M>
static void rowops(M const& m, std::size_t R, std::size_t C, U* x, U* z, U* o1, U* o2)
{
    for (std::size_t r = 0; r < R; ++r) {
        neo::multiply_add(vh::vec<U>(x, C), m, r, vh::vec<U>(z, C), vh::vec<U>(o1 + r * C, C));
        for (std::size_t c = 0; c < C; ++c) { o2[r * C + c] = z[c]; }
        neo::multiply_add(vh::vec<U>(x, C), m, r, vh::vec<U>(o2 + r * C, C), vh::vec<U>(o2 + r * C, C));
    }
}

// b: rows, cols, vals, out, x, z, o1, o2, info, out2
template<typename M>
static void run_insert(std::int64_t const* p, void** b)
{
    auto const R = static_cast<std::size_t>(p[0]);
    auto const C = static_cast<std::size_t>(p[1]);
    auto m       = M{R, C};
    auto* rows   = static_cast<U*>(b[0]);
    auto* cols   = static_cast<U*>(b[1]);
    auto* vals   = static_cast<U*>(b[2]);
    for (std::int64_t k = 0; k < p[2]; ++k) {
        auto const r = vh_pick(rows[k]);
        auto const c = vh_pick(cols[k]);
        m.insert(r, c, vals[k]);
    }
    dump(m, R, C, static_cast<U*>(b[3]), static_cast<std::int64_t*>(b[8]));
    layout(m, R, C, static_cast<U*>(b[9]), static_cast<std::int64_t*>(b[8]));
    rowops(m, R, C, static_cast<U*>(b[4]), static_cast<U*>(b[5]), static_cast<U*>(b[6]), static_cast<U*>(b[7]));
}
HARNESS(h_csr_insert) { run_insert<neo::csr_matrix<U>>(p, b); }
HARNESS(h_csr_insert32) { run_insert<neo::csr_matrix<U, std::uint32_t>>(p, b); }

// b: dense, keep, -, out, x, z, o1, o2, info, out2
HARNESS(h_csr_dense)
{
    auto const R = static_cast<std::size_t>(p[0]);
    auto const C = static_cast<std::size_t>(p[1]);
    auto const* keep  = static_cast<U*>(b[1]);
    auto* dense  = static_cast<U*>(b[0]);
    auto bad     = std::int64_t(0);
    auto kept = std::vector<char>(R * C);
    for (std::size_t i = 0; i < R * C; ++i) { kept[i] = vh_pick(keep[i] > U(5)) != 0 ? 1 : 0; }
    auto const m = neo::csr_matrix<U>{vh::mat<U>(b[0], R, C), [&](auto r, auto c, auto v) {
        if (not(v == dense[r * C + c])) { bad = 1; }
        return kept[r * C + c] != 0;
    }};
    dump(m, R, C, static_cast<U*>(b[3]), static_cast<std::int64_t*>(b[8]));
    static_cast<std::int64_t*>(b[8])[5] = bad;
    layout(m, R, C, static_cast<U*>(b[9]), static_cast<std::int64_t*>(b[8]));
    rowops(m, R, C, static_cast<U*>(b[4]), static_cast<U*>(b[5]), static_cast<U*>(b[6]), static_cast<U*>(b[7]));
}
