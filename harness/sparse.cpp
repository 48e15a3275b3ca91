#include "conv.hpp"

namespace nc = neo::convolution;

// p: L, B, blocks, pattern, history (bits as in conv.hpp, 32: same block size before) ; b[0] h, b[1] x, b[2] sparse output (all kept) or sparse minus dense
template<typename Sparse, typename Dense, typename C>
static void run_sparse(std::int64_t const* p, void** b)
{
    using F      = typename C::value_type;
    auto const L = static_cast<std::size_t>(p[0]);
    auto const B = static_cast<std::size_t>(p[1]);
    auto const w = static_cast<std::uint64_t>(p[3]);
    auto keep    = [w](std::uint64_t r, std::uint64_t c) -> bool {
        switch (w) {
            case 0: return true;
            case 1: return false;
            case 2: return (r + c) % 2 == 0;
            case 3: return c % 3 == 1;
            case 4: return r % 2 == 1;
            case 5: return r == 0 and c == 0;
            default: return ((r * 2654435761U + c * 40503U + w * 97U) >> 4U) % 3 != 0;
        }
    };
    auto parts = nc::uniform_partition(vh::mat<F>(b[0], 1, L), B);
    auto m     = stdex::submdspan(parts.to_mdspan(), 0, stdex::full_extent, stdex::full_extent);
    auto s     = Sparse{};
    auto every = [](auto r, auto c, auto) { return (r + c) % 3 != 1; };
    auto second = Sparse{};
    if ((p[4] & 35) != 0) { other_life<F>(s, (p[4] & 1) != 0 ? 2 * B : (p[4] & 2) != 0 ? B / 2 : B, 6 * B, true, every); }
    if ((p[4] & 4) != 0) { other_life<F>(second, 2 * B, 2 * B, true, every); }
    s.filter(m, [&](auto r, auto c, auto) { return keep(r, c); });
    auto z = stdex::mdarray<C, stdex::dextents<std::size_t, 2>>{m.extent(0), m.extent(1)};
    for (std::size_t r = 0; r < m.extent(0); ++r) {
        for (std::size_t c = 0; c < m.extent(1); ++c) { z(r, c) = keep(r, c) ? C(m(r, c)) : C{}; }
    }
    auto d = Dense{};
    d.filter(z.to_mdspan());
    auto* in  = static_cast<F*>(b[1]);
    auto* out = static_cast<F*>(b[2]);
    auto buf  = stdex::mdarray<F, stdex::dextents<std::size_t, 1>>{B};
    for (std::int64_t k = 0; k < p[2]; ++k) {
        if ((p[4] & 4) != 0) { other_life<F>(second, 2 * B, 2 * B, false, every); }
        if ((p[4] & 8) != 0 and k == 1) {
            auto copy = s;
            other_life<F>(s, B, 2 * B, false, every);
            s = std::move(copy);
        }
        for (std::size_t i = 0; i < B; ++i) { out[i] = buf(i) = in[i]; }
        s(vh::vec<F>(out, B));
        if (w != 0) {
            d(buf.to_mdspan());
            for (std::size_t i = 0; i < B; ++i) { out[i] -= buf(i); }
        }
        in += B;
        out += B;
    }
}
using cf = std::complex<float>;
using cd = std::complex<double>;
HARNESS(h_sp_upols_f) { run_sparse<nc::sparse_upols_convolver<cf>, nc::upols_convolver<cf>, cf>(p, b); }
HARNESS(h_sp_upols_d) { run_sparse<nc::sparse_upols_convolver<cd>, nc::upols_convolver<cd>, cd>(p, b); }
HARNESS(h_sp_upola_f) { run_sparse<nc::sparse_upola_convolver<cf>, nc::upola_convolver<cf>, cf>(p, b); }
HARNESS(h_sp_upola_d) { run_sparse<nc::sparse_upola_convolver<cd>, nc::upola_convolver<cd>, cd>(p, b); }
