#include "common.hpp"

#include <neo/convolution.hpp>

#include <vector>

// p: max segments, steps; b[0]: number of segments (i64), b[1] reset flag per step, b[2] out: per step max+1 slots
template<typename I>
static void run_fdl(std::int64_t const* p, void** b)
{
    auto const maxn = p[0];
    auto const n    = vh_pick(*static_cast<std::int64_t*>(b[0]));
    auto idx        = neo::convolution::fdl_index<I>{static_cast<I>(n)};
    auto* rst       = static_cast<std::int64_t*>(b[1]);
    auto* out       = static_cast<std::int64_t*>(b[2]);
    auto* cnt       = static_cast<std::int64_t*>(b[3]);
    // model of a delay line: which block (by number) every slot holds
    std::int64_t slot[16];
    for (auto& s : slot) { s = -1; }
    for (std::int64_t t = 0; t < p[1]; ++t) {
        if (vh_pick(rst[t]) != 0) {
            idx.reset();
            for (auto& s : slot) { s = -1; }
        }
        for (std::int64_t k = 0; k < maxn; ++k) { out[t * maxn + k] = -2; }
        std::int64_t inserts = 0;
        std::int64_t calls   = 0;
        bool bad             = false;
        bool early           = false;
        idx([&](auto w) {
                ++inserts;
                if (std::int64_t(w) < 0 or std::int64_t(w) >= n) { bad = true; return; }
                slot[w] = t;
            },
            [&](auto s, auto f) {
                ++calls;
                if (inserts != 1) { early = true; }
                if (std::int64_t(s) < 0 or std::int64_t(s) >= n or std::int64_t(f) < 0 or std::int64_t(f) >= n) { bad = true; return; }
                out[t * maxn + f] = slot[s];  // the block that is multiplied with partition f
            });
        cnt[t] = (bad or early) ? -1 : inserts * 100 + calls;
    }
}
// p: steps, first step to look at; b[0]: number of segments (i64), b[1]: step before which the schedule is reset, b[2] out: 0 if
// every step looked at pairs every partition with the block of its age (only blocks since the reset count)
template<typename I>
static void run_fdl_big(std::int64_t const* p, void** b)
{
    auto const n     = vh_pick(*static_cast<std::int64_t*>(b[0]));
    auto const reset = vh_pick(*static_cast<std::int64_t*>(b[1]));
    auto idx         = neo::convolution::fdl_index<I>{static_cast<I>(n)};
    auto wrong       = std::int64_t(0);
    auto start       = std::int64_t(0);
    auto slot        = std::vector<std::int64_t>(static_cast<std::size_t>(n), -1);
    auto seen        = std::vector<std::int64_t>(static_cast<std::size_t>(n), -1);
    for (std::int64_t t = 0; t < p[0]; ++t) {
        if (t == reset) {
            idx.reset();
            start = t;
            for (auto& s : slot) { s = -1; }
        }
        std::int64_t inserts = 0;
        std::int64_t calls   = 0;
        if (t < p[1]) {
            idx([&](auto w) {
                    ++inserts;
                    if (std::int64_t(w) < 0 or std::int64_t(w) >= n) { wrong |= 1; return; }
                    slot[w] = t;
                },
                [](auto, auto) {});
            if (inserts != 1) { wrong |= 16; }
            continue;
        }
        idx([&](auto w) {
                ++inserts;
                if (std::int64_t(w) < 0 or std::int64_t(w) >= n) { wrong |= 1; return; }
                slot[w] = t;
            },
            [&](auto s, auto f) {
                ++calls;
                if (inserts != 1) { wrong |= 2; }
                if (std::int64_t(s) < 0 or std::int64_t(s) >= n or std::int64_t(f) < 0 or std::int64_t(f) >= n) { wrong |= 1; return; }
                if (seen[f] == t) { wrong |= 4; }
                seen[f]         = t;
                auto const want = t - std::int64_t(f) >= start ? t - std::int64_t(f) : std::int64_t(-1);
                if (slot[s] != want) { wrong |= 8; }
            });
        if (inserts != 1 or calls != n) { wrong |= 16; }
    }
    static_cast<std::int64_t*>(b[2])[0] = wrong;
}
HARNESS(h_fdlbig_sz) { run_fdl_big<std::size_t>(p, b); }
HARNESS(h_fdlbig_i32) { run_fdl_big<std::int32_t>(p, b); }
HARNESS(h_fdlbig_u16) { run_fdl_big<std::uint16_t>(p, b); }
HARNESS(h_fdlbig_u8) { run_fdl_big<std::uint8_t>(p, b); }

HARNESS(h_fdl_sz) { run_fdl<std::size_t>(p, b); }
HARNESS(h_fdl_i32) { run_fdl<std::int32_t>(p, b); }
HARNESS(h_fdl_u8) { run_fdl<std::uint8_t>(p, b); }
