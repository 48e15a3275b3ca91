#include "common.hpp"

#include <neo/complex.hpp>
#include <neo/math/abs.hpp>
#include <neo/math/conj.hpp>
#include <neo/math/imag.hpp>
#include <neo/math/polar.hpp>
#include <neo/math/real.hpp>

// a user's complex type whose components are found by argument dependent lookup only
namespace user {
template<typename T>
struct cx
{
    T re, im;
};
template<typename T>
auto real(cx<T> const& z) -> T
{
    return z.re;
}
template<typename T>
auto imag(cx<T> const& z) -> T
{
    return z.im;
}
template<typename T>
auto conj(cx<T> const& z) -> cx<T>
{
    return {z.re, -z.im};
}
// ... and one with members
template<typename T>
struct mx
{
    T re, im;
    auto real() const -> T { return re; }
    auto imag() const -> T { return im; }
    auto conj() const -> mx { return {re, -im}; }
};
}  // namespace user

// b[0]: z, w (re im re im), s; b[1]: results
template<typename T, typename C>
static void ring(std::int64_t const*, void** b)
{
    auto const* x = static_cast<T*>(b[0]);
    auto* o       = static_cast<T*>(b[1]);
    auto const z = C{x[0], x[1]}, w = C{x[2], x[3]};
    auto const s = x[4];
    auto put     = [&o](C v) {
        *o++ = v.real();
        *o++ = v.imag();
    };
    put(z + w);
    put(z - w);
    put(z * w);
    put(-z);
    put(+z);
    put(neo::math::conj(z));
    auto t = z;
    put(t += w);
    put(t);
    t = z;
    put(t -= w);
    put(t);
    t = z;
    put(t *= w);
    put(t);
    t = z;
    put(t *= s);
    put(t);
    t = z;
    t.real(s);
    put(t);
    t = z;
    t.imag(s);
    put(t);
    put(C{neo::math::real(z), neo::math::imag(z)});
    put(C{s});
    put(C{});
    // a product with itself as both operands
    t = z;
    t *= t;
    put(t);
    t = z;
    t += t;
    put(t);
    t = z;
    t -= t;
    put(t);
}
template<typename T>
static void extra(std::int64_t const*, void** b)
{
    using C       = neo::scalar_complex<T>;
    auto const* x = static_cast<T*>(b[0]);
    auto* o       = static_cast<T*>(b[1]);
    auto const z  = C{x[0], x[1]};
    o[0]          = neo::get<0>(z);
    o[1]          = neo::get<1>(z);
    auto const [re, im] = z;
    o[2] = re;
    o[3] = im;
    o[4] = static_cast<T>(neo::math::real(x[4]));
    auto const u = user::cx<T>{x[0], x[1]};
    auto const c = neo::math::conj(u);
    auto const m = user::mx<T>{x[2], x[3]};
    auto const d = neo::math::conj(m);
    o[5]  = neo::math::real(u);
    o[6]  = neo::math::imag(u);
    o[7]  = neo::math::real(c);
    o[8]  = neo::math::imag(c);
    o[9]  = neo::math::real(m);
    o[10] = neo::math::imag(m);
    o[11] = neo::math::real(d);
    o[12] = neo::math::imag(d);
}
template<typename T, typename C>
static void field(std::int64_t const*, void** b)
{
    auto const* x = static_cast<T*>(b[0]);
    auto* o       = static_cast<T*>(b[1]);
    auto const z = C{x[0], x[1]}, w = C{x[2], x[3]};
    auto const q = z / w;
    auto t       = z;
    t /= w;
    auto u = z;
    u /= x[4];
    o[0] = q.real();
    o[1] = q.imag();
    o[2] = t.real();
    o[3] = t.imag();
    o[4] = u.real();
    o[5] = u.imag();
    o[6] = neo::math::abs(z);
    o[7] = neo::math::abs(x[4]);
}
template<typename T>
static void pol(std::int64_t const*, void** b)
{
    auto const* x = static_cast<T*>(b[0]);
    auto const z  = neo::math::polar(x[0], x[1]);
    static_cast<T*>(b[1])[0] = z.real();
    static_cast<T*>(b[1])[1] = z.imag();
}
#define H(T, n)                                                                                                        \
    HARNESS(h_ring_##n) { ring<T, neo::scalar_complex<T>>(p, b); }                                                     \
    HARNESS(h_ring_s##n) { ring<T, std::complex<T>>(p, b); }                                                           \
    HARNESS(h_extra_##n) { extra<T>(p, b); }                                                                           \
    HARNESS(h_field_##n) { field<T, neo::scalar_complex<T>>(p, b); }                                                   \
    HARNESS(h_polar_##n) { pol<T>(p, b); }
H(float, f)
H(double, d)
