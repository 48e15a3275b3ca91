// Minimal stand-in for kokkos/mdspan (which is not available offline): exactly the
// subset of the C++23 <mdspan> / submdspan semantics that neo-sonar/neo uses.
#pragma once
#include <array>
#include <concepts>
#include <cstddef>
#include <limits>
#include <span>
#include <tuple>
#include <type_traits>
#include <utility>

namespace Kokkos {
using std::size_t;
inline constexpr size_t dynamic_extent = std::dynamic_extent;

struct full_extent_t { explicit full_extent_t() = default; };
inline constexpr full_extent_t full_extent{};

template<class IndexType, size_t... Es>
struct extents
{
    using index_type = IndexType;
    using size_type  = std::make_unsigned_t<IndexType>;
    using rank_type  = size_t;

    static constexpr auto rank() noexcept -> rank_type { return sizeof...(Es); }
    static constexpr auto rank_dynamic() noexcept -> rank_type { return ((Es == dynamic_extent ? 1U : 0U) + ... + 0U); }
    static constexpr auto static_extent(rank_type r) noexcept -> size_t
    {
        constexpr std::array<size_t, sizeof...(Es) + 1> s{Es..., 0};
        return s[r];
    }

    constexpr extents() noexcept = default;

    template<class... Is>
        requires((std::is_convertible_v<Is, IndexType> and ...) and sizeof...(Is) > 0
                 and (sizeof...(Is) == sizeof...(Es)
                      or sizeof...(Is) == ((Es == dynamic_extent ? 1U : 0U) + ... + 0U)))
    constexpr explicit extents(Is... is) noexcept
    {
        std::array<IndexType, sizeof...(Is)> in{static_cast<IndexType>(is)...};
        set(in);
    }

    template<class O, size_t N>
        requires(N == sizeof...(Es))
    constexpr extents(std::array<O, N> const& a) noexcept
    {
        for (size_t i = 0; i < N; ++i) { _e[i] = static_cast<IndexType>(a[i]); }
    }

    template<class O, size_t... Os>
        requires(sizeof...(Os) == sizeof...(Es))
    constexpr extents(extents<O, Os...> const& o) noexcept
    {
        for (size_t i = 0; i < sizeof...(Es); ++i) { _e[i] = static_cast<IndexType>(o.extent(i)); }
    }

    [[nodiscard]] constexpr auto extent(rank_type r) const noexcept -> index_type { return _e[r]; }

    template<class O, size_t... Os>
    [[nodiscard]] friend constexpr auto operator==(extents const& a, extents<O, Os...> const& b) noexcept -> bool
    {
        if constexpr (sizeof...(Os) != sizeof...(Es)) {
            return false;
        } else {
            for (size_t i = 0; i < sizeof...(Es); ++i) {
                if (static_cast<size_t>(a.extent(i)) != static_cast<size_t>(b.extent(i))) { return false; }
            }
            return true;
        }
    }

private:
    template<size_t N>
    constexpr auto set(std::array<IndexType, N> const& in) noexcept -> void
    {
        if constexpr (N == sizeof...(Es)) {
            for (size_t i = 0; i < N; ++i) { _e[i] = in[i]; }
        } else {
            size_t k = 0;
            for (size_t i = 0; i < sizeof...(Es); ++i) {
                if (static_extent(i) == dynamic_extent) { _e[i] = in[k++]; }
            }
        }
    }

    std::array<IndexType, sizeof...(Es)> _e{(Es == dynamic_extent ? IndexType(0) : static_cast<IndexType>(Es))...};
};

template<class IndexType>
struct extents<IndexType>
{
    using index_type = IndexType;
    using size_type  = std::make_unsigned_t<IndexType>;
    using rank_type  = size_t;
    static constexpr auto rank() noexcept -> rank_type { return 0; }
    static constexpr auto rank_dynamic() noexcept -> rank_type { return 0; }
    static constexpr auto static_extent(rank_type) noexcept -> size_t { return 1; }
    constexpr extents() noexcept = default;
    template<class O>
    constexpr extents(std::array<O, 0> const&) noexcept {}
    [[nodiscard]] constexpr auto extent(rank_type) const noexcept -> index_type { return 1; }
};

namespace detail {
template<class>
using dyn_t = std::integral_constant<size_t, dynamic_extent>;
template<class I, class Seq>
struct make_dextents;
template<class I, size_t... Is>
struct make_dextents<I, std::index_sequence<Is...>>
{
    using type = extents<I, (Is * 0 + dynamic_extent)...>;
};
}  // namespace detail

template<class... Is>
    requires(sizeof...(Is) > 0 and (std::is_convertible_v<Is, size_t> and ...))
extents(Is...) -> extents<size_t, detail::dyn_t<Is>::value...>;

template<class I, size_t R>
using dextents = typename detail::make_dextents<I, std::make_index_sequence<R>>::type;

namespace detail {
template<class Ext, bool Right>
struct dense_mapping
{
    using extents_type = Ext;
    using index_type   = typename Ext::index_type;
    using size_type    = typename Ext::size_type;
    using rank_type    = size_t;

    constexpr dense_mapping() noexcept = default;
    constexpr dense_mapping(Ext const& e) noexcept : _e{e} {}
    template<class O>
        requires(O::rank() == Ext::rank())
    constexpr dense_mapping(dense_mapping<O, Right> const& o) noexcept : _e{o.extents()}
    {}

    [[nodiscard]] constexpr auto extents() const noexcept -> Ext const& { return _e; }
    [[nodiscard]] constexpr auto required_span_size() const noexcept -> index_type
    {
        index_type s = 1;
        for (size_t i = 0; i < Ext::rank(); ++i) { s = static_cast<index_type>(s * _e.extent(i)); }
        return s;
    }
    template<class... Is>
    [[nodiscard]] constexpr auto operator()(Is... is) const noexcept -> index_type
    {
        std::array<index_type, sizeof...(Is) + 1> const idx{static_cast<index_type>(is)..., index_type{}};
        index_type off = 0;
        if constexpr (Right) {
            for (size_t i = 0; i < Ext::rank(); ++i) { off = static_cast<index_type>(off * _e.extent(i) + idx[i]); }
        } else {
            for (size_t i = Ext::rank(); i > 0; --i) { off = static_cast<index_type>(off * _e.extent(i - 1) + idx[i - 1]); }
        }
        return off;
    }
    [[nodiscard]] constexpr auto stride(rank_type r) const noexcept -> index_type
    {
        index_type s = 1;
        if constexpr (Right) {
            for (size_t i = r + 1; i < Ext::rank(); ++i) { s = static_cast<index_type>(s * _e.extent(i)); }
        } else {
            for (size_t i = 0; i < r; ++i) { s = static_cast<index_type>(s * _e.extent(i)); }
        }
        return s;
    }
    static constexpr auto is_always_unique() noexcept -> bool { return true; }
    static constexpr auto is_always_exhaustive() noexcept -> bool { return true; }
    static constexpr auto is_always_strided() noexcept -> bool { return true; }
    static constexpr auto is_unique() noexcept -> bool { return true; }
    static constexpr auto is_exhaustive() noexcept -> bool { return true; }
    static constexpr auto is_strided() noexcept -> bool { return true; }

private:
    Ext _e{};
};
}  // namespace detail

struct layout_right
{
    template<class Ext>
    struct mapping : detail::dense_mapping<Ext, true>
    {
        using layout_type = layout_right;
        using detail::dense_mapping<Ext, true>::dense_mapping;
    };
};

struct layout_left
{
    template<class Ext>
    struct mapping : detail::dense_mapping<Ext, false>
    {
        using layout_type = layout_left;
        using detail::dense_mapping<Ext, false>::dense_mapping;
    };
};

struct layout_stride
{
    template<class Ext>
    struct mapping
    {
        using layout_type  = layout_stride;
        using extents_type = Ext;
        using index_type   = typename Ext::index_type;
        using size_type    = typename Ext::size_type;
        using rank_type    = size_t;

        constexpr mapping() noexcept = default;
        template<class O>
        constexpr mapping(Ext const& e, std::array<O, Ext::rank()> const& s) noexcept : _e{e}
        {
            for (size_t i = 0; i < Ext::rank(); ++i) { _s[i] = static_cast<index_type>(s[i]); }
        }
        template<class M>
            requires(not std::same_as<M, mapping> and requires(M m) { m.stride(size_t{}); m.extents(); })
        constexpr mapping(M const& m) noexcept : _e{m.extents()}
        {
            for (size_t i = 0; i < Ext::rank(); ++i) { _s[i] = static_cast<index_type>(m.stride(i)); }
        }
        [[nodiscard]] constexpr auto extents() const noexcept -> Ext const& { return _e; }
        [[nodiscard]] constexpr auto stride(rank_type r) const noexcept -> index_type { return _s[r]; }
        [[nodiscard]] constexpr auto strides() const noexcept { return _s; }
        template<class... Is>
        [[nodiscard]] constexpr auto operator()(Is... is) const noexcept -> index_type
        {
            std::array<index_type, sizeof...(Is) + 1> const idx{static_cast<index_type>(is)..., index_type{}};
            index_type off = 0;
            for (size_t i = 0; i < Ext::rank(); ++i) { off = static_cast<index_type>(off + idx[i] * _s[i]); }
            return off;
        }
        static constexpr auto is_always_unique() noexcept -> bool { return true; }
        static constexpr auto is_always_exhaustive() noexcept -> bool { return false; }
        static constexpr auto is_always_strided() noexcept -> bool { return true; }
        static constexpr auto is_unique() noexcept -> bool { return true; }
        static constexpr auto is_strided() noexcept -> bool { return true; }

    private:
        Ext _e{};
        std::array<index_type, Ext::rank()> _s{};
    };
};

template<class T>
struct default_accessor
{
    using offset_policy    = default_accessor;
    using element_type     = T;
    using reference        = T&;
    using data_handle_type = T*;

    constexpr default_accessor() noexcept = default;
    template<class O>
        requires(std::is_convertible_v<O (*)[], T (*)[]>)
    constexpr default_accessor(default_accessor<O>) noexcept
    {}
    [[nodiscard]] constexpr auto access(T* p, size_t i) const noexcept -> T& { return p[i]; }
    [[nodiscard]] constexpr auto offset(T* p, size_t i) const noexcept -> T* { return p + i; }
};

template<class T, class Ext, class Layout = layout_right, class Acc = default_accessor<T>>
struct mdspan
{
    using extents_type     = Ext;
    using layout_type      = Layout;
    using accessor_type    = Acc;
    using mapping_type     = typename Layout::template mapping<Ext>;
    using element_type     = T;
    using value_type       = std::remove_cv_t<T>;
    using index_type       = typename Ext::index_type;
    using size_type        = typename Ext::size_type;
    using rank_type        = size_t;
    using data_handle_type = typename Acc::data_handle_type;
    using reference        = typename Acc::reference;

    static constexpr auto rank() noexcept -> rank_type { return Ext::rank(); }
    static constexpr auto rank_dynamic() noexcept -> rank_type { return Ext::rank_dynamic(); }
    static constexpr auto static_extent(rank_type r) noexcept -> size_t { return Ext::static_extent(r); }
    static constexpr auto is_always_unique() -> bool { return mapping_type::is_always_unique(); }
    static constexpr auto is_always_exhaustive() -> bool { return mapping_type::is_always_exhaustive(); }
    static constexpr auto is_always_strided() -> bool { return mapping_type::is_always_strided(); }

    constexpr mdspan() = default;
    constexpr explicit mdspan(data_handle_type p)
        requires(Ext::rank_dynamic() == 0)
        : _p{p}, _m{Ext{}}
    {}
    template<class... Is>
        requires((std::is_convertible_v<Is, index_type> and ...) and sizeof...(Is) > 0
                 and (sizeof...(Is) == Ext::rank() or sizeof...(Is) == Ext::rank_dynamic())
                 and std::is_constructible_v<mapping_type, Ext>)
    constexpr explicit mdspan(data_handle_type p, Is... is) : _p{p}, _m{Ext(static_cast<index_type>(is)...)}
    {}
    constexpr mdspan(data_handle_type p, Ext const& e)
        requires(std::is_constructible_v<mapping_type, Ext>)
        : _p{p}, _m{e}
    {}
    constexpr mdspan(data_handle_type p, mapping_type const& m) : _p{p}, _m{m} {}
    constexpr mdspan(data_handle_type p, mapping_type const& m, Acc const& a) : _p{p}, _m{m}, _a{a} {}

    template<class OT, class OE, class OL, class OA>
        requires(std::is_constructible_v<mapping_type, typename OL::template mapping<OE> const&>
                 and std::is_constructible_v<Acc, OA const&>)
    constexpr mdspan(mdspan<OT, OE, OL, OA> const& o) : _p{o.data_handle()}, _m{o.mapping()}, _a{o.accessor()}
    {}

    template<class I>
        requires(Ext::rank() == 1 and std::is_convertible_v<I, index_type>)
    [[nodiscard]] constexpr auto operator[](I i) const -> reference
    {
        return _a.access(_p, static_cast<size_t>(_m(i)));
    }
    template<class... Is>
        requires(sizeof...(Is) == Ext::rank() and (std::is_convertible_v<Is, index_type> and ...))
    [[nodiscard]] constexpr auto operator()(Is... is) const -> reference
    {
        return _a.access(_p, static_cast<size_t>(_m(is...)));
    }

    [[nodiscard]] constexpr auto size() const noexcept -> size_type
    {
        size_type s = 1;
        for (size_t i = 0; i < rank(); ++i) { s = static_cast<size_type>(s * static_cast<size_type>(extent(i))); }
        return s;
    }
    [[nodiscard]] constexpr auto empty() const noexcept -> bool { return size() == 0; }
    [[nodiscard]] constexpr auto extents() const noexcept -> Ext const& { return _m.extents(); }
    [[nodiscard]] constexpr auto extent(rank_type r) const noexcept -> index_type { return _m.extents().extent(r); }
    [[nodiscard]] constexpr auto stride(rank_type r) const -> index_type { return _m.stride(r); }
    [[nodiscard]] constexpr auto data_handle() const noexcept -> data_handle_type const& { return _p; }
    [[nodiscard]] constexpr auto mapping() const noexcept -> mapping_type const& { return _m; }
    [[nodiscard]] constexpr auto accessor() const noexcept -> Acc const& { return _a; }

private:
    data_handle_type _p{};
    [[no_unique_address]] mapping_type _m{};
    [[no_unique_address]] Acc _a{};
};

template<class T, class... Is>
    requires(sizeof...(Is) > 0 and (std::is_convertible_v<Is, size_t> and ...))
mdspan(T*, Is...) -> mdspan<T, dextents<size_t, sizeof...(Is)>>;
template<class T, class I, size_t... Es>
mdspan(T*, extents<I, Es...> const&) -> mdspan<T, extents<I, Es...>>;
template<class T, class M>
    requires requires { typename M::layout_type; typename M::extents_type; }
mdspan(T*, M const&) -> mdspan<T, typename M::extents_type, typename M::layout_type>;
template<class M, class A>
    requires requires { typename M::layout_type; typename A::data_handle_type; }
mdspan(typename A::data_handle_type const&, M const&, A const&)
    -> mdspan<typename A::element_type, typename M::extents_type, typename M::layout_type, A>;

namespace detail {
enum class slice_kind { index, range, full };

template<class S>
consteval auto kind_of() -> slice_kind
{
    if constexpr (std::is_convertible_v<S, full_extent_t>) {
        return slice_kind::full;
    } else if constexpr (std::is_convertible_v<S, size_t>) {
        return slice_kind::index;
    } else {
        return slice_kind::range;
    }
}

template<class S>
constexpr auto first_of(S const& s) -> size_t
{
    if constexpr (kind_of<S>() == slice_kind::full) {
        return 0;
    } else if constexpr (kind_of<S>() == slice_kind::index) {
        return static_cast<size_t>(s);
    } else {
        return static_cast<size_t>(std::get<0>(s));
    }
}

template<class S>
constexpr auto length_of(S const& s, size_t ext) -> size_t
{
    if constexpr (kind_of<S>() == slice_kind::full) {
        return ext;
    } else if constexpr (kind_of<S>() == slice_kind::index) {
        return 1;
    } else {
        return static_cast<size_t>(std::get<1>(s)) - static_cast<size_t>(std::get<0>(s));
    }
}

// leading indices, then at most one range-or-full, then only full
template<class... Ss>
consteval auto keeps_right() -> bool
{
    constexpr std::array<slice_kind, sizeof...(Ss)> k{kind_of<Ss>()...};
    size_t i = 0;
    while (i < k.size() and k[i] == slice_kind::index) { ++i; }
    if (i < k.size()) { ++i; }
    while (i < k.size() and k[i] == slice_kind::full) { ++i; }
    return i == k.size();
}

template<class... Ss>
consteval auto keeps_left() -> bool
{
    constexpr std::array<slice_kind, sizeof...(Ss)> k{kind_of<Ss>()...};
    size_t i = k.size();
    while (i > 0 and k[i - 1] == slice_kind::index) { --i; }
    if (i > 0) { --i; }
    while (i > 0 and k[i - 1] == slice_kind::full) { --i; }
    return i == 0;
}
}  // namespace detail

template<class T, class Ext, class Layout, class Acc, class... Ss>
    requires(sizeof...(Ss) == Ext::rank())
[[nodiscard]] constexpr auto submdspan(mdspan<T, Ext, Layout, Acc> const& src, Ss... ss)
{
    using index_type                = typename Ext::index_type;
    constexpr std::array<detail::slice_kind, sizeof...(Ss)> kinds{detail::kind_of<Ss>()...};
    constexpr size_t sub_rank       = ((detail::kind_of<Ss>() == detail::slice_kind::index ? 0U : 1U) + ... + 0U);
    using sub_ext                   = dextents<index_type, sub_rank>;
    std::array<size_t, sizeof...(Ss)> const first{detail::first_of(ss)...};
    std::array<index_type, sub_rank> ext{};
    std::array<index_type, sub_rank> str{};
    {
        size_t r = 0;
        size_t d = 0;
        (
            [&] {
                if constexpr (detail::kind_of<Ss>() != detail::slice_kind::index) {
                    ext[r] = static_cast<index_type>(detail::length_of(ss, static_cast<size_t>(src.extent(d))));
                    str[r] = static_cast<index_type>(src.stride(d));
                    ++r;
                }
                ++d;
            }(),
            ...
        );
    }
    (void)kinds;
    size_t offset = 0;
    for (size_t i = 0; i < sizeof...(Ss); ++i) { offset += first[i] * static_cast<size_t>(src.stride(i)); }

    auto const handle = src.accessor().offset(src.data_handle(), offset);
    auto const acc    = typename Acc::offset_policy(src.accessor());
    using OA          = typename Acc::offset_policy;
    using OT          = typename OA::element_type;

    if constexpr (std::same_as<Layout, layout_right> and detail::keeps_right<Ss...>()) {
        using M = layout_right::mapping<sub_ext>;
        return mdspan<OT, sub_ext, layout_right, OA>{handle, M{sub_ext{ext}}, acc};
    } else if constexpr (std::same_as<Layout, layout_left> and detail::keeps_left<Ss...>()) {
        using M = layout_left::mapping<sub_ext>;
        return mdspan<OT, sub_ext, layout_left, OA>{handle, M{sub_ext{ext}}, acc};
    } else {
        using M = layout_stride::mapping<sub_ext>;
        return mdspan<OT, sub_ext, layout_stride, OA>{handle, M{sub_ext{ext}, str}, acc};
    }
}

}  // namespace Kokkos
