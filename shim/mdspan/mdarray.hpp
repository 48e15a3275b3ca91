#pragma once
#include <mdspan/mdspan.hpp>
#include <vector>

namespace Kokkos::Experimental {

template<class T, class Ext, class Layout = layout_right, class Container = std::vector<T>>
struct mdarray
{
    using extents_type   = Ext;
    using layout_type    = Layout;
    using container_type = Container;
    using mapping_type   = typename Layout::template mapping<Ext>;
    using element_type   = T;
    using value_type     = std::remove_cv_t<T>;
    using index_type     = typename Ext::index_type;
    using size_type      = typename Ext::size_type;
    using rank_type      = std::size_t;
    using mdspan_type       = mdspan<T, Ext, Layout>;
    using const_mdspan_type = mdspan<T const, Ext, Layout>;

    static constexpr auto rank() noexcept -> rank_type { return Ext::rank(); }
    static constexpr auto rank_dynamic() noexcept -> rank_type { return Ext::rank_dynamic(); }
    static constexpr auto static_extent(rank_type r) noexcept -> std::size_t { return Ext::static_extent(r); }

    mdarray() : _m{}, _c(static_cast<std::size_t>(_m.required_span_size())) {}
    explicit mdarray(Ext const& e) : _m{e}, _c(static_cast<std::size_t>(_m.required_span_size())) {}
    template<class... Is>
        requires((std::is_convertible_v<Is, index_type> and ...) and sizeof...(Is) > 0
                 and (sizeof...(Is) == Ext::rank() or sizeof...(Is) == Ext::rank_dynamic()))
    explicit mdarray(Is... is)
        : _m{Ext(static_cast<index_type>(is)...)}, _c(static_cast<std::size_t>(_m.required_span_size()))
    {}

    template<class I>
        requires(Ext::rank() == 1 and std::is_convertible_v<I, index_type>)
    [[nodiscard]] auto operator[](I i) -> T& { return _c[static_cast<std::size_t>(_m(i))]; }
    template<class I>
        requires(Ext::rank() == 1 and std::is_convertible_v<I, index_type>)
    [[nodiscard]] auto operator[](I i) const -> T const& { return _c[static_cast<std::size_t>(_m(i))]; }
    template<class... Is>
        requires(sizeof...(Is) == Ext::rank())
    [[nodiscard]] auto operator()(Is... is) -> T& { return _c[static_cast<std::size_t>(_m(is...))]; }
    template<class... Is>
        requires(sizeof...(Is) == Ext::rank())
    [[nodiscard]] auto operator()(Is... is) const -> T const& { return _c[static_cast<std::size_t>(_m(is...))]; }

    [[nodiscard]] auto size() const noexcept -> size_type { return static_cast<size_type>(_m.required_span_size()); }
    [[nodiscard]] auto empty() const noexcept -> bool { return size() == 0; }
    [[nodiscard]] auto container_size() const noexcept { return _c.size(); }
    [[nodiscard]] auto extents() const noexcept -> Ext const& { return _m.extents(); }
    [[nodiscard]] auto extent(rank_type r) const noexcept -> index_type { return _m.extents().extent(r); }
    [[nodiscard]] auto stride(rank_type r) const -> index_type { return _m.stride(r); }
    [[nodiscard]] auto mapping() const noexcept -> mapping_type const& { return _m; }
    [[nodiscard]] auto data() noexcept -> T* { return _c.data(); }
    [[nodiscard]] auto data() const noexcept -> T const* { return _c.data(); }
    [[nodiscard]] auto to_mdspan() -> mdspan_type { return mdspan_type{_c.data(), _m}; }
    [[nodiscard]] auto to_mdspan() const -> const_mdspan_type { return const_mdspan_type{_c.data(), _m}; }

    operator mdspan_type() { return to_mdspan(); }
    operator const_mdspan_type() const { return to_mdspan(); }

private:
    mapping_type _m;
    Container _c;
};

}  // namespace Kokkos::Experimental
