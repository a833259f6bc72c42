// A stand-in for std::vector and a few algorithms, used where the analysis wants the contents of a vector rather than its
// growth strategy: the observable contents are those the standard prescribes, growth happens in place, and sorting is one
// primitive ("the elements in the order of this comparator"). It is only ever compiled to intermediate code, never run.
#ifndef VP_SHIM_HPP
#define VP_SHIM_HPP
#include <vector>
#include <complex>
#include <concepts>
#include <initializer_list>
#include <iterator>
#include <stdexcept>
#include <tuple>
#include <type_traits>
#include <utility>

extern "C" {
const void* vp_elem(const void* p, unsigned long which, unsigned long size) noexcept;
void vp_sort(void* p, unsigned long n, unsigned long size, bool less) noexcept;
void vp_require(bool inside) noexcept;
// an allocation the compiler knows no size of: growth happens in place, so nothing may be concluded from the initial size
__attribute__((malloc, returns_nonnull)) void* vp_new(unsigned long bytes) noexcept;
}
#ifdef VP_BOUNDS
#define VP_IN(x) (__builtin_is_constant_evaluated() ? void() : ::vp_require(x))
#else
#define VP_IN(x) void()
#endif

namespace vp {
template<class T> struct plain : std::bool_constant<std::is_arithmetic_v<T> && !std::is_same_v<T, bool>> {};
template<class T> struct plain<std::complex<T>> : std::true_type {};
template<class A, class B> struct plain<std::pair<A, B>> : std::bool_constant<plain<A>::value && plain<B>::value> {};
template<class... A> struct plain<std::tuple<A...>> : std::bool_constant<(plain<A>::value && ...)> {};
template<class T> concept Plain = plain<T>::value || (std::is_aggregate_v<T> && std::is_trivially_copyable_v<T> && std::is_trivially_destructible_v<T> && !std::is_array_v<T>);
}

namespace std {
template<class T> requires vp::Plain<T>
class vector<T, allocator<T>> {
    T *b, *e, *c;
    static T* get(size_t n) { return static_cast<T*>(::vp_new(n * sizeof(T))); }
    void take(size_t n) { b = get(n); e = b + n; c = e; }
public:
    using value_type = T; using allocator_type = allocator<T>; using size_type = size_t; using difference_type = ptrdiff_t;
    using reference = T&; using const_reference = const T&; using pointer = T*; using const_pointer = const T*;
    using iterator = T*; using const_iterator = const T*;
    using reverse_iterator = std::reverse_iterator<T*>; using const_reverse_iterator = std::reverse_iterator<const T*>;

    constexpr vector() noexcept { take(0); }
    explicit vector(const allocator<T>&) noexcept { take(0); }
    explicit vector(size_t n, const allocator<T>& = {}) { take(n); for (size_t k = 0; k < n; ++k) { ::new (b + k) T(); } }
    vector(size_t n, const T& v, const allocator<T>& = {}) { take(n); for (size_t k = 0; k < n; ++k) { ::new (b + k) T(v); } }
    vector(const vector& o) { size_t n = o.size(); take(n); const T* q = o.b; T* p = b; for (size_t k = 0; k < n; ++k) { ::new (p + k) T(q[k]); } }
    constexpr vector(vector&& o) noexcept : b(o.b), e(o.e), c(o.c) { o.take(0); }
    vector(initializer_list<T> l) { size_t n = l.size(); take(n); const T* q = l.begin(); for (size_t k = 0; k < n; ++k) { ::new (b + k) T(q[k]); } }
    template<class It> requires (!std::is_integral_v<It>) && std::forward_iterator<It>
    vector(It f, It l) { size_t n = static_cast<size_t>(std::distance(f, l)); take(n); for (size_t k = 0; k < n; ++k, ++f) { ::new (b + k) T(*f); } }
    constexpr ~vector() {}
    constexpr vector& operator=(const vector& o) { if (this != &o) { size_t n = o.size(); const T* q = o.b; T* p = get(n); for (size_t k = 0; k < n; ++k) { ::new (p + k) T(q[k]); } b = p; e = p + n; c = e; } return *this; }
    constexpr vector& operator=(vector&& o) noexcept { T *x = o.b, *y = o.e, *z = o.c; o.take(0); b = x; e = y; c = z; return *this; }
    vector& operator=(initializer_list<T> l) { assign(l); return *this; }
    void assign(size_t n, const T& v) { T w = v; take(n); for (size_t k = 0; k < n; ++k) { ::new (b + k) T(w); } }
    void assign(initializer_list<T> l) { size_t n = l.size(); const T* q = l.begin(); take(n); for (size_t k = 0; k < n; ++k) { ::new (b + k) T(q[k]); } }
    template<class It> requires (!std::is_integral_v<It>) && std::forward_iterator<It>
    void assign(It f, It l) { size_t n = static_cast<size_t>(std::distance(f, l)); T* p = get(n); for (size_t k = 0; k < n; ++k, ++f) { ::new (p + k) T(*f); } b = p; e = p + n; c = e; }

    constexpr iterator begin() noexcept { return b; }
    constexpr const_iterator begin() const noexcept { return b; }
    constexpr const_iterator cbegin() const noexcept { return b; }
    constexpr iterator end() noexcept { return e; }
    constexpr const_iterator end() const noexcept { return e; }
    constexpr const_iterator cend() const noexcept { return e; }
    reverse_iterator rbegin() noexcept { return reverse_iterator(e); }
    const_reverse_iterator rbegin() const noexcept { return const_reverse_iterator(e); }
    reverse_iterator rend() noexcept { return reverse_iterator(b); }
    const_reverse_iterator rend() const noexcept { return const_reverse_iterator(b); }

    constexpr size_t size() const noexcept { return static_cast<size_t>(e - b); }
    constexpr size_t capacity() const noexcept { return static_cast<size_t>(c - b); }
    constexpr size_t max_size() const noexcept { return size_t(-1) / 2 / sizeof(T); }
    constexpr bool empty() const noexcept { return b == e; }
    constexpr T& operator[](size_t i) noexcept { VP_IN(i < size()); return b[i]; }
    constexpr const T& operator[](size_t i) const noexcept { VP_IN(i < size()); return b[i]; }
    T& at(size_t i) { if (i >= size()) { std::__throw_out_of_range("vector::at"); } return b[i]; }
    const T& at(size_t i) const { if (i >= size()) { std::__throw_out_of_range("vector::at"); } return b[i]; }
    constexpr T& front() noexcept { VP_IN(b != e); return *b; }
    constexpr const T& front() const noexcept { VP_IN(b != e); return *b; }
    constexpr T& back() noexcept { VP_IN(b != e); return *(e - 1); }
    constexpr const T& back() const noexcept { VP_IN(b != e); return *(e - 1); }
    constexpr T* data() noexcept { return b; }
    constexpr const T* data() const noexcept { return b; }

    void reserve(size_t) {}
    void shrink_to_fit() {}
    void clear() noexcept { e = b; }
    void push_back(const T& v) { ::new (e) T(v); ++e; }
    void push_back(T&& v) { ::new (e) T(std::move(v)); ++e; }
    template<class... A> T& emplace_back(A&&... a) { ::new (e) T(std::forward<A>(a)...); ++e; return *(e - 1); }
    void pop_back() noexcept { VP_IN(b != e); --e; }
    void resize(size_t n) { size_t o = size(); for (size_t k = o; k < n; ++k) { ::new (b + k) T(); } e = b + n; }
    void resize(size_t n, const T& v) { size_t o = size(); T w = v; for (size_t k = o; k < n; ++k) { ::new (b + k) T(w); } e = b + n; }
    T* insert(const T* at, const T& v) {
        size_t n = size(), k = static_cast<size_t>(at - b); T w = v; const T* q = b; T* p = get(n + 1);
        for (size_t i = 0; i < k; ++i) { ::new (p + i) T(q[i]); }
        ::new (p + k) T(w);
        for (size_t i = k; i < n; ++i) { ::new (p + i + 1) T(q[i]); }
        b = p; e = p + n + 1; c = e; return p + k;
    }
    template<class It> requires (!std::is_integral_v<It>) && std::forward_iterator<It>
    T* insert(const T* at, It f, It l) {
        size_t n = size(), k = static_cast<size_t>(at - b), m = static_cast<size_t>(std::distance(f, l)); const T* q = b; T* p = get(n + m);
        for (size_t i = 0; i < k; ++i) { ::new (p + i) T(q[i]); }
        for (size_t i = 0; i < m; ++i, ++f) { ::new (p + k + i) T(*f); }
        for (size_t i = k; i < n; ++i) { ::new (p + i + m) T(q[i]); }
        b = p; e = p + n + m; c = e; return p + k;
    }
    T* insert(const T* at, size_t m, const T& v) {
        size_t n = size(), k = static_cast<size_t>(at - b); T w = v; const T* q = b; T* p = get(n + m);
        for (size_t i = 0; i < k; ++i) { ::new (p + i) T(q[i]); }
        for (size_t i = 0; i < m; ++i) { ::new (p + k + i) T(w); }
        for (size_t i = k; i < n; ++i) { ::new (p + i + m) T(q[i]); }
        b = p; e = p + n + m; c = e; return p + k;
    }
    T* erase(const T* f) { return erase(f, f + 1); }
    T* erase(const T* f, const T* l) {
        size_t n = size(), k = static_cast<size_t>(f - b), m = static_cast<size_t>(l - f); const T* q = b; T* p = get(n - m);
        for (size_t i = 0; i < k; ++i) { ::new (p + i) T(q[i]); }
        for (size_t i = k + m; i < n; ++i) { ::new (p + i - m) T(q[i]); }
        b = p; e = p + (n - m); c = e; return p + k;
    }
    constexpr void swap(vector& o) noexcept { T *x = b, *y = e, *z = c; b = o.b; e = o.e; c = o.c; o.b = x; o.e = y; o.c = z; }
    allocator<T> get_allocator() const noexcept { return {}; }
};
template<class T> requires vp::Plain<T> void swap(vector<T>& a, vector<T>& b) noexcept { a.swap(b); }
template<class T> requires vp::Plain<T> bool operator==(const vector<T>& a, const vector<T>& b) {
    if (a.size() != b.size()) { return false; }
    for (size_t k = 0; k < a.size(); ++k) { if (!(a[k] == b[k])) { return false; } }
    return true;
}
}

#include <bits/stdc++.h>

namespace vp {
template<class T, class C> void sort(T* p, size_t n, C less) {
    const T* x = static_cast<const T*>(::vp_elem(p, 0, sizeof(T)));
    const T* y = static_cast<const T*>(::vp_elem(p, 1, sizeof(T)));
    bool r = less(*x, *y);
    ::vp_sort(p, n, sizeof(T), r);
}
}

namespace std {
namespace ranges {
// the first element that no other one exceeds: its value first, then its place
template<class I, class N, class C> constexpr I vp_extreme(I f, N n, C less) {
    if (n == 0) { return f; }
    auto m = *f;
    for (N k = 1; k < n; ++k) { if (less(m, *(f + k))) { m = *(f + k); } }
    N k = 0;
    for (; k < n - 1; ++k) { if (!less(*(f + k), m)) { break; } }
    return f + k;
}
}
template<class T, class C = less<>> void vp_sort(T* f, T* l, C c = {}) { vp::sort(f, static_cast<size_t>(l - f), [&](const T& x, const T& y) { return static_cast<bool>(std::invoke(c, x, y)); }); }
template<class T, class C = less<>> void vp_stable_sort(T* f, T* l, C c = {}) { vp_sort(f, l, c); }
template<class I, class V, class C = less<>> I vp_upper_bound(I f, I l, const V& v, C c = {}) { while (f != l) { if (std::invoke(c, v, *f)) { break; } ++f; } return f; }
template<class I, class V, class C = less<>> I vp_lower_bound(I f, I l, const V& v, C c = {}) { while (f != l) { if (!std::invoke(c, *f, v)) { break; } ++f; } return f; }
template<class I, class V, class C = less<>> pair<I, I> vp_equal_range(I f, I l, const V& v, C c = {}) { return {vp_lower_bound(f, l, v, c), vp_upper_bound(f, l, v, c)}; }
template<class I, class V, class C = less<>> bool vp_binary_search(I f, I l, const V& v, C c = {}) { I i = vp_lower_bound(f, l, v, c); return i != l && !std::invoke(c, v, *i); }
template<class I, class V> I vp_find(I f, I l, const V& v) { while (f != l) { if (*f == v) { break; } ++f; } return f; }
template<class I, class F> I vp_find_if(I f, I l, F p) { while (f != l) { if (std::invoke(p, *f)) { break; } ++f; } return f; }
template<class I, class F> I vp_find_if_not(I f, I l, F p) { while (f != l) { if (!std::invoke(p, *f)) { break; } ++f; } return f; }
template<class I, class F> bool vp_all_of(I f, I l, F p) { return vp_find_if_not(f, l, p) == l; }
template<class I, class F> bool vp_any_of(I f, I l, F p) { return vp_find_if(f, l, p) != l; }
template<class I, class F> bool vp_none_of(I f, I l, F p) { return vp_find_if(f, l, p) == l; }
template<class I, class C = less<>> I vp_max_element(I f, I l, C c = {}) { return ranges::vp_extreme(f, l - f, [&](const auto& x, const auto& y) { return static_cast<bool>(std::invoke(c, x, y)); }); }
template<class I, class C = less<>> I vp_min_element(I f, I l, C c = {}) { return ranges::vp_extreme(f, l - f, [&](const auto& x, const auto& y) { return static_cast<bool>(std::invoke(c, y, x)); }); }
template<class I, class C = less<>> bool vp_is_sorted(I f, I l, C c = {}) { auto n = l - f; for (decltype(n) k = 1; k < n; ++k) { if (std::invoke(c, *(f + k), *(f + (k - 1)))) { return false; } } return true; }

namespace ranges {
template<class R> concept vp_range = range<R>;
#define VP_S(name) \
template<class I, class S, class C = ranges::less, class P = identity> requires sentinel_for<S, I> constexpr auto name(I f, S l, C c = {}, P p = {}) { \
    auto n = static_cast<size_t>(l - f); vp::sort(std::to_address(f), n, [&](const auto& x, const auto& y) { return static_cast<bool>(std::invoke(c, std::invoke(p, x), std::invoke(p, y))); }); return f + static_cast<ptrdiff_t>(n); } \
template<vp_range R, class C = ranges::less, class P = identity> constexpr auto name(R&& r, C c = {}, P p = {}) { return name(ranges::begin(r), ranges::end(r), c, p); }
VP_S(vp_sort)
VP_S(vp_stable_sort)
#define VP_B(name, cond) \
template<class I, class S, class V, class C = ranges::less, class P = identity> requires sentinel_for<S, I> constexpr I name(I f, S l, const V& v, C c = {}, P p = {}) { while (f != l) { if (cond) { break; } ++f; } return f; } \
template<vp_range R, class V, class C = ranges::less, class P = identity> constexpr auto name(R&& r, const V& v, C c = {}, P p = {}) { return name(ranges::begin(r), ranges::end(r), v, c, p); }
VP_B(vp_upper_bound, std::invoke(c, v, std::invoke(p, *f)))
VP_B(vp_lower_bound, !std::invoke(c, std::invoke(p, *f), v))
#define VP_F(name, cond) \
template<class I, class S, class V, class P = identity> requires sentinel_for<S, I> constexpr I name(I f, S l, const V& v, P p = {}) { while (f != l) { if (cond) { break; } ++f; } return f; } \
template<vp_range R, class V, class P = identity> constexpr auto name(R&& r, const V& v, P p = {}) { return name(ranges::begin(r), ranges::end(r), v, p); }
VP_F(vp_find, std::invoke(p, *f) == v)
VP_F(vp_find_if, std::invoke(v, std::invoke(p, *f)))
VP_F(vp_find_if_not, !std::invoke(v, std::invoke(p, *f)))
#define VP_M(name, cond) \
template<class I, class S, class C = ranges::less, class P = identity> requires sentinel_for<S, I> constexpr I name(I f, S l, C c = {}, P p = {}) { return vp_extreme(f, l - f, [&](const auto& x, const auto& y) { return static_cast<bool>(cond); }); } \
template<vp_range R, class C = ranges::less, class P = identity> constexpr auto name(R&& r, C c = {}, P p = {}) { return name(ranges::begin(r), ranges::end(r), c, p); }
VP_M(vp_max_element, std::invoke(c, std::invoke(p, x), std::invoke(p, y)))
VP_M(vp_min_element, std::invoke(c, std::invoke(p, y), std::invoke(p, x)))
#define VP_A(name, expr) \
template<class I, class S, class F, class P = identity> requires sentinel_for<S, I> constexpr bool name(I f, S l, F g, P p = {}) { expr } \
template<vp_range R, class F, class P = identity> constexpr bool name(R&& r, F g, P p = {}) { return name(ranges::begin(r), ranges::end(r), g, p); }
VP_A(vp_all_of, return vp_find_if_not(f, l, g, p) == l;)
VP_A(vp_any_of, return vp_find_if(f, l, g, p) != l;)
VP_A(vp_none_of, return vp_find_if(f, l, g, p) == l;)
}
}

#define sort vp_sort
#define stable_sort vp_stable_sort
#define upper_bound vp_upper_bound
#define lower_bound vp_lower_bound
#define equal_range vp_equal_range
#define binary_search vp_binary_search
#define find vp_find
#define find_if vp_find_if
#define find_if_not vp_find_if_not
#define all_of vp_all_of
#define any_of vp_any_of
#define none_of vp_none_of
#define max_element vp_max_element
#define min_element vp_min_element
#define is_sorted vp_is_sorted
#endif
