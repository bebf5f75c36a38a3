#pragma once
#include <algorithm>
#include <cstddef>
#include <initializer_list>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
namespace absl {
template <class T> class Span {
 public:
  using element_type = T; using value_type = std::remove_cv_t<T>; using pointer = T*; using const_pointer = const T*;
  using reference = T&; using const_reference = const T&; using iterator = T*; using const_iterator = const T*;
  using reverse_iterator = std::reverse_iterator<iterator>; using const_reverse_iterator = std::reverse_iterator<const_iterator>;
  using size_type = size_t; using difference_type = ptrdiff_t;
  static constexpr size_type npos = ~size_type(0);
  constexpr Span() noexcept = default;
  constexpr Span(T* p, size_t n) noexcept : p_(p), n_(n) {}
  template <size_t N> constexpr Span(T (&a)[N]) noexcept : p_(a), n_(N) {}
  template <class V, class = std::enable_if_t<!std::is_same_v<std::decay_t<V>, Span> &&
                     std::is_convertible_v<std::remove_pointer_t<decltype(std::declval<V&>().data())> (*)[], T (*)[]> &&
                     std::is_convertible_v<decltype(std::declval<V&>().size()), size_t> && !std::is_const_v<T>>>
  explicit constexpr Span(V& v) noexcept : p_(v.data()), n_(v.size()) {}
  template <class V, class = void, class = std::enable_if_t<!std::is_same_v<std::decay_t<V>, Span> && std::is_const_v<T> &&
                     std::is_convertible_v<std::remove_pointer_t<decltype(std::declval<const V&>().data())> (*)[], T (*)[]> &&
                     std::is_convertible_v<decltype(std::declval<const V&>().size()), size_t>>>
  constexpr Span(const V& v) noexcept : p_(v.data()), n_(v.size()) {}
  template <class L = T, class = std::enable_if_t<std::is_const_v<L>>>
  Span(std::initializer_list<value_type> v) noexcept : p_(v.begin()), n_(v.size()) {}
  constexpr T* data() const noexcept { return p_; }
  constexpr size_t size() const noexcept { return n_; }
  constexpr size_t length() const noexcept { return n_; }
  constexpr bool empty() const noexcept { return n_ == 0; }
  constexpr T& operator[](size_t i) const noexcept { return p_[i]; }
  T& at(size_t i) const { if (i >= n_) throw std::out_of_range("Span::at failed bounds check"); return p_[i]; }
  constexpr T& front() const { return p_[0]; }
  constexpr T& back() const { return p_[n_ - 1]; }
  constexpr iterator begin() const noexcept { return p_; }
  constexpr iterator end() const noexcept { return p_ + n_; }
  constexpr const_iterator cbegin() const noexcept { return p_; }
  constexpr const_iterator cend() const noexcept { return p_ + n_; }
  reverse_iterator rbegin() const noexcept { return reverse_iterator(end()); }
  reverse_iterator rend() const noexcept { return reverse_iterator(begin()); }
  void remove_prefix(size_t n) { p_ += n; n_ -= n; }
  void remove_suffix(size_t n) { n_ -= n; }
  Span subspan(size_t pos = 0, size_t len = npos) const {
    if (pos > n_) throw std::out_of_range("pos > size()");
    return Span(p_ + pos, std::min(n_ - pos, len));
  }
  Span first(size_t n) const { return subspan(0, n); }
  Span last(size_t n) const { return subspan(n_ - n, n); }
 private:
  T* p_ = nullptr;
  size_t n_ = 0;
};
template <class A, class B> bool EqSpan(Span<A> a, Span<B> b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
template <class A, class B> bool operator==(Span<A> a, Span<B> b) { return EqSpan(a, b); }
template <class A, class B> bool operator!=(Span<A> a, Span<B> b) { return !EqSpan(a, b); }
template <class A, class C> auto operator==(Span<A> a, const C& b) -> decltype(b.data(), b.size(), bool()) { return EqSpan(a, Span<const std::remove_cv_t<A>>(b)); }
template <class A, class C> auto operator==(const C& b, Span<A> a) -> decltype(b.data(), b.size(), bool()) { return EqSpan(a, Span<const std::remove_cv_t<A>>(b)); }
template <class T> constexpr Span<T> MakeSpan(T* p, size_t n) { return {p, n}; }
template <class T> Span<T> MakeSpan(T* b, T* e) { return {b, (size_t)(e - b)}; }
template <class C> auto MakeSpan(C& c) -> Span<std::remove_pointer_t<decltype(c.data())>> { return {c.data(), c.size()}; }
template <class T, size_t N> Span<T> MakeSpan(T (&a)[N]) { return {a, N}; }
template <class T> constexpr Span<const T> MakeConstSpan(T* p, size_t n) { return {p, n}; }
template <class T> Span<const T> MakeConstSpan(T* b, T* e) { return {b, (size_t)(e - b)}; }
template <class C> auto MakeConstSpan(const C& c) -> Span<const std::remove_pointer_t<decltype(c.data())>> { return {c.data(), c.size()}; }
template <class T, size_t N> Span<const T> MakeConstSpan(const T (&a)[N]) { return {a, N}; }
}  // namespace absl
