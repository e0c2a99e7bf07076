// Host stand-in for the parts of Thrust / libcu++ / the CUDA guards used by the .cu files.
// Only the *contracts* of the library are modelled: iterators are lazy, and the scans
// combine the elements of a segment in the order given but with any bracketing
// (chosen by the environment variable SYMX_SCAN), as a parallel scan is free to do.
#pragma once
#include <torch/torch.h>
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdlib>
#include <functional>
#include <iterator>
#include <tuple>
#include <utility>
#include <vector>
#ifndef __host__
#define __host__
#define __device__
#define __global__
#define __forceinline__ inline
#define __restrict__
#endif

namespace symx_scan {
inline unsigned long code() { const char* s = getenv("SYMX_SCAN"); return s ? strtoul(s, nullptr, 10) : 0; }
// all bracketings of n elements are numbered by (n-1)! codes (with repetitions)
template <typename T, typename Get, typename Op>
T fold(Get& get, long lo, long hi, Op& op, unsigned long& c) {
  long n = hi - lo;
  if (n == 1) return get(lo);
  long k = 1 + (long)(c % (unsigned long)(n - 1));
  c /= (unsigned long)(n - 1);
  T a = fold<T>(get, lo, lo + k, op, c);
  T b = fold<T>(get, lo + k, hi, op, c);
  return op(a, b);
}
}  // namespace symx_scan

namespace cuda { namespace std {
using ::std::tuple; using ::std::get; using ::std::make_tuple; using ::std::tie; using ::std::tuple_size; using ::std::tuple_element;
using ::std::pair; using ::std::make_pair; using ::std::array;
using ::std::equal_to; using ::std::plus; using ::std::multiplies; using ::std::minus; using ::std::not_equal_to; using ::std::less; using ::std::logical_and;
using ::std::move; using ::std::forward; using ::std::apply; using ::std::min; using ::std::max; using ::std::complex; using ::std::ptrdiff_t; using ::std::size_t;
using ::std::decay_t; using ::std::conditional_t; using ::std::enable_if_t;
}}  // namespace cuda::std

namespace thrust {
using ::std::tuple; using ::std::get; using ::std::make_tuple; using ::std::tie; using ::std::tuple_size; using ::std::tuple_element;
using ::std::pair; using ::std::make_pair; using ::std::plus; using ::std::multiplies; using ::std::minus; using ::std::equal_to; using ::std::less;
struct policy { template <typename... A> policy on(A&&...) const { return *this; } template <typename... A> policy operator()(A&&...) const { return *this; } };
inline constexpr policy device{}, host{}, seq{};
namespace cuda { inline constexpr policy par{}, par_nosync{}; }
template <typename T> using device_vector = ::std::vector<T>;
template <typename T> using host_vector = ::std::vector<T>;
template <typename T> struct device_ptr_ { T* p; };
template <typename T> T* device_pointer_cast(T* p) { return p; }
template <typename T> T* raw_pointer_cast(T* p) { return p; }
template <typename T> struct identity { const T& operator()(const T& x) const { return x; } };

template <typename D, typename V> struct rand_it {
  using iterator_category = ::std::random_access_iterator_tag; using difference_type = long; using pointer = void;
  long n = 0;
  D& self() { return static_cast<D&>(*this); }
  const D& self() const { return static_cast<const D&>(*this); }
  D& operator++() { ++n; return self(); }
  D operator++(int) { D t = self(); ++n; return t; }
  D& operator--() { --n; return self(); }
  D& operator+=(long k) { n += k; return self(); }
  D& operator-=(long k) { n -= k; return self(); }
  friend D operator+(const D& a, long k) { D t = a; t.n += k; return t; }
  friend D operator+(long k, const D& a) { return a + k; }
  friend D operator-(const D& a, long k) { D t = a; t.n -= k; return t; }
  bool operator==(const D& o) const { return (self() - o) == 0; }
  bool operator!=(const D& o) const { return !(*this == o); }
  bool operator<(const D& o) const { return (self() - o) < 0; }
  decltype(auto) operator[](long k) const { return *(self() + k); }
};
template <typename T> struct counting_iterator : rand_it<counting_iterator<T>, T> {
  using value_type = T; using reference = T;
  T base{};
  counting_iterator() = default;
  explicit counting_iterator(T b) : base(b) {}
  T operator*() const { return (T)(base + (T)this->n); }
  friend long operator-(const counting_iterator& a, const counting_iterator& b) { return ((long)a.base + a.n) - ((long)b.base + b.n); }
};
template <typename T> counting_iterator<T> make_counting_iterator(T b) { return counting_iterator<T>(b); }
template <typename T> struct constant_iterator : rand_it<constant_iterator<T>, T> {
  using value_type = T; using reference = T;
  T v{};
  explicit constant_iterator(T x) : v(x) {}
  T operator*() const { return v; }
  friend long operator-(const constant_iterator& a, const constant_iterator& b) { return a.n - b.n; }
};
template <typename T> constant_iterator<T> make_constant_iterator(T v) { return constant_iterator<T>(v); }
template <typename F, typename I> struct transform_iterator : rand_it<transform_iterator<F, I>, void> {
  I it; F f;
  transform_iterator(I i, F g) : it(i), f(g) {}
  using value_type = ::std::decay_t<decltype(::std::declval<const F&>()(*::std::declval<I>()))>; using reference = value_type;
  value_type operator*() const { return f(*(it + this->n)); }
  friend long operator-(const transform_iterator& a, const transform_iterator& b) { return (long)((a.it + a.n) - (b.it + b.n)); }
};
template <typename I, typename F> transform_iterator<F, I> make_transform_iterator(I i, F f) { return {i, f}; }
template <typename F, typename I> struct out_proxy {
  I it; F f;
  template <typename V> void operator=(const V& v) const { *it = f(v); }
};
template <typename F, typename I> struct transform_output_iterator : rand_it<transform_output_iterator<F, I>, void> {
  I it; F f;
  transform_output_iterator(I i, F g) : it(i), f(g) {}
  using value_type = void; using reference = out_proxy<F, I>;
  out_proxy<F, I> operator*() const { return {it + this->n, f}; }
  friend long operator-(const transform_output_iterator& a, const transform_output_iterator& b) { return (long)((a.it + a.n) - (b.it + b.n)); }
};
template <typename I, typename F> transform_output_iterator<F, I> make_transform_output_iterator(I i, F f) { return {i, f}; }
template <typename... Is> struct zip_proxy {
  ::std::tuple<Is...> its;
  template <typename T> void operator=(const T& v) const { assign(v, ::std::index_sequence_for<Is...>{}); }
  template <typename T, size_t... K> void assign(const T& v, ::std::index_sequence<K...>) const { ((*::std::get<K>(its) = ::std::get<K>(v)), ...); }
  using tup = ::std::tuple<::std::decay_t<decltype(*::std::declval<Is>())>...>;
  operator tup() const { return ::std::apply([](auto... i) { return tup(*i...); }, its); }
};
template <typename Tup> struct zip_iterator;
template <typename... Is> struct zip_iterator<::std::tuple<Is...>> : rand_it<zip_iterator<::std::tuple<Is...>>, void> {
  ::std::tuple<Is...> its;
  zip_iterator(::std::tuple<Is...> t) : its(t) {}
  using value_type = ::std::tuple<::std::decay_t<decltype(*::std::declval<Is>())>...>;
  static constexpr bool writable = (::std::is_assignable_v<decltype(*::std::declval<Is>()), ::std::decay_t<decltype(*::std::declval<Is>())>> && ...);
  using reference = ::std::conditional_t<writable, zip_proxy<Is...>, value_type>;
  ::std::tuple<Is...> at() const { long k = this->n; return ::std::apply([k](auto... i) { return ::std::tuple<Is...>((i + k)...); }, its); }
  reference operator*() const {
    if constexpr (writable) return {at()};
    else return ::std::apply([](auto... i) { return value_type(*i...); }, at());
  }
  friend long operator-(const zip_iterator& a, const zip_iterator& b) { return (long)(::std::get<0>(a.at()) - ::std::get<0>(b.at())); }
};
template <typename... Is> zip_iterator<::std::tuple<Is...>> make_zip_iterator(::std::tuple<Is...> t) { return {t}; }
template <typename I0, typename... Is> zip_iterator<::std::tuple<I0, Is...>> make_zip_iterator(I0 i0, Is... is) { return {::std::tuple<I0, Is...>(i0, is...)}; }
template <typename F> struct zip_function {
  F f;
  template <typename T> decltype(auto) operator()(const T& t) const { return ::std::apply(f, t); }
};
template <typename F> zip_function<::std::decay_t<F>> make_zip_function(F&& f) { return {::std::forward<F>(f)}; }

template <typename I> using val_t = typename ::std::iterator_traits<I>::value_type;

template <typename KI, typename VI, typename OI, typename P, typename Op>
OI scan_keys(KI k0, KI k1, VI v, OI o, P pred, Op op) {
  using V = ::std::conditional_t<::std::is_pointer_v<VI>, ::std::remove_const_t<::std::remove_pointer_t<VI>>, typename ::std::iterator_traits<VI>::value_type>;
  long n = (long)(k1 - k0);
  ::std::vector<V> vals;   // the scan reads all its inputs before it writes (in-place use is allowed)
  ::std::vector<long> start(n > 0 ? n : 0);
  for (long i = 0; i < n; ++i) { vals.push_back(static_cast<V>(*(v + i))); start[i] = (i && pred(*(k0 + (i - 1)), *(k0 + i))) ? start[i - 1] : i; }
  auto get = [&](long i) -> V { return vals[i]; };
  ::std::vector<V> res;
  for (long i = 0; i < n; ++i) { unsigned long c = symx_scan::code(); res.push_back(symx_scan::fold<V>(get, start[i], i + 1, op, c)); }
  for (long i = 0; i < n; ++i) *(o + i) = res[i];
  return o + n;
}
#define SYMX_NOPOL(X) ::std::enable_if_t<!::std::is_same_v<::std::decay_t<X>, policy>, int> = 0
template <typename KI, typename VI, typename OI, typename P, typename Op>
OI inclusive_scan_by_key(const policy&, KI a, KI b, VI v, OI o, P p, Op op) { return scan_keys(a, b, v, o, p, op); }
template <typename KI, typename VI, typename OI, typename P>
OI inclusive_scan_by_key(const policy&, KI a, KI b, VI v, OI o, P p) { return scan_keys(a, b, v, o, p, ::std::plus<>()); }
template <typename KI, typename VI, typename OI, typename P, typename Op, SYMX_NOPOL(KI)>
OI inclusive_scan_by_key(KI a, KI b, VI v, OI o, P p, Op op) { return scan_keys(a, b, v, o, p, op); }
template <typename I, typename OI, typename Op>
OI inclusive_scan(const policy&, I a, I b, OI o, Op op) {
  return scan_keys(counting_iterator<long>(0), counting_iterator<long>(0) + (long)(b - a), a, o, [](long, long) { return true; }, op);
}
template <typename I, typename OI, typename F> OI transform(const policy&, I a, I b, OI o, F f) { for (; a != b; ++a, ++o) *o = f(*a); return o; }
template <typename I, typename J, typename OI, typename F> OI transform(const policy&, I a, I b, J c, OI o, F f) { for (; a != b; ++a, ++c, ++o) *o = f(*a, *c); return o; }
template <typename I, typename F> I for_each(const policy&, I a, I b, F f) { for (; a != b; ++a) f(*a); return a; }
template <typename I, typename F> I for_each_n(const policy&, I a, long n, F f) { for (long i = 0; i < n; ++i, ++a) f(*a); return a; }
template <typename I, typename OI> OI copy(const policy&, I a, I b, OI o) { for (; a != b; ++a, ++o) *o = *a; return o; }
template <typename I, typename T> void fill(const policy&, I a, I b, T v) { for (; a != b; ++a) *a = v; }
template <typename I> void sequence(const policy&, I a, I b) { long k = 0; for (; a != b; ++a, ++k) *a = k; }
template <typename I> auto reverse_iterator_of(I i) { return ::std::reverse_iterator<I>(i); }
}  // namespace thrust

namespace c10 { namespace cuda {
struct OptionalCUDAGuard { template <typename... A> explicit OptionalCUDAGuard(A&&...) {} ~OptionalCUDAGuard() {} };
struct CUDAGuard { template <typename... A> explicit CUDAGuard(A&&...) {} ~CUDAGuard() {} };
struct CUDAStream { void* stream() const { return nullptr; } operator void*() const { return nullptr; } };
template <typename... A> CUDAStream getCurrentCUDAStream(A&&...) { return {}; }
}}
namespace at { namespace cuda { using namespace c10::cuda; } }
#define C10_CUDA_CHECK(x) (void)(x)
#define AT_CUDA_CHECK(x) (void)(x)
#define C10_CUDA_KERNEL_LAUNCH_CHECK() ((void)0)
