// Symbolic scalar for executing the real C++ kernels over expression ids.
#pragma once
#include <ATen/ATen.h>
#include <ATen/Dispatch.h>
#include <ATen/Parallel.h>
#include <ATen/core/TensorBase.h>
#include <ATen/core/dispatch/Dispatcher.h>
#include <torch/library.h>
#include <array>
#include <cstdint>
#include <functional>
#include <limits>
#include <numeric>
#include <tuple>
#include <type_traits>
#include <valarray>
#include <vector>

namespace symx {
typedef int64_t (*binop_t)(int op, int64_t a, int64_t b);
typedef int64_t (*const_t)(double re, double im);
extern "C" binop_t symx_binop;
extern "C" const_t symx_const;

struct Sym {
  int64_t id;
  Sym() = default;  // like a builtin scalar: indeterminate unless value-initialised
  Sym(const Sym&) = default;
  Sym& operator=(const Sym&) = default;
  template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T>>>
  Sym(T v) : id(v == T(0) ? 0 : symx_const((double)v, 0.0)) {}
  template <typename T>
  Sym(const c10::complex<T>& v) : id(symx_const((double)v.real(), (double)v.imag())) {}
  Sym(const c10::Half& v) : Sym((double)(float)v) {}
  Sym(const c10::BFloat16& v) : Sym((double)(float)v) {}
  static Sym mk(int64_t i) { Sym s; s.id = i; return s; }
  Sym& operator+=(const Sym& o) { id = symx_binop(0, id, o.id); return *this; }
  Sym& operator-=(const Sym& o) { id = symx_binop(1, id, o.id); return *this; }
  Sym& operator*=(const Sym& o) { id = symx_binop(2, id, o.id); return *this; }
  Sym& operator/=(const Sym& o) { id = symx_binop(3, id, o.id); return *this; }
  Sym operator-() const { return mk(symx_binop(4, id, 0)); }
  Sym operator+() const { return *this; }
  Sym& operator++() { return *this += Sym(1); }
  Sym real() const { return mk(symx_binop(6, id, 0)); }
  Sym imag() const { return mk(symx_binop(7, id, 0)); }
};
#define SYMX_BIN(OP, N)                                                             \
  inline Sym operator OP(const Sym& a, const Sym& b) { return Sym::mk(symx_binop(N, a.id, b.id)); } \
  template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T>>>     \
  inline Sym operator OP(const Sym& a, T b) { return a OP Sym(b); }                 \
  template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T>>>     \
  inline Sym operator OP(T a, const Sym& b) { return Sym(a) OP b; }
SYMX_BIN(+, 0)
SYMX_BIN(-, 1)
SYMX_BIN(*, 2)
SYMX_BIN(/, 3)
#define SYMX_CMP(OP, N)                                                             \
  inline bool operator OP(const Sym& a, const Sym& b) { return symx_binop(N, a.id, b.id) != 0; }
SYMX_CMP(==, 10)
SYMX_CMP(!=, 11)
SYMX_CMP(<, 12)
SYMX_CMP(<=, 13)
SYMX_CMP(>, 14)
SYMX_CMP(>=, 15)
inline Sym conj(const Sym& a) { return Sym::mk(symx_binop(5, a.id, 0)); }
inline Sym fma(const Sym& a, const Sym& b, const Sym& c) { return a * b + c; }

int64_t* ids_ptr(const at::TensorBase& t);
int64_t scalar_id(const at::TensorBase& t);
}  // namespace symx

namespace std {
inline symx::Sym conj(const symx::Sym& a) { return symx::conj(a); }
inline symx::Sym fma(const symx::Sym& a, const symx::Sym& b, const symx::Sym& c) { return a * b + c; }
}  // namespace std

namespace at {
template <> inline const symx::Sym* TensorBase::const_data_ptr<symx::Sym>() const { return (const symx::Sym*)symx::ids_ptr(*this); }
template <> inline const symx::Sym* TensorBase::const_data_ptr<const symx::Sym>() const { return (const symx::Sym*)symx::ids_ptr(*this); }
template <> inline symx::Sym* TensorBase::mutable_data_ptr<symx::Sym>() const { return (symx::Sym*)symx::ids_ptr(*this); }
template <> inline symx::Sym* TensorBase::data_ptr<symx::Sym>() const { return (symx::Sym*)symx::ids_ptr(*this); }
template <> inline symx::Sym Tensor::item<symx::Sym>() const { return symx::Sym::mk(symx::scalar_id(*this)); }
}  // namespace at

#undef AT_PRIVATE_CASE_TYPE_USING_HINT
#define AT_PRIVATE_CASE_TYPE_USING_HINT(enum_type, HINT, ...) \
  case enum_type: {                                           \
    using HINT [[maybe_unused]] = ::symx::Sym;                \
    return __VA_ARGS__();                                     \
  }
