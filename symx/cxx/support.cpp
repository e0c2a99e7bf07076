#include "symx_prelude.h"
namespace symx {
extern "C" {
binop_t symx_binop = nullptr;
const_t symx_const = nullptr;
void symx_set(binop_t b, const_t c) { symx_binop = b; symx_const = c; }
}
static at::Tensor inner(const at::TensorBase& t) {
  static auto op = c10::Dispatcher::singleton().findSchemaOrThrow("symx::inner", "").typed<at::Tensor(const at::Tensor&)>();
  return op.call(at::Tensor(t));
}
int64_t* ids_ptr(const at::TensorBase& t) {
  at::Tensor i = inner(t);
  TORCH_CHECK(i.scalar_type() == at::kLong, "symx: not a symbolic tensor");
  return i.mutable_data_ptr<int64_t>();
}
int64_t scalar_id(const at::TensorBase& t) {
  at::Tensor i = inner(t);
  TORCH_CHECK(i.numel() == 1, "a Tensor with ", i.numel(), " elements cannot be converted to Scalar");
  return *i.contiguous().const_data_ptr<int64_t>();
}
}
TORCH_LIBRARY(symx, m) { m.def("inner(Tensor x) -> Tensor"); }
