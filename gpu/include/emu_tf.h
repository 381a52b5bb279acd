// The parts of TensorFlow's interface for operations the custom operations use.
#pragma once
#include "cuda_runtime.h"
#include <initializer_list>
#include <map>
#include <sstream>

namespace Eigen {
struct GpuDevice {
  cudaStream_t s = nullptr;
  const cudaStream_t& stream() const { return s; }
};
}  // namespace Eigen

namespace tensorflow {
typedef long long int64;
typedef int int32;
enum DataType { DT_INVALID = 0, DT_FLOAT = 1, DT_DOUBLE = 2, DT_INT32 = 3, DT_INT64 = 9 };
template <class T> struct DataTypeToEnum;
template <> struct DataTypeToEnum<float> { static constexpr DataType value = DT_FLOAT; static constexpr DataType v() { return value; } };
template <> struct DataTypeToEnum<double> { static constexpr DataType value = DT_DOUBLE; static constexpr DataType v() { return value; } };
template <> struct DataTypeToEnum<int> { static constexpr DataType value = DT_INT32; static constexpr DataType v() { return value; } };
template <> struct DataTypeToEnum<long long> { static constexpr DataType value = DT_INT64; static constexpr DataType v() { return value; } };
template <> struct DataTypeToEnum<long> { static constexpr DataType value = DT_INT64; static constexpr DataType v() { return value; } };

class Status {
 public:
  Status() {}
  explicit Status(const std::string& m) : bad_(true), msg_(m) {}
  static Status OK() { return Status(); }
  bool ok() const { return !bad_; }
  const std::string& error_message() const { return msg_; }
  std::string message() const { return msg_; }
 private:
  bool bad_ = false;
  std::string msg_;
};
inline Status OkStatus() { return Status(); }

namespace errors {
template <class... A>
Status Make(A... a) { std::ostringstream s; (void)std::initializer_list<int>{((s << a), 0)...}; return Status(s.str()); }
template <class... A> Status InvalidArgument(A... a) { return Make(a...); }
template <class... A> Status Internal(A... a) { return Make(a...); }
template <class... A> Status OutOfRange(A... a) { return Make(a...); }
template <class... A> Status ResourceExhausted(A... a) { return Make(a...); }
}  // namespace errors

class TensorShape {
 public:
  TensorShape() {}
  TensorShape(std::initializer_list<int64> d) : d_(d) {}
  int dims() const { return (int)d_.size(); }
  int64 dim_size(int i) const;
  void AddDim(int64 n) { d_.push_back(n); }
  int64 num_elements() const { int64 n = 1; for (auto x : d_) n *= x; return n; }
  const std::vector<int64>& d() const { return d_; }
 private:
  std::vector<int64> d_;
};

namespace emu_tf { [[noreturn]] void check_failed(const std::string&); }

template <class T>
struct Flat {
  T* p;
  int64 n;
  T& operator()(int64 i) const { return p[i]; }
  T* data() const { return p; }
  int64 size() const { return n; }
};

class Tensor {
 public:
  Tensor() {}
  const TensorShape& shape() const { return shape_; }
  int dims() const { return shape_.dims(); }
  int64 dim_size(int i) const { return shape_.dim_size(i); }
  int64 NumElements() const { return shape_.num_elements(); }
  DataType dtype() const { return type_; }
  template <class T> Flat<T> flat() const {
    if (DataTypeToEnum<T>::value != type_) emu_tf::check_failed("flat of another type");
    return Flat<T>{(T*)data_, NumElements()};
  }
  TensorShape shape_;
  DataType type_ = DT_INVALID;
  void* data_ = nullptr;
};

struct AllocatorAttributes {
  bool host = false;
  void set_on_host(bool v) { host = v; }
  void set_gpu_compatible(bool) {}
};

class OpKernelConstruction {
 public:
  std::map<std::string, int> attrs;
  Status st;
  Status GetAttr(const char* n, int* v);
  Status GetAttr(const std::string& n, int* v) { return GetAttr(n.c_str(), v); }
  void CtxFailure(const Status& s) { if (st.ok()) st = s; }
};

class OpKernelContext {
 public:
  std::vector<Tensor> in, out;
  Status st;
  Eigen::GpuDevice dev;
  const Tensor& input(int i);
  int num_inputs() const { return (int)in.size(); }
  Status allocate_output(int i, const TensorShape& s, Tensor** t);
  Status allocate_temp(DataType t, const TensorShape& s, Tensor* out);
  Status allocate_temp(DataType t, const TensorShape& s, Tensor* out, AllocatorAttributes a);
  template <class D> const D& eigen_device() const { return dev; }
  void CtxFailure(const Status& s) { if (st.ok()) st = s; }
  void SetStatus(const Status& s) { CtxFailure(s); }
  Status status() const { return st; }
};

class OpKernel {
 public:
  explicit OpKernel(OpKernelConstruction*) {}
  virtual ~OpKernel() {}
  virtual void Compute(OpKernelContext*) = 0;
};

namespace shape_inference {
// dimensions of shapes: -1 is unknown
struct DimensionHandle { int64 v = -1; };
struct DimensionOrConstant {
  int64 v;
  DimensionOrConstant(DimensionHandle d) : v(d.v) {}
  DimensionOrConstant(int64 x) : v(x) {}
  DimensionOrConstant(int x) : v(x) {}
};
struct ShapeHandle { bool known = false, set = false; std::vector<int64> d; };
class InferenceContext {
 public:
  std::vector<ShapeHandle> in, out;
  std::map<std::string, int> attrs;
  static constexpr int64 kUnknownDim = -1;
  ShapeHandle input(int i) { return in.at(i); }
  DimensionHandle Dim(ShapeHandle s, int i) {
    DimensionHandle r;
    int n = (int)s.d.size();
    if (i < 0) i += n;
    if (s.known && i >= 0 && i < n) r.v = s.d[i];
    return r;
  }
  int64 Value(DimensionOrConstant d) { return d.v; }
  bool ValueKnown(DimensionOrConstant d) { return d.v >= 0; }
  int Rank(ShapeHandle s) { return s.known ? (int)s.d.size() : -1; }
  ShapeHandle MakeShape(std::initializer_list<DimensionOrConstant> l) {
    ShapeHandle r; r.known = true; for (auto x : l) r.d.push_back(x.v); return r;
  }
  ShapeHandle Vector(DimensionOrConstant a) { return MakeShape({a}); }
  ShapeHandle Matrix(DimensionOrConstant a, DimensionOrConstant b) { return MakeShape({a, b}); }
  ShapeHandle UnknownShape() { return ShapeHandle(); }
  DimensionHandle UnknownDim() { return DimensionHandle(); }
  DimensionHandle MakeDim(DimensionOrConstant x) { DimensionHandle r; r.v = x.v; return r; }
  void set_output(int i, ShapeHandle s) { if ((int)out.size() <= i) out.resize(i + 1); out[i] = s; out[i].set = true; }
  Status GetAttr(const char* n, int* v) {
    auto a = attrs.find(n);
    if (a == attrs.end()) return errors::InvalidArgument("no attribute ", n);
    *v = a->second;
    return Status::OK();
  }
};
}  // namespace shape_inference

struct OpDef {
  std::string name;
  std::vector<std::string> in, out, attr;
  std::function<Status(shape_inference::InferenceContext*)> shape;
};
struct OpDefBuilder {
  OpDef d;
  explicit OpDefBuilder(const char* n) { d.name = n; }
  OpDefBuilder& Input(const char* s) { d.in.push_back(s); return *this; }
  OpDefBuilder& Output(const char* s) { d.out.push_back(s); return *this; }
  OpDefBuilder& Attr(const char* s) { d.attr.push_back(s); return *this; }
  OpDefBuilder& Doc(const char*) { return *this; }
  OpDefBuilder& SetIsStateful() { return *this; }
  OpDefBuilder& SetShapeFn(std::function<Status(shape_inference::InferenceContext*)> f) { d.shape = f; return *this; }
};
struct OpReg { OpReg(const OpDefBuilder& b); };

static const char* const DEVICE_GPU = "GPU";
static const char* const DEVICE_CPU = "CPU";
struct KernelDefBuilder {
  std::string name, dev;
  std::vector<std::string> host;
  explicit KernelDefBuilder(const char* n) : name(n) {}
  KernelDefBuilder& Device(const char* d) { dev = d; return *this; }
  KernelDefBuilder& HostMemory(const char* a) { host.push_back(a); return *this; }
  template <class T> KernelDefBuilder& TypeConstraint(const char*) { return *this; }
};
struct KernelReg {
  KernelReg(const KernelDefBuilder& b, std::function<OpKernel*(OpKernelConstruction*)> f);
};
inline KernelDefBuilder Name(const char* n) { return KernelDefBuilder(n); }
}  // namespace tensorflow

#define EMU_CAT2(a, b) a##b
#define EMU_CAT(a, b) EMU_CAT2(a, b)
#define REGISTER_OP(n) \
  static ::tensorflow::OpReg EMU_CAT(emu_op_, __COUNTER__) = ::tensorflow::OpDefBuilder(n)
#define REGISTER_KERNEL_BUILDER(b, ...)                                       \
  static ::tensorflow::KernelReg EMU_CAT(emu_kernel_, __COUNTER__)(           \
      ::tensorflow::b, [](::tensorflow::OpKernelConstruction* c) -> ::tensorflow::OpKernel* { return new __VA_ARGS__(c); })
#define TF_PREDICT_TRUE(x) (x)
#define TF_PREDICT_FALSE(x) (x)
#define TF_RETURN_IF_ERROR(...) \
  do { ::tensorflow::Status emu_s = (__VA_ARGS__); if (!emu_s.ok()) return emu_s; } while (0)
#define OP_REQUIRES(ctx, cond, ...) \
  do { if (!(cond)) { (ctx)->CtxFailure(__VA_ARGS__); return; } } while (0)
#define OP_REQUIRES_OK(ctx, ...) \
  do { ::tensorflow::Status emu_s(__VA_ARGS__); if (!emu_s.ok()) { (ctx)->CtxFailure(emu_s); return; } } while (0)
