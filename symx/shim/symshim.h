// Symbolic scalars and a small tensor library with the subset of the ATen interface used by the CPU kernels.
// `float` and `double` are replaced by SymReal (a term id owned by the Python side) in the code compiled after this header.
#pragma once
#include <bits/stdc++.h>
#include <assert.h>
#include <math.h>

typedef double cdouble_t;
typedef float cfloat_t;

struct SymCallbacks {
  int64_t (*constant)(cdouble_t v, int single);
  int64_t (*op)(int code, int64_t a, int64_t b);
  int (*branch)(int64_t cond); // 0/1, 2 = abort
  int64_t (*toint)(int64_t t, int mode, int* err); // 0 trunc 1 floor 2 ceil 3 lround
  int64_t (*fresh)(int kind); // garbage value
};
extern SymCallbacks g_cb;
extern int g_num_threads;
extern int g_oob;

struct SymAbort {};

enum SymOp { OP_ADD = 0, OP_SUB, OP_MUL, OP_DIV, OP_NEG, OP_MIN, OP_MAX, OP_ABS, OP_SQRT, OP_EXP, OP_LOG, OP_POW, OP_SIN, OP_COS, OP_ACOS, OP_ATAN2,
  OP_LT, OP_LE, OP_EQ, OP_NE, OP_AND, OP_OR, OP_NOT, OP_FLOOR, OP_CEIL, OP_TRUNC, OP_ROUND, OP_ITE_C, OP_ITE, OP_TANH, OP_ASIN, OP_B2R };

// constants made during static initialisation (before the callbacks are set) are numbered -2, -3, ...
struct SymPending { cdouble_t v; int single; };
inline std::vector<SymPending>& sym_pending() {
  static std::vector<SymPending> v;
  return v;
}
inline int64_t sym_const(cdouble_t v, int single) {
  if (g_cb.constant)
    return g_cb.constant(v, single);
  sym_pending().push_back({v, single});
  return -1 - (int64_t)sym_pending().size();
}
inline int64_t sym_res(int64_t id) {
  if (id < -1) {
    const SymPending& p = sym_pending().at(-id - 2);
    return g_cb.constant(p.v, p.single);
  }
  return id;
}
inline int64_t sym_op(int c, int64_t a, int64_t b = -1) {
  int64_t r = g_cb.op(c, sym_res(a), sym_res(b));
  if (r < 0)
    throw SymAbort();
  return r;
}

struct SymReal;
struct SymBool {
  int64_t id;
  explicit SymBool(int64_t i) : id(i) {}
  operator bool() const {
    int r = g_cb.branch(sym_res(id));
    if (r == 2)
      throw SymAbort();
    return r != 0;
  }
  SymBool operator!() const {
    return SymBool(sym_op(OP_NOT, id));
  }
  friend SymBool operator&&(const SymBool& a, const SymBool& b) {
    return SymBool(sym_op(OP_AND, a.id, b.id));
  }
  friend SymBool operator||(const SymBool& a, const SymBool& b) {
    return SymBool(sym_op(OP_OR, a.id, b.id));
  }
};

struct SymReal {
  int64_t id;
  static int64_t zero() {
    return sym_const(0.0, 0);
  }
  SymReal() : id(zero()) {}
  SymReal(const SymReal&) = default;
  SymReal& operator=(const SymReal& o) {
    id = sym_res(o.id);
    return *this;
  }
  SymReal(cdouble_t v) : id(sym_const(v, 0)) {}
  SymReal(cfloat_t v) : id(sym_const((cdouble_t)v, 1)) {}
  template <class I, std::enable_if_t<std::is_integral<I>::value, int> = 0>
  SymReal(I v) : id(sym_const((cdouble_t)v, 0)) {}
  static SymReal raw(int64_t i) {
    SymReal r(nullptr, i);
    return r;
  }
  int64_t toint(int mode) const {
    int err = 0;
    int64_t v = g_cb.toint(sym_res(id), mode, &err);
    if (err)
      throw SymAbort();
    return v;
  }
#ifdef SYM_NO_INT
#define SYM_INT_EXTRA && !std::is_same<I, int>::value
  template <class I, std::enable_if_t<std::is_same<I, int>::value, int> = 0, int = 0>
  explicit operator I() const { return (I)toint(0); }
#else
#define SYM_INT_EXTRA
#endif
  template <class I, std::enable_if_t<std::is_integral<I>::value && !std::is_same<I, bool>::value SYM_INT_EXTRA, int> = 0>
  operator I() const {
    return (I)toint(0);
  }
  explicit operator bool() const;
  SymReal operator-() const {
    return raw(sym_op(OP_NEG, id));
  }
  SymReal operator+() const {
    return *this;
  }
  SymReal& operator+=(const SymReal& b) {
    id = sym_op(OP_ADD, id, b.id);
    return *this;
  }
  SymReal& operator-=(const SymReal& b) {
    id = sym_op(OP_SUB, id, b.id);
    return *this;
  }
  SymReal& operator*=(const SymReal& b) {
    id = sym_op(OP_MUL, id, b.id);
    return *this;
  }
  SymReal& operator/=(const SymReal& b) {
    id = sym_op(OP_DIV, id, b.id);
    return *this;
  }
  SymReal& operator++() {
    return *this += SymReal(1);
  }
  SymReal operator++(int) {
    SymReal r = *this;
    ++*this;
    return r;
  }
  SymReal& operator--() {
    return *this -= SymReal(1);
  }

 private:
  SymReal(std::nullptr_t, int64_t i) : id(i) {}
};
static_assert(sizeof(SymReal) == 8, "layout");

template <class X>
using sym_arith = std::enable_if_t<std::is_arithmetic<X>::value, int>;

inline SymReal operator""_sf(long double v) { return SymReal((cfloat_t)v); }
inline SymReal operator""_sd(long double v) { return SymReal((cdouble_t)v); }
#define SYM_BIN(OPR, CODE)                                                      \
  inline SymReal operator OPR(const SymReal& a, const SymReal& b) {             \
    return SymReal::raw(sym_op(CODE, a.id, b.id));                              \
  }                                                                             \
  template <class X, sym_arith<X> = 0>                                          \
  inline SymReal operator OPR(const SymReal& a, const X& b) {                   \
    return SymReal::raw(sym_op(CODE, a.id, SymReal(b).id));                     \
  }                                                                             \
  template <class X, sym_arith<X> = 0>                                          \
  inline SymReal operator OPR(const X& a, const SymReal& b) {                   \
    return SymReal::raw(sym_op(CODE, SymReal(a).id, b.id));                     \
  }
SYM_BIN(+, OP_ADD)
SYM_BIN(-, OP_SUB)
SYM_BIN(*, OP_MUL)
SYM_BIN(/, OP_DIV)
#define SYM_CMP(OPR, CODE, SWAP)                                                \
  inline SymBool operator OPR(const SymReal& a, const SymReal& b) {             \
    return SymBool(SWAP ? sym_op(CODE, b.id, a.id) : sym_op(CODE, a.id, b.id)); \
  }                                                                             \
  template <class X, sym_arith<X> = 0>                                          \
  inline SymBool operator OPR(const SymReal& a, const X& b) {                   \
    return a OPR SymReal(b);                                                    \
  }                                                                             \
  template <class X, sym_arith<X> = 0>                                          \
  inline SymBool operator OPR(const X& a, const SymReal& b) {                   \
    return SymReal(a) OPR b;                                                    \
  }
SYM_CMP(<, OP_LT, false)
SYM_CMP(<=, OP_LE, false)
SYM_CMP(>, OP_LT, true)
SYM_CMP(>=, OP_LE, true)
SYM_CMP(==, OP_EQ, false)
SYM_CMP(!=, OP_NE, false)
inline SymReal::operator bool() const {
  return (bool)(*this != SymReal(0));
}

inline const SymReal& sym_keep(int64_t id) {
  static std::deque<SymReal> pool;
  pool.push_back(SymReal::raw(id));
  return pool.back();
}

inline std::ostream& operator<<(std::ostream& os, const SymReal& v) {
  return os << "t" << v.id;
}

#define SYM_UN(NAME, CODE)                        \
  inline SymReal NAME(const SymReal& a) {         \
    return SymReal::raw(sym_op(CODE, a.id));      \
  }
#define SYM_BI(NAME, CODE)                                        \
  inline SymReal NAME(const SymReal& a, const SymReal& b) {       \
    return SymReal::raw(sym_op(CODE, a.id, b.id));                \
  }                                                               \
  template <class X, sym_arith<X> = 0>                            \
  inline SymReal NAME(const SymReal& a, const X& b) {             \
    return SymReal::raw(sym_op(CODE, a.id, SymReal(b).id));       \
  }                                                               \
  template <class X, sym_arith<X> = 0>                            \
  inline SymReal NAME(const X& a, const SymReal& b) {             \
    return SymReal::raw(sym_op(CODE, SymReal(a).id, b.id));       \
  }
#define SYM_FUNS        \
  SYM_UN(abs, OP_ABS)   \
  SYM_UN(fabs, OP_ABS)  \
  SYM_UN(fabsf, OP_ABS) \
  SYM_UN(sqrt, OP_SQRT) \
  SYM_UN(sqrtf, OP_SQRT) \
  SYM_UN(exp, OP_EXP)   \
  SYM_UN(expf, OP_EXP)  \
  SYM_UN(log, OP_LOG)   \
  SYM_UN(logf, OP_LOG)  \
  SYM_UN(sin, OP_SIN)   \
  SYM_UN(cos, OP_COS)   \
  SYM_UN(acos, OP_ACOS) \
  SYM_UN(asin, OP_ASIN) \
  SYM_UN(tanh, OP_TANH) \
  SYM_UN(floor, OP_FLOOR) \
  SYM_UN(floorf, OP_FLOOR) \
  SYM_UN(ceil, OP_CEIL) \
  SYM_UN(ceilf, OP_CEIL) \
  SYM_UN(trunc, OP_TRUNC) \
  SYM_UN(round, OP_ROUND) \
  SYM_BI(fmin, OP_MIN)  \
  SYM_BI(fmax, OP_MAX)  \
  SYM_BI(fminf, OP_MIN) \
  SYM_BI(fmaxf, OP_MAX) \
  SYM_BI(atan2, OP_ATAN2) \
  SYM_BI(pow, OP_POW)   \
  SYM_BI(powf, OP_POW)  \
  inline SymReal fma(const SymReal& a, const SymReal& b, const SymReal& c) { return a * b + c; } \
  inline SymReal hypot(const SymReal& a, const SymReal& b) { return sqrt(a * a + b * b); } \
  inline long lround(const SymReal& a) { return a.toint(3); } \
  inline long long llround(const SymReal& a) { return a.toint(3); } \
  inline SymReal modf(const SymReal& a, SymReal* ip) { *ip = SymReal((int64_t)a.toint(0)); return a - *ip; } \
  inline bool isnan(const SymReal&) { return false; } \
  inline bool isinf(const SymReal&) { return false; } \
  inline bool isfinite(const SymReal&) { return true; } \
  inline bool signbit(const SymReal& a) { return a < SymReal(0); }
SYM_FUNS
namespace std {
using ::abs;
using ::fabs;
using ::fabsf;
using ::sqrt;
using ::sqrtf;
using ::exp;
using ::expf;
using ::log;
using ::logf;
using ::sin;
using ::cos;
using ::acos;
using ::asin;
using ::tanh;
using ::floor;
using ::floorf;
using ::ceil;
using ::ceilf;
using ::trunc;
using ::round;
using ::fmin;
using ::fmax;
using ::fminf;
using ::fmaxf;
using ::atan2;
using ::pow;
using ::powf;
using ::fma;
using ::hypot;
using ::lround;
using ::llround;
using ::modf;
using ::signbit;
using ::isnan;
using ::isinf;
using ::isfinite;
template <>
inline const SymReal& min<SymReal>(const SymReal& a, const SymReal& b) {
  return sym_keep(sym_op(OP_MIN, a.id, b.id));
}
template <>
inline const SymReal& max<SymReal>(const SymReal& a, const SymReal& b) {
  return sym_keep(sym_op(OP_MAX, a.id, b.id));
}
// mixed literals (std::min(0.0f, x) with a true float literal)
template <class X, sym_arith<X> = 0>
inline SymReal min(const SymReal& a, const X& b) {
  return SymReal::raw(sym_op(OP_MIN, a.id, SymReal(b).id));
}
template <class X, sym_arith<X> = 0>
inline SymReal min(const X& a, const SymReal& b) {
  return SymReal::raw(sym_op(OP_MIN, SymReal(a).id, b.id));
}
template <class X, sym_arith<X> = 0>
inline SymReal max(const SymReal& a, const X& b) {
  return SymReal::raw(sym_op(OP_MAX, a.id, SymReal(b).id));
}
template <class X, sym_arith<X> = 0>
inline SymReal max(const X& a, const SymReal& b) {
  return SymReal::raw(sym_op(OP_MAX, SymReal(a).id, b.id));
}
template <>
inline SymReal min<SymReal>(initializer_list<SymReal> l) {
  SymReal r = *l.begin();
  for (auto& x : l)
    r = SymReal::raw(sym_op(OP_MIN, r.id, x.id));
  return r;
}
template <>
inline SymReal max<SymReal>(initializer_list<SymReal> l) {
  SymReal r = *l.begin();
  for (auto& x : l)
    r = SymReal::raw(sym_op(OP_MAX, r.id, x.id));
  return r;
}
template <>
class numeric_limits<SymReal> {
 public:
  static constexpr bool is_specialized = true;
  static constexpr bool has_infinity = true;
  static constexpr bool is_signed = true;
  static SymReal max() { return SymReal((cfloat_t)3.4028234663852886e38f); }
  static SymReal lowest() { return SymReal((cfloat_t)-3.4028234663852886e38f); }
  static SymReal min() { return SymReal((cfloat_t)1.17549435e-38f); }
  static SymReal epsilon() { return SymReal((cfloat_t)1.1920929e-07f); }
  static SymReal infinity() { return SymReal((cdouble_t)__builtin_inf()); }
  static SymReal quiet_NaN() { return SymReal((cdouble_t)__builtin_nan("")); }
};
struct symthread {
  symthread() {}
  template <class F, class... A>
  explicit symthread(F&& f, A&&... a) {
    std::apply(
        [&](auto&&... x) { std::invoke(std::forward<F>(f), x...); }, std::make_tuple(std::forward<A>(a)...));
  }
  symthread(symthread&&) = default;
  symthread& operator=(symthread&&) = default;
  bool joinable() const { return true; }
  void join() {}
  void detach() {}
  static unsigned hardware_concurrency() { return g_num_threads; }
};
template <class T>
struct is_floating_point_sym : std::is_floating_point<T> {};
} // namespace std

// ---------------------------------------------------------------------------------------------- tensors
enum class SymType : int { Float = 0, Long = 1, Int = 2, Bool = 3, Byte = 4, Double = 5, Short = 6 };

struct SymError : std::runtime_error {
  using std::runtime_error::runtime_error;
};
template <class... A>
inline std::string sym_msg(const A&... a) {
  std::ostringstream s;
  (void)std::initializer_list<int>{((s << a), 0)...};
  return s.str();
}
#define AT_ERROR(...) throw SymError(sym_msg(__VA_ARGS__))
#define TORCH_CHECK(c, ...)                    \
  do {                                         \
    if (!(c))                                  \
      throw SymError(sym_msg(#c, ##__VA_ARGS__)); \
  } while (0)
#define AT_ASSERTM(c, ...) TORCH_CHECK(c, ##__VA_ARGS__)
#define AT_ASSERT(c, ...) TORCH_CHECK(c, ##__VA_ARGS__)
#define TORCH_INTERNAL_ASSERT(c, ...) TORCH_CHECK(c, ##__VA_ARGS__)
#define TORCH_CHECK_VALUE(c, ...) TORCH_CHECK(c, ##__VA_ARGS__)

namespace at {
using ScalarType = SymType;
constexpr SymType kFloat = SymType::Float, kFloat32 = SymType::Float, kLong = SymType::Long, kInt64 = SymType::Long, kInt = SymType::Int, kInt32 = SymType::Int, kBool = SymType::Bool, kByte = SymType::Byte, kUInt8 = SymType::Byte, kDouble = SymType::Double, kFloat64 = SymType::Double;
enum DeviceType { kCPU = 0, kCUDA = 1 };
struct Device {
  DeviceType t = kCPU;
  DeviceType type() const { return t; }
  bool is_cpu() const { return true; }
  bool is_cuda() const { return false; }
  bool operator==(const Device&) const { return true; }
  bool operator!=(const Device&) const { return false; }
};
struct TensorOptions {
  SymType d = SymType::Float;
  TensorOptions() {}
  TensorOptions(SymType x) : d(x) {}
  TensorOptions dtype(SymType x) const { TensorOptions o; o.d = x; return o; }
  TensorOptions device(Device) const { return *this; }
  TensorOptions device(DeviceType) const { return *this; }
  TensorOptions requires_grad(bool) const { return *this; }
};
inline TensorOptions dtype(SymType x) { return TensorOptions(x); }
inline TensorOptions device(DeviceType) { return TensorOptions(); }
inline size_t sym_size(SymType t) {
  switch (t) {
    case SymType::Float: case SymType::Double: case SymType::Long: return 8;
    case SymType::Int: return 4;
    case SymType::Short: return 2;
    default: return 1;
  }
}
template <class T> struct sym_is { static bool ok(SymType) { return false; } };
template <> struct sym_is<SymReal> { static bool ok(SymType t) { return t == SymType::Float; } };
template <> struct sym_is<int64_t> { static bool ok(SymType t) { return t == SymType::Long; } };
template <> struct sym_is<long long> { static bool ok(SymType t) { return t == SymType::Long; } };
template <> struct sym_is<int32_t> { static bool ok(SymType t) { return t == SymType::Int; } };
template <> struct sym_is<bool> { static bool ok(SymType t) { return t == SymType::Bool; } };
template <> struct sym_is<uint8_t> { static bool ok(SymType t) { return t == SymType::Byte; } };
template <class T> struct sym_is<const T> : sym_is<T> {};

template <class T>
inline T& sym_garbage() {
  ++g_oob;
  if constexpr (std::is_same<std::remove_const_t<T>, SymReal>::value)
    return const_cast<T&>(sym_keep(g_cb.fresh(1)));
  else {
    static std::deque<std::remove_const_t<T>> pool;
    pool.push_back(0);
    return pool.back();
  }
}

struct IntArrayRef : std::vector<int64_t> {
  using std::vector<int64_t>::vector;
  IntArrayRef(const std::vector<int64_t>& v) : std::vector<int64_t>(v) {}
  std::vector<int64_t> vec() const { return *this; }
};

template <class T, size_t N>
struct TensorAccessor {
  typedef T* PtrType;
  T* base; const int64_t* sz; const int64_t* st; T* lo; T* hi;
  TensorAccessor(T* b, const int64_t* s, const int64_t* t, T* l, T* h) : base(b), sz(s), st(t), lo(l), hi(h) {}
  template <class U, std::enable_if_t<std::is_same<const U, T>::value, int> = 0>
  TensorAccessor(const TensorAccessor<U, N>& o) : base(o.base), sz(o.sz), st(o.st), lo(o.lo), hi(o.hi) {}
  int64_t size(int i) const { return sz[i]; }
  IntArrayRef sizes() const { return IntArrayRef(sz, sz + N); }
  int64_t stride(int i) const { return st[i]; }
  T* data() const { return base; }
  TensorAccessor<T, N - 1> operator[](int64_t i) const {
    return TensorAccessor<T, N - 1>(base + i * st[0], sz + 1, st + 1, lo, hi);
  }
};
template <class T>
struct TensorAccessor<T, 1> {
  typedef T* PtrType;
  T* base; const int64_t* sz; const int64_t* st; T* lo; T* hi;
  TensorAccessor(T* b, const int64_t* s, const int64_t* t, T* l, T* h) : base(b), sz(s), st(t), lo(l), hi(h) {}
  template <class U, std::enable_if_t<std::is_same<const U, T>::value, int> = 0>
  TensorAccessor(const TensorAccessor<U, 1>& o) : base(o.base), sz(o.sz), st(o.st), lo(o.lo), hi(o.hi) {}
  int64_t size(int i) const { return sz[i]; }
  IntArrayRef sizes() const { return IntArrayRef(sz, sz + 1); }
  int64_t stride(int i) const { return st[i]; }
  T* data() const { return base; }
  T& operator[](int64_t i) const {
    T* p = base + i * st[0];
    if (p < lo || p >= hi)
      return sym_garbage<T>();
    return *p;
  }
};

struct Scalar {
  bool isf; int64_t i; SymReal f;
  Scalar(const SymReal& x) : isf(true), i(0), f(x) {}
  template <class I, std::enable_if_t<std::is_integral<I>::value, int> = 0>
  Scalar(I v) : isf(false), i((int64_t)v), f(v) {}
  template <class I, std::enable_if_t<std::is_floating_point<I>::value, int> = 0, int = 0>
  Scalar(I v) : isf(true), i((int64_t)v), f(v) {}
  template <class T> T to() const {
    if constexpr (std::is_same<T, SymReal>::value) return f;
    else return isf ? (T)f.toint(0) : (T)i;
  }
  template <class T> operator T() const { return to<T>(); }
  SymReal toFloat() const { return f; }
  SymReal toDouble() const { return f; }
  int64_t toLong() const { return to<int64_t>(); }
  int64_t toInt() const { return to<int64_t>(); }
};

struct Storage {
  std::vector<char> b;
};

struct Tensor {
  std::shared_ptr<Storage> s;
  std::vector<int64_t> sz, st;
  int64_t off = 0;
  SymType t = SymType::Float;
  bool def = false;
  Tensor() {}
  Tensor(const Tensor&) = default;
  Tensor(Tensor&&) = default;
  Tensor(const std::vector<int64_t>& sizes, SymType ty) : sz(sizes), t(ty), def(true) {
    int64_t n = 1;
    st.resize(sz.size());
    for (int i = (int)sz.size() - 1; i >= 0; --i) { st[i] = n; n *= sz[i]; }
    s = std::make_shared<Storage>();
    s->b.resize(n * sym_size(t));
    if (is_f()) { int64_t z = SymReal::zero(); for (int64_t k = 0; k < n; ++k) ((int64_t*)s->b.data())[k] = z; }
  }
  Tensor& operator=(const Tensor& o) & = default;
  Tensor& operator=(Tensor&& o) & = default;
  Tensor& operator=(const Tensor& o) && { return copy_(o); }
  Tensor& operator=(const Scalar& v) && { return fill_(v); }
  template <class X, sym_arith<X> = 0> Tensor& operator=(const X& v) && { return fill_(Scalar(v)); }
  Tensor& inplace(int code, const Tensor& o) { auto v = o.values(); size_t k = 0; bool one = v.size() == 1; each([&](int64_t q) { const Scalar& y = v[one ? 0 : k++]; Scalar x = get(q);
      if (is_f()) put(q, Scalar(SymReal::raw(sym_op(code, x.f.id, y.f.id))));
      else put(q, Scalar(code == OP_ADD ? x.i + y.i : code == OP_SUB ? x.i - y.i : x.i * y.i)); }); return *this; }
  static Tensor of(const Scalar& v) { Tensor r({}, v.isf ? SymType::Float : SymType::Long); r.fill_(v); return r; }
#define SYM_INPL(O, C) Tensor& operator O(const Tensor& o) { return inplace(C, o); } Tensor& operator O(const Scalar& v) { return inplace(C, of(v)); } \
  template <class X, sym_arith<X> = 0> Tensor& operator O(const X& v) { return inplace(C, of(Scalar(v))); } \
  Tensor& operator O(const SymReal& v) { return inplace(C, of(Scalar(v))); }
  SYM_INPL(+=, OP_ADD) SYM_INPL(-=, OP_SUB) SYM_INPL(*=, OP_MUL) SYM_INPL(/=, OP_DIV)
  Tensor& add_(const Tensor& o) { return inplace(OP_ADD, o); }
  Tensor& mul_(const Tensor& o) { return inplace(OP_MUL, o); }
  Tensor& div_(const Tensor& o) { return inplace(OP_DIV, o); }
  Tensor& operator=(const SymReal& v) && { return fill_(Scalar(v)); }
  bool is_f() const { return t == SymType::Float || t == SymType::Double; }
  bool defined() const { return def; }
  int64_t dim() const { return sz.size(); }
  int64_t ndimension() const { return sz.size(); }
  int64_t size(int64_t i) const {
    if (i < 0) i += (int64_t)sz.size();
    if (i < 0 || i >= (int64_t)sz.size()) throw SymError("Dimension out of range");
    return sz[i];
  }
  int64_t stride(int64_t i) const { return st[i < 0 ? i + (int64_t)st.size() : i]; }
  IntArrayRef sizes() const { return IntArrayRef(sz); }
  IntArrayRef strides() const { return IntArrayRef(st); }
  int64_t numel() const { int64_t n = 1; for (auto x : sz) n *= x; return n; }
  TensorOptions options() const { return TensorOptions(t); }
  SymType scalar_type() const { return t; }
  SymType dtype() const { return t; }
  Device device() const { return Device(); }
  bool is_cuda() const { return false; }
  bool is_cpu() const { return true; }
  bool requires_grad() const { return false; }
  bool is_contiguous() const {
    int64_t n = 1;
    for (int i = (int)sz.size() - 1; i >= 0; --i) { if (sz[i] != 1 && st[i] != n) return false; n *= sz[i]; }
    return true;
  }
  template <class T> void check() const {
    if (!sym_is<T>::ok(t)) throw SymError("expected scalar type does not match the tensor's dtype");
  }
  template <class T, size_t N> TensorAccessor<T, N> accessor() const {
    check<T>();
    if ((int64_t)N != dim()) throw SymError(sym_msg("TensorAccessor expected ", N, " dims but tensor has ", dim()));
    T* b = (T*)s->b.data();
    return TensorAccessor<T, N>(b + off, sz.data(), st.data(), b, b + s->b.size() / sizeof(T));
  }
  template <class T> T* data_ptr() const { check<T>(); return (T*)s->b.data() + off; }
  template <class T> T* mutable_data_ptr() const { return data_ptr<T>(); }
  template <class T> const T* const_data_ptr() const { return data_ptr<T>(); }
  Tensor select(int64_t d, int64_t i) const {
    Tensor r = *this;
    if (d < 0) d += dim();
    if (i < 0) i += sz[d];
    if (i < 0 || i >= sz[d]) throw SymError("index out of range");
    r.off += i * st[d];
    r.sz.erase(r.sz.begin() + d);
    r.st.erase(r.st.begin() + d);
    return r;
  }
  Tensor operator[](int64_t i) const { return select(0, i); }
  Tensor narrow(int64_t d, int64_t a, int64_t n) const { Tensor r = *this; r.off += a * st[d]; r.sz[d] = n; return r; }
  Tensor slice(int64_t d, int64_t a, int64_t b) const { return narrow(d, a, std::min(b, sz[d]) - a); }
  Tensor transpose(int64_t a, int64_t b) const { Tensor r = *this; if (a < 0) a += dim(); if (b < 0) b += dim(); std::swap(r.sz[a], r.sz[b]); std::swap(r.st[a], r.st[b]); return r; }
  Tensor t_() const { return transpose(0, 1); }
  Tensor unsqueeze(int64_t d) const { Tensor r = *this; if (d < 0) d += dim() + 1; r.sz.insert(r.sz.begin() + d, 1); r.st.insert(r.st.begin() + d, 0); return r; }
  template <class F> void each(F f) const {
    std::vector<int64_t> ix(sz.size(), 0);
    int64_t n = numel();
    for (int64_t k = 0; k < n; ++k) {
      int64_t o = off;
      for (size_t i = 0; i < sz.size(); ++i) o += ix[i] * st[i];
      f(o);
      for (int i = (int)sz.size() - 1; i >= 0; --i) { if (++ix[i] < sz[i]) break; ix[i] = 0; }
    }
  }
  Scalar get(int64_t o) const {
    char* p = s->b.data() + o * sym_size(t);
    switch (t) {
      case SymType::Float: case SymType::Double: return Scalar(SymReal::raw(*(int64_t*)p));
      case SymType::Long: return Scalar(*(int64_t*)p);
      case SymType::Int: return Scalar(*(int32_t*)p);
      case SymType::Short: return Scalar(*(int16_t*)p);
      default: return Scalar(*(uint8_t*)p);
    }
  }
  void put(int64_t o, const Scalar& v) const {
    char* p = s->b.data() + o * sym_size(t);
    switch (t) {
      case SymType::Float: case SymType::Double: *(int64_t*)p = sym_res(v.f.id); break;
      case SymType::Long: *(int64_t*)p = v.to<int64_t>(); break;
      case SymType::Int: *(int32_t*)p = v.to<int64_t>(); break;
      case SymType::Short: *(int16_t*)p = v.to<int64_t>(); break;
      case SymType::Bool: *(uint8_t*)p = v.to<int64_t>() != 0; break;
      default: *(uint8_t*)p = v.to<int64_t>(); break;
    }
  }
  Tensor& fill_(const Scalar& v) const { each([&](int64_t o) { put(o, v); }); return const_cast<Tensor&>(*this); }
  Tensor& zero_() const { return fill_(Scalar(0)); }
  std::vector<Scalar> values() const { std::vector<Scalar> r; each([&](int64_t o) { r.push_back(get(o)); }); return r; }
  Tensor& copy_(const Tensor& o) const { auto v = o.values(); size_t k = 0; bool one = v.size() == 1; each([&](int64_t q) { put(q, v[one ? 0 : k++]); }); return const_cast<Tensor&>(*this); }
  Tensor contiguous() const { if (is_contiguous()) return *this; return clone(); }
  Tensor clone() const { Tensor r(sz, t); r.copy_(*this); return r; }
  Tensor detach() const { return *this; }
  Tensor cpu() const { return *this; }
  Tensor to(SymType ty) const { if (ty == t) return *this; Tensor r(sz, ty); r.copy_(*this); return r; }
  Tensor to(TensorOptions o) const { return to(o.d); }
  Tensor toType(SymType ty) const { return to(ty); }
  Tensor view(std::vector<int64_t> n) const { return reshape(n); }
  Tensor reshape(std::vector<int64_t> n) const {
    int64_t k = 1; int neg = -1;
    for (size_t i = 0; i < n.size(); ++i) { if (n[i] < 0) neg = i; else k *= n[i]; }
    if (neg >= 0) n[neg] = numel() / k;
    Tensor c = contiguous();
    Tensor r(n, t); r.s = c.s; r.off = c.off;
    return r;
  }
  Scalar item() const { if (numel() != 1) throw SymError("item() on more than one element"); return get(off); }
  template <class T> T item() const { return item().to<T>(); }
};
inline std::vector<int64_t> sym_shape(std::initializer_list<int64_t> l) { return std::vector<int64_t>(l); }
inline Tensor full(const std::vector<int64_t>& s, const Scalar& v, TensorOptions o = TensorOptions()) { Tensor r(s, o.d); r.fill_(v); return r; }
inline Tensor zeros(const std::vector<int64_t>& s, TensorOptions o = TensorOptions()) { return full(s, Scalar(0), o); }
inline Tensor ones(const std::vector<int64_t>& s, TensorOptions o = TensorOptions()) { return full(s, Scalar(1), o); }
inline Tensor empty(const std::vector<int64_t>& s, TensorOptions o = TensorOptions()) {
  Tensor r(s, o.d);
  if (r.is_f()) { r.each([&](int64_t k) { r.put(k, Scalar(SymReal::raw(g_cb.fresh(0)))); }); }
  return r;
}
inline Tensor zeros_like(const Tensor& a) { return zeros(a.sz, a.options()); }
inline Tensor zeros_like(const Tensor& a, TensorOptions o) { return zeros(a.sz, o); }
inline Tensor ones_like(const Tensor& a) { return ones(a.sz, a.options()); }
inline Tensor empty_like(const Tensor& a) { return empty(a.sz, a.options()); }
inline Tensor full_like(const Tensor& a, const Scalar& v) { return full(a.sz, v, a.options()); }
inline Tensor sym_reduce(const Tensor& a, int mode) {
  auto v = a.values();
  Scalar r = v.at(0);
  for (size_t i = 1; i < v.size(); ++i) {
    if (a.is_f()) r = Scalar(mode == 0 ? std::max(r.f, v[i].f) : mode == 1 ? std::min(r.f, v[i].f) : r.f + v[i].f);
    else r = Scalar(mode == 0 ? std::max(r.i, v[i].i) : mode == 1 ? std::min(r.i, v[i].i) : r.i + v[i].i);
  }
  Tensor t({}, a.t);
  t.fill_(r);
  return t;
}
inline Tensor max(const Tensor& a) { return sym_reduce(a, 0); }
inline Tensor min(const Tensor& a) { return sym_reduce(a, 1); }
inline Tensor sum(const Tensor& a) { return sym_reduce(a, 2); }
inline Tensor sum(const Tensor& a, int64_t d) {
  if (d < 0) d += a.dim();
  Tensor r = zeros([&] { auto s = a.sz; s.erase(s.begin() + d); return s; }(), a.options());
  for (int64_t i = 0; i < a.size(d); ++i) {
    Tensor x = a.select(d, i);
    auto v = x.values(); size_t k = 0;
    r.each([&](int64_t o) { r.put(o, Scalar(r.get(o).f + v[k++].f)); });
  }
  return r;
}
inline Tensor mean(const Tensor& a, int64_t d) {
  Tensor r = sum(a, d);
  SymReal n((int64_t)a.size(d));
  r.each([&](int64_t o) { r.put(o, Scalar(r.get(o).f / n)); });
  return r;
}
inline int get_num_threads() { return g_num_threads; }
template <class F> inline void parallel_for(int64_t b, int64_t e, int64_t grain, const F& f) {
  int64_t n = std::max<int64_t>(1, g_num_threads);
  int64_t step = std::max<int64_t>(std::max<int64_t>(1, grain), (e - b + n - 1) / n);
  for (int64_t i = b; i < e; i += step) f(i, std::min(e, i + step));
}
template <class T> struct RestrictPtrTraits { typedef T* PtrType; };
} // namespace at
namespace torch {
using namespace at;
using at::Tensor;
namespace autograd { inline void increment_version(const at::Tensor&) {} }
} // namespace torch
namespace c10 {
template <class A, class B> inline std::vector<int64_t> irange(A a, B b) { std::vector<int64_t> r; for (int64_t i = a; i < (int64_t)b; ++i) r.push_back(i); return r; }
template <class A> inline std::vector<int64_t> irange(A a) { return irange<int64_t, A>(0, a); }
using at::IntArrayRef;
template <class T> using optional = std::optional<T>;
} // namespace c10

// ---------------------------------------------------------------------------------------------- calling convention
struct SymArg { int tag; int64_t v; at::Tensor t; }; // 0 int, 1 real, 2 tensor
extern std::vector<SymArg> g_args;
extern std::vector<at::Tensor> g_res;
extern size_t g_pos;
template <class T, class = void> struct SymGet;
template <> struct SymGet<at::Tensor> {
  static at::Tensor get() { auto& a = g_args.at(g_pos++); if (a.tag != 2) throw SymError("incompatible function arguments: expected a tensor"); return a.t; }
};
template <> struct SymGet<SymReal> {
  static SymReal get() {
    auto& a = g_args.at(g_pos++);
    if (a.tag == 1) return SymReal::raw(a.v);
    if (a.tag == 0) return SymReal(a.v);
    return a.t.item().f;
  }
};
template <class T> struct SymGet<T, std::enable_if_t<std::is_integral<T>::value>> {
  static T get() { auto& a = g_args.at(g_pos++); if (a.tag == 2) return (T)a.t.item().template to<int64_t>(); if (a.tag != 0) throw SymError("incompatible function arguments: expected an integer"); return (T)a.v; }
};
template <class... A> struct SymGet<std::tuple<A...>> {
  static std::tuple<A...> get() { return std::tuple<A...>{SymGet<A>::get()...}; }
};
template <class A, class B> struct SymGet<std::pair<A, B>> {
  static std::pair<A, B> get() { A a = SymGet<A>::get(); B b = SymGet<B>::get(); return {a, b}; }
};
template <class T> struct SymGet<std::optional<T>> {
  static std::optional<T> get() { return SymGet<T>::get(); }
};
inline void sym_put(const at::Tensor& t) { g_res.push_back(t.clone()); }
template <class T, std::enable_if_t<std::is_integral<T>::value, int> = 0> inline void sym_put(const T& v) { at::Tensor t({}, SymType::Long); t.fill_(at::Scalar((int64_t)v)); g_res.push_back(t); }
inline void sym_put(const SymReal& v) { at::Tensor t({}, SymType::Float); t.fill_(at::Scalar(v)); g_res.push_back(t); }
template <class T> inline void sym_put(const std::vector<T>& v) { for (auto& x : v) sym_put(x); }
template <class... A> inline int sym_ret(const std::tuple<A...>& t) { std::apply([](const auto&... x) { (void)std::initializer_list<int>{(sym_put(x), 0)...}; }, t); return 2; }
template <class T> inline int sym_ret(const T& t) { sym_put(t); return 1; }
extern std::string g_err;
template <class R, class... A> int sym_call(R (*f)(A...)) {
  g_pos = 0;
  g_res.clear();
  try {
    std::tuple<std::decay_t<A>...> args{SymGet<std::decay_t<A>>::get()...};
    if (g_pos != g_args.size()) throw SymError("incompatible function arguments: wrong number of arguments");
    if constexpr (std::is_void<R>::value) { std::apply(f, args); return 0; }
    else return sym_ret(std::apply(f, args));
  } catch (const SymAbort&) { return -1; }
  catch (const std::out_of_range& e) { g_err = e.what(); return -3; }
  catch (const std::exception& e) { g_err = e.what(); return -2; }
}

#define thread symthread
#define float SymReal
#define double SymReal
#define fabsf fabs
