// Stand-in for pybind11: the input matrix and the returned array are calls the interpreter answers.
#pragma once
#include <cstddef>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
typedef long Py_ssize_t;
extern "C" {
long sc_ndim(void);
long sc_shape(long i);
void *sc_data(long size, long real, long flags);
long sc_stride(long k);
void sc_def(const char *name, void *tramp, void *f);
void sc_array(void *self, const void *ptr, long item, long real, long ndim, long rows, long cols, long srow, long scol);
void *sc_alloc(long n);
void sc_result(const void *ptr, long item, long real, long ndim, long rows, long cols, long srow, long scol);
}
namespace pybind11 {
typedef Py_ssize_t ssize_t;
template <typename T> struct is_real { static const long value = 0; };
template <> struct is_real<float> { static const long value = 1; };
template <> struct is_real<double> { static const long value = 1; };
struct fmt {
  char c;
  fmt() : c('i') {}
  fmt(char x) : c(x) {}
  fmt(const char *s) : c(s[0] == '=' || s[0] == '@' || s[0] == '<' ? s[1] : s[0]) {}
  fmt(const std::string &s) : fmt(s.c_str()) {}
  operator std::string() const { return std::string(1, c); }
  bool operator==(const fmt &o) const { return c == o.c; }
  bool operator!=(const fmt &o) const { return c != o.c; }
};
template <typename T> struct format_descriptor {
  static fmt format() { return fmt(value()); }
  static char value() { return is_real<T>::value ? (sizeof(T) == 4 ? 'f' : 'd') : (sizeof(T) == 4 ? 'i' : 'q'); }
};
struct buffer_info {
  void *ptr;
  ssize_t itemsize, size, ndim;
  fmt format;
  std::vector<ssize_t> shape, strides;
  buffer_info() : ptr(0), itemsize(0), size(0), ndim(0) {}
  buffer_info(void *p, ssize_t i, const fmt &f, ssize_t n, std::vector<ssize_t> s, std::vector<ssize_t> st)
      : ptr(p), itemsize(i), size(1), ndim(n), format(f), shape(s), strides(st) {
    for (ssize_t x : shape) size *= x;
  }
};
struct array {
  enum { c_style = 1, f_style = 2, forcecast = 16 };
  void *ptr_;
  ssize_t item_, real_, ndim_, rows_, cols_, srow_, scol_;
  array() : ptr_(0), item_(4), real_(0), ndim_(1), rows_(0), cols_(0), srow_(0), scol_(0) {}
  void fill(const void *p, ssize_t item, ssize_t real, const std::vector<ssize_t> &s, std::vector<ssize_t> st) {
    item_ = item;
    real_ = real;
    ndim_ = (ssize_t)s.size();
    rows_ = ndim_ > 0 ? s[0] : 1;
    cols_ = ndim_ > 1 ? s[1] : 1;
    scol_ = item;
    srow_ = ndim_ > 1 ? cols_ * item : item;
    ssize_t n = rows_ * cols_;
    ptr_ = sc_alloc(n * item);
    if (p) {
      ssize_t a = st.size() > 0 ? st[0] : srow_, b = st.size() > 1 ? st[1] : scol_;
      for (ssize_t i = 0; i < rows_; i++)
        for (ssize_t j = 0; j < cols_; j++) std::memcpy((char *)ptr_ + i * srow_ + j * scol_, (const char *)p + i * a + j * b, item);
    }
  }
  array(const buffer_info &b) { fill(b.ptr, b.itemsize, b.format.c == 'f' || b.format.c == 'd', b.shape, b.strides); }
  template <typename T> array(std::vector<ssize_t> s, std::vector<ssize_t> st, const T *p) { fill(p, sizeof(T), is_real<T>::value, s, st); }
  template <typename T> array(std::vector<ssize_t> s, const T *p) { fill(p, sizeof(T), is_real<T>::value, s, {}); }
  ssize_t ndim() const { return ndim_; }
  const ssize_t *shape() const { return &rows_; }
  ssize_t shape(ssize_t i) const { return i ? cols_ : rows_; }
  ssize_t strides(ssize_t i) const { return i ? scol_ : srow_; }
  ssize_t size() const { return rows_ * cols_; }
  ssize_t itemsize() const { return item_; }
  ssize_t nbytes() const { return size() * item_; }
};
template <typename T, int F = array::forcecast> struct array_t : array {
  array_t() { fill(0, sizeof(T), is_real<T>::value, {0}, {}); }
  struct input {};
  array_t(input) {
    item_ = sizeof(T);
    real_ = is_real<T>::value;
    ndim_ = sc_ndim();
    rows_ = sc_shape(0);
    cols_ = sc_shape(1);
    ptr_ = sc_data(sizeof(T), real_, F);
    srow_ = sc_stride(0);
    scol_ = sc_stride(1);
  }
  explicit array_t(std::vector<ssize_t> s) { fill(0, sizeof(T), is_real<T>::value, s, {}); }
  explicit array_t(ssize_t n) { fill(0, sizeof(T), is_real<T>::value, {n}, {}); }
  array_t(std::vector<ssize_t> s, const T *p) { fill(p, sizeof(T), is_real<T>::value, s, {}); }
  array_t(std::vector<ssize_t> s, std::vector<ssize_t> st, const T *p) { fill(p, sizeof(T), is_real<T>::value, s, st); }
  const T *data() const { return (const T *)ptr_; }
  const T *data(ssize_t i) const { return (const T *)((const char *)ptr_ + i * srow_); }
  const T *data(ssize_t i, ssize_t j) const { return (const T *)((const char *)ptr_ + i * srow_ + j * scol_); }
  T *mutable_data() { return (T *)ptr_; }
  T *mutable_data(ssize_t i, ssize_t j) { return (T *)((char *)ptr_ + i * srow_ + j * scol_); }
  const T &at(ssize_t i, ssize_t j) const { return *data(i, j); }
  T &mutable_at(ssize_t i, ssize_t j) { return *mutable_data(i, j); }
  struct view {
    array_t *a;
    T &operator()(ssize_t i, ssize_t j) { return *a->mutable_data(i, j); }
    T &operator()(ssize_t i) { return a->mutable_data()[i]; }
    ssize_t shape(ssize_t i) const { return a->shape(i); }
  };
  template <int N> view unchecked() { return view{this}; }
  template <int N> view mutable_unchecked() { return view{this}; }
  buffer_info request() const { return buffer_info(ptr_, item_, format_descriptor<T>::format(), ndim_, {rows_, cols_}, {srow_, scol_}); }
};
inline void put(const array &a) { sc_result(a.ptr_, a.item_, a.real_, a.ndim_, a.rows_, a.cols_, a.srow_, a.scol_); }
template <typename A> struct bare { typedef A type; };
template <typename A> struct bare<A &> { typedef A type; };
template <typename A> struct bare<const A &> { typedef A type; };
template <typename A> struct bare<const A> { typedef A type; };
template <typename A> typename bare<A>::type make() { return typename bare<A>::type(typename bare<A>::type::input()); }
template <typename R, typename A> void tramp(void *f) {
  typename bare<A>::type a = make<A>();
  put(((R(*)(A))f)(a));
}
struct text {
  template <typename T> text &operator=(const T &) { return *this; }
  template <typename T> text &operator+=(const T &) { return *this; }
};
struct module_ {
  text doc_;
  text &doc() { return doc_; }
  template <typename T> text attr(const T &) { return text(); }
  template <typename R, typename A, typename... X> module_ &def(const char *n, R (*f)(A), X...) {
    sc_def(n, (void *)&tramp<R, A>, (void *)f);
    return *this;
  }
};
typedef module_ module;
struct arg { arg(const char *) {} };
}  // namespace pybind11
#define PYBIND11_MODULE(name, var) extern "C" void sc_module(pybind11::module_ &var)
extern "C" void sc_module(pybind11::module_ &);
extern "C" inline __attribute__((used)) void sc_main(void) { pybind11::module_ m; sc_module(m); }
