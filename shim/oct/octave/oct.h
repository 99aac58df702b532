// Stand-in for Octave's interface: values that are a real matrix or a string,
// reference-counted matrices, lists of values.  Only the members the bindings
// use; executable, so that a counterexample can be run as well.  A matrix taken
// out of an argument is a conversion of its own: it lives until the last matrix
// referring to it is gone (which is what Octave does for every argument that is
// not a full double matrix already).
#pragma once
#include <csignal>
#include <cstddef>
#include <cstring>
#include <iostream>
#include <stdexcept>
#include <string>

typedef long octave_idx_type;

extern "C" void dv_require(bool ok);                          // an access that must be valid
extern "C" void *dv_copy(const void *p, long n, long size, long from);   // n values of size bytes each, converted from values of another size

// nd: size of the values behind p; own: a matrix of doubles, whose storage is
// shared by what is taken out of it (in-place operation); k: third dimension
struct dv_arg { const void *p; long nd, m, n; const std::string *s; bool str, single, own; long k; };
template<class T> struct dv_rep { long rc, m, n; T *p; bool view; };

template<class T> class dv_matrix {
 public:
  dv_matrix() : dv_r(new dv_rep<T>{1, 0, 0, nullptr, false}) {}
  dv_matrix(octave_idx_type m, octave_idx_type n) : dv_r(new dv_rep<T>{1, m, n, new T[m*n], false}) {}
  dv_matrix(octave_idx_type m, octave_idx_type n, T x) : dv_matrix(m, n) { for (octave_idx_type i = 0; i < m*n; i++) dv_r->p[i] = x; }
  explicit dv_matrix(dv_rep<T> *r) : dv_r(r) { ++r->rc; }
  dv_matrix(const dv_matrix &o) : dv_r(o.dv_r) { ++dv_r->rc; }
  dv_matrix &operator=(const dv_matrix &o) { ++o.dv_r->rc; dv_drop(); dv_r = o.dv_r; return *this; }
  ~dv_matrix() { dv_drop(); }
  octave_idx_type rows() const { return dv_r->m; }
  octave_idx_type cols() const { return dv_r->n; }
  octave_idx_type columns() const { return dv_r->n; }
  octave_idx_type numel() const { return dv_r->m*dv_r->n; }
  octave_idx_type length() const { return dv_r->m*dv_r->n; }
  bool isempty() const { return dv_r->m*dv_r->n == 0; }
  const T *data() const { return dv_r->p; }
  const T &operator()(octave_idx_type i) const { dv_require(i >= 0 && i < numel()); return dv_r->p[i]; }
  dv_rep<T> *dv_r;
 private:
  void dv_drop() { if (--dv_r->rc == 0) { if (!dv_r->view) delete[] dv_r->p; delete dv_r; } }
};
typedef dv_matrix<double> Matrix;
typedef dv_matrix<float> FloatMatrix;
typedef dv_matrix<double> NDArray;          // dimensions beyond the second folded into the columns

struct dim_vector {
  long dv_m, dv_n, dv_k;
  octave_idx_type operator()(int i) const { dv_require(i >= 0 && i < 2 + (dv_k != 1)); return i == 0 ? dv_m : i == 1 ? dv_n : dv_k; }
};

class octave_value {
 public:
  octave_value() : dv_a(nullptr), dv_d(nullptr), dv_f(nullptr) {}
  octave_value(const Matrix &x) : dv_a(nullptr), dv_d(x.dv_r), dv_f(nullptr) { ++dv_d->rc; }
  octave_value(const FloatMatrix &x) : dv_a(nullptr), dv_d(nullptr), dv_f(x.dv_r) { ++dv_f->rc; }
  octave_value(const std::string &) : octave_value() {}
  octave_value(double x) : octave_value(Matrix(1, 1, x)) {}
  octave_value(const octave_value &o) : dv_a(o.dv_a), dv_d(o.dv_d), dv_f(o.dv_f) { if (dv_d) ++dv_d->rc; if (dv_f) ++dv_f->rc; }
  octave_value &operator=(const octave_value &o) { if (o.dv_d) ++o.dv_d->rc; if (o.dv_f) ++o.dv_f->rc; dv_drop(); dv_a = o.dv_a; dv_d = o.dv_d; dv_f = o.dv_f; return *this; }
  ~octave_value() { dv_drop(); }
  bool is_string() const { return dv_a->str; }
  bool is_single_type() const { return !dv_a->str && dv_a->single; }
  bool is_double_type() const { return !dv_a->str && !dv_a->single; }
  octave_idx_type rows() const { return dv_a->m; }
  octave_idx_type columns() const { return dv_a->n; }
  octave_idx_type numel() const { return dv_a->m*dv_a->n*dv_a->k; }
  bool isempty() const { return dv_a->m*dv_a->n*dv_a->k == 0; }
  int ndims() const { return dv_a->k == 1 ? 2 : 3; }
  dim_vector dims() const { return dim_vector{dv_a->m, dv_a->n, dv_a->k}; }
  std::string string_value() const { if (!dv_a->str) throw 1; return *dv_a->s; }
  Matrix matrix_value() const { if (dv_a->k != 1) throw 1; return dv_get<double>(); }
  NDArray array_value() const { return dv_get<double>(); }
  FloatMatrix float_matrix_value() const { return dv_get<float>(); }
  double double_value() const { if (dv_a->m*dv_a->n == 0) throw 1; return ((const double *) dv_a->p)[0]; }
  double scalar_value() const { return double_value(); }
  const dv_arg *dv_a; dv_rep<double> *dv_d; dv_rep<float> *dv_f;
 private:
  template<class T> dv_matrix<T> dv_get() const
  {
    dv_matrix<T> r;
    r.dv_r->m = dv_a->m; r.dv_r->n = dv_a->n*dv_a->k;
    if (dv_a->own && sizeof(T) == sizeof(double)) { r.dv_r->p = (T *) dv_a->p; r.dv_r->view = true; }
    else r.dv_r->p = (T *) dv_copy(dv_a->p, r.numel(), sizeof(T), dv_a->nd);
    return r;
  }
  void dv_drop()
  {
    if (dv_d && --dv_d->rc == 0) { delete[] dv_d->p; delete dv_d; }
    if (dv_f && --dv_f->rc == 0) { delete[] dv_f->p; delete dv_f; }
  }
};

class octave_value_list {
 public:
  octave_value_list() : dv_in(nullptr), dv_n(0) {}
  octave_idx_type length() const { return dv_n; }
  bool empty() const { return dv_n == 0; }
  const octave_value &operator()(octave_idx_type i) const { dv_require(i >= 0 && i < dv_n); return dv_in ? dv_in[i] : i == 0 ? dv_o0 : i == 1 ? dv_o1 : dv_o2; }
  octave_value_list &append(const octave_value &x) { dv_require(dv_n < 3); if (dv_n == 0) dv_o0 = x; else if (dv_n == 1) dv_o1 = x; else dv_o2 = x; dv_n++; return *this; }
  const octave_value *dv_in; octave_idx_type dv_n; octave_value dv_o0, dv_o1, dv_o2;
};

template<class... A> [[noreturn]] void error(const char *, A...) { throw 1; }
#define octave_stdout std::cout

// What a call gives back: nothing (rejected), or one or two matrices.
struct dv_value { const void *p; long nd, m, n; };
struct dv_list { long n; dv_value a, b; };
static inline void dv_result(dv_value *r, const octave_value &x)
{
  if (x.dv_d) { auto *d = x.dv_d; ++d->rc; r->p = d->p; r->nd = 2; r->m = d->m; r->n = d->n; }
  else if (x.dv_f) { auto *d = x.dv_f; ++d->rc; r->p = d->p; r->nd = 2; r->m = d->m; r->n = d->n; }
}
static inline void dv_results(dv_list *ret, const octave_value_list &r)
{
  if ((ret->n = r.dv_n) == 0) throw 1;
  dv_result(&ret->a, r.dv_o0);
  dv_result(&ret->b, r.dv_o1);
}
// A function that works in place returns nothing when it succeeds.
static inline void dv_call(dv_list *ret, const octave_value_list &r)
{
  if ((ret->n = r.dv_n) > 0) dv_result(&ret->a, r.dv_o0);
}
#define DEFUN_DLD(name, args, nlhs, doc) \
  octave_value_list F##name(const octave_value_list &args, int nlhs); \
  extern "C" void dv_oct_##name(dv_list *ret, const octave_value_list &args, int nlhs) { dv_results(ret, F##name(args, nlhs)); } \
  extern "C" void dv_call_##name(dv_list *ret, const octave_value_list &args, int nlhs) { dv_call(ret, F##name(args, nlhs)); } \
  octave_value_list F##name(const octave_value_list &args, int nlhs)
