// Stand-in for pybind11's numpy arrays: a column-major buffer with its shape.
// Only the members the bindings use; executable, so that a counterexample can
// be run as well.
#pragma once
#include <sys/types.h>
#include <cstddef>
#include <initializer_list>
#include <stdexcept>
#include <string>

extern "C" void dv_require(bool ok);     // an access that must be inside the shape

namespace pybind11 {
  typedef ::ssize_t ssize_t;

  struct dims {
    ssize_t nd, d[2];
    ssize_t operator[](ssize_t i) const noexcept { dv_require(i >= 0 && i < nd); return d[i]; }
    ssize_t at(ssize_t i) const noexcept { dv_require(i >= 0 && i < nd); return d[i]; }
    size_t size() const noexcept { return nd; }
  };

  struct buffer_info { void *ptr; ssize_t itemsize, size, ndim; dims shape; };

  struct array { enum { c_style = 1, f_style = 2, forcecast = 16 }; };

  template<class T, int flags = 16>
  class array_t {
   public:
    array_t(std::initializer_list<ssize_t> s) noexcept : dv_nd(2), dv_m(s.begin()[0]), dv_n(s.begin()[1]) { dv_p = dv_new(); }
    explicit array_t(ssize_t n) noexcept : dv_nd(1), dv_m(n), dv_n(1) { dv_p = dv_new(); }
    buffer_info request(bool = false) const noexcept { return {dv_p, (ssize_t) sizeof(T), dv_m*dv_n, dv_nd, {dv_nd, {dv_m, dv_n}}}; }
    T *mutable_data() const noexcept { return dv_p; }
    const T *data() const noexcept { return dv_p; }
    ssize_t size() const noexcept { return dv_m*dv_n; }
    ssize_t ndim() const noexcept { return dv_nd; }
    ssize_t shape(ssize_t i) const noexcept { dv_require(i >= 0 && i < dv_nd); return i ? dv_n : dv_m; }
    T *dv_p; ssize_t dv_nd, dv_m, dv_n;
   private:
    T *dv_new() const noexcept { return new T[dv_m*dv_n]; }
  };
}
