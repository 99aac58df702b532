// Stand-in for pybind11: a module records the function it registers, its name,
// and the names and default values of its arguments.
#pragma once
#include "numpy.h"
namespace pybind11 {
  struct arg {
    arg(const char *n) : dv_name(n), dv_default(nullptr) {}
    arg &operator=(const char *d) { dv_default = d; return *this; }
    template<class T> arg &operator=(const T &) { dv_default = "(not a text)"; return *this; }
    const char *dv_name, *dv_default;
  };
  struct module_ {
    struct entry { const char *name, *dflt; };
    const char *&doc() { return dv_doc; }
    template<class F, class... A> void def(const char *name, F f, A... a)
    {
      dv_defs++;
      dv_name = name;
      dv_f = (const void *) f;
      dv_n = 0;
      (dv_put(a), ...);
    }
    void dv_put(const char *) {}
    void dv_put(const arg &a) { if (dv_n < 20) { dv_args[dv_n].name = a.dv_name; dv_args[dv_n].dflt = a.dv_default; } dv_n++; }
    const char *dv_doc;
    long dv_defs;
    const char *dv_name;
    const void *dv_f;
    long dv_n;
    entry dv_args[20];
  };
}
#define PYBIND11_MODULE(name, m) extern "C" void dv_module_##name(pybind11::module_ &m)
