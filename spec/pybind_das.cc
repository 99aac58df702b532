// Contract of the Python delay-and-sum functions (double, single precision).
#include "dasbind.h"

// Whatever object an earlier call left behind, the image is that of an object
// made for this call.
template<class T>
static void image(Mat<T> *ret, const Mat<T> &Y, const Mat<T> &Gt, const Mat<T> &Gr, const Mat<T> &Ro, T dt, const Mat<T> &delay, T cp, Str method, Str level, Str device)
{
  DASType type = das_of(method);
  bool saft = type == DASType::saft;
  need(Gt.n == 3 && Gt.m >= 1 && (saft || Gr.n == 3) && Ro.n == 3);
  dream_idx_type No = Ro.m, Nt = Gt.m, Nr = saft ? 0 : Gr.m;
  need(Y.n >= (Nr > 0 ? Nt*Nr : Nt));
  DelayType kind = delay_kind(delay, No);
  ErrorLevel lv = level_of(level);
  need(device == "cpu" || device == "gpu");
  T *im = new T[No];
  DAS<T> o(type, Y.m, No, Nt, Nr);
  o.set_running();
  o.das(Y.p, Ro.p, Gt.p, Gr.p, dt, kind, delay.p, cp, im, lv);
  need(o.is_running());
  ret->p = im; ret->nd = 1; ret->m = No; ret->n = 1;
}

extern "C" {
#define PY(T, s) void spec_py_das_##s(Mat<T> *ret, const Mat<T> &Y, const Mat<T> &Gt, const Mat<T> &Gr, const Mat<T> &Ro, T dt, const Mat<T> &delay, T cp, Str method, Str level, Str device, Str verbose) \
{ image(ret, Y, Gt, Gr, Ro, dt, delay, cp, method, level, device); }
PY(double, d)
PY(float, f)
}
