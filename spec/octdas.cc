// Contract of the Octave delay-and-sum function.
#include "octbind.h"
#include "dasbind.h"

// All of the arrays are single precision, or none.
static inline bool precision(A a, bool single) { return !a.str && a.single == single; }

// Whatever objects earlier calls left behind, the image is that of an object
// made for this call.
template<class T>
static void image(List *ret, A Y, A Gt, A Gr, A Ro, A dt, A delay, A cp, A met, A lev, A dev, A verb, long nin, int nout, bool single)
{
  need(nin >= 8 && nin <= 11 && nout <= 2);
  need(precision(Gt, single) && precision(Gr, single) && precision(Ro, single) && precision(delay, single));
  need(Gt.n == 3 && Gt.m >= 1 && (Gr.m == 0 || Gr.n == 3) && Ro.n == 3);
  need(dt.m == 1 && dt.n == 1 && cp.m == 1 && cp.n == 1);
  DelayType kind = delay_kind(delay, Ro.m);
  DASType type = das_of(text(met));
  dream_idx_type No = Ro.m, Nt = Gt.m, Nr = type == DASType::saft ? 0 : Gr.m;
  need(Y.n >= (Nr > 0 ? Nt*Nr : Nt));
  ErrorLevel lv = nin >= 9 ? level_of(text(lev)) : ErrorLevel::stop;
  need(nin < 10 || dev.str);
  need(nin < 11 || verb.str);
  T *im = new T[No];
  DAS<T> o(type, Y.m, No, Nt, Nr);
  o.set_running();
  SIRError e = o.das((const T *) Y.p, (const T *) Ro.p, (const T *) Gt.p, (const T *) Gr.p, ((const T *) dt.p)[0], kind, (const T *) delay.p, ((const T *) cp.p)[0], im, lv);
  need(o.is_running());
  result(ret, (const double *) im, No, 1, e, nout);
}

extern "C" {
#define OCT(T, s, single) void spec_oct_das_##s(List *ret, A Y, A Gt, A Gr, A Ro, A dt, A delay, A cp, A met, A lev, A dev, A verb, long nin, int nout) \
{ image<T>(ret, Y, Gt, Gr, Ro, dt, delay, cp, met, lev, dev, verb, nin, nout, single); }
OCT(double, d, false)
OCT(float, f, true)
}
