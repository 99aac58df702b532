// Contracts of the Octave functions for the attenuation and for the
// apodization windows.
#include "octbind.h"
#include "attenuation.h"
#include "arr_functions.h"

extern "C" {
// Column n: the attenuation response over the distance to point n, from the
// sample of its travel time (less the delay) on.
void spec_oct_att(List *ret, A ro, A s, A delay, A m, long nin, int nout)
{
  need(nin == 4 && nout >= 0 && nout <= 1);
  need(ro.n == 3 && is_vector(s, 2) && is_vector(m, 2));
  DelayType type = delay_kind(delay, ro.m);
  dream_idx_type no = ro.m, nt = (int) s.p[1];
  double dt = s.p[0], cp = m.p[0];
  need(nt >= 1);
  double *h = new double[nt*no];
  zero(h, nt*no);
  Attenuation medium(nt, dt, m.p[1]);
  FFTCVec xc(nt);
  FFTVec x(nt);
  for (dream_idx_type n = 0; n < no; n++) {
    double r = std::sqrt(ro.p[n]*ro.p[n] + ro.p[n+no]*ro.p[n+no] + ro.p[n+2*no]*ro.p[n+2*no]);
    double d = delay.p[type == DelayType::single ? 0 : n];
    medium.att(xc, x, r, (int) ((r*1000.0/cp - d)/dt + 1), h + n*nt, 1.0);
  }
  result(ret, h, nt, no, SIRError::none, 1);
}

// The window weights, from one end of the aperture to the other; the given
// ones for "ud", all ones for "off".
void spec_oct_apodwin(List *ret, A apod, A len, A par, long nin, int nout)
{
  need(nin == 3 && nout >= 0 && nout <= 1);
  need(len.m*len.n >= 1);
  ApodMet m;
  bool on = apod_of(text(apod), m), ud = on && m == ApodMet::ud;
  dream_idx_type num = ud ? len.m*len.n : (dream_idx_type) len.p[0];
  need(num >= 1);
  double q = scalar(par);
  double *w = new double[num];
  for (dream_idx_type n = 0; n < num; n++) {
    w[n] = 1.0;
    if (on) apodization(m, n, (double *) len.p, &w[n], 1.0 - 2.0*n/num, 0.0, 1.0, q);
  }
  result(ret, w, num, 1, SIRError::none, 1);
}
}
