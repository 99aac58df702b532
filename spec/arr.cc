#include "geom.h"
#include "arr_functions.h"
#include "dreamrect.h"
#include "dreamcirc.h"
#include "dreamcylind.h"

extern "C" {
void spec_center_pos(double *x, double *y, double *z, dream_idx_type i, double *gx, double *gy, double *gz)
{ *x = gx[i]; *y = gy[i]; *z = gz[i]; }

void spec_max_dim(double *x_max, double *y_max, double *r_max, double *gx, double *gy, double *gz, dream_idx_type n)
{
  double X = extent(gx, n), Y = extent(gy, n);
  *x_max = X; *y_max = Y; *r_max = std::sqrt(X*X + Y*Y);
}

void spec_focusing(FocusMet m, double f, double gx, double gy, double X, double Y, double D, double cp, double *d)
{ *d = focus_comp(m, f, gx, gy, X, Y, D, cp); }

void spec_steering(SteerMet m, double theta, double phi, double gx, double gy, double X, double Y, double D, double cp, double *d)
{ *d = steer_comp(m, theta, phi, gx, gy, X, Y, cp); }

void spec_apod(ApodMet m, dream_idx_type n, double *vec, double *w, double gx, double gy, double R, double par)
{
  double ud = m == ApodMet::ud ? vec[n] : 0.0;
  *w = window(m, ud, std::sqrt(gx*gx + gy*gy), R, par);
}

void spec_distance(double xo, double yo, double zo, double xs, double ys, double zs, double *r)
{ *r = std::sqrt((xo-xs)*(xo-xs) + (yo-ys)*(yo-ys) + (zo-zs)*(zo-zs)); }

void spec_superpos(double *h, double *ha, dream_idx_type nt)
{ for (dream_idx_type i = 0; i < nt; i++) ha[i] += h[i]; }
}

// Array response: the sum over the elements of the element's response, moved
// to the element, advanced by its focusing and steering delay and weighted.
template<class E>
static SIRError superpose(E elem, double xo, double yo, double zo, double delay, double cp,
  dream_idx_type num, double *gx, double *gy, double *gz,
  FocusMet fm, double *focal, SteerMet sm, double theta, double phi,
  double *apod, bool do_apod, ApodMet am, double par)
{
  SIRError status = SIRError::none;
  double X = extent(gx, num), Y = extent(gy, num);
  double D = std::sqrt(X*X + Y*Y);
  for (dream_idx_type n = 0; n < num; n++) {
    double x = gx[n], y = gy[n], z = gz[n];
    double t = delay - focus_comp(fm, fm == FocusMet::ud ? focal[n] : focal[0], x, y, X, Y, D, cp)
                     - steer_comp(sm, theta, phi, x, y, X, Y, cp);
    double w = do_apod ? window(am, am == ApodMet::ud ? apod[n] : 0.0, std::sqrt(x*x + y*y), D, par) : 1.0;
    SIRError e = elem(xo - x, yo - y, zo - z, t, w);
    if (e != SIRError::none) status = e;
    if (e == SIRError::out_of_bounds) return e;
  }
  return status;
}

#define P double xo, double yo, double zo
#define Q double dx, double dy, double dt, dream_idx_type nt, double delay, double v, double cp, dream_idx_type num, double *gx, double *gy, double *gz, FocusMet fm, double *focal, SteerMet sm, double theta, double phi, double *apod, bool do_apod, ApodMet am, double par, double *h, ErrorLevel level
#define A Attenuation *att, FFTCVec *xc, FFTVec *x
#define SUP(call) superpose([&](double x_, double y_, double z_, double t, double w) { return call; }, xo, yo, zo, delay, cp, num, gx, gy, gz, fm, focal, sm, theta, phi, apod, do_apod, am, par)
extern "C" {
SIRError spec_arr_rect(P, double a, double b, Q)
{ return SUP(dreamrect_serial(x_, y_, z_, a, b, dx, dy, dt, nt, t, v, cp, h, level, w)); }
SIRError spec_arr_rect_att(A, P, double a, double b, Q)
{ return SUP(dreamrect_serial(*att, *xc, *x, x_, y_, z_, a, b, dx, dy, dt, nt, t, v, cp, h, level, w)); }
SIRError spec_arr_circ(P, double R, Q)
{ return SUP(dreamcirc_serial(x_, y_, z_, R, dx, dy, dt, nt, t, v, cp, h, level, w)); }
SIRError spec_arr_circ_att(A, P, double R, Q)
{ return SUP(dreamcirc_serial(*att, *xc, *x, x_, y_, z_, R, dx, dy, dt, nt, t, v, cp, h, level, w)); }
SIRError spec_arr_cylind(Cylind *c, P, double a, double b, double C, Q)
{ return SUP(c->dreamcylind_serial(x_, y_, z_, a, b, C, dx, dy, dt, nt, t, v, cp, h, level, w)); }
SIRError spec_arr_cylind_att(Cylind *c, A, P, double a, double b, double C, Q)
{ return SUP(c->dreamcylind_serial(*att, *xc, *x, x_, y_, z_, a, b, C, dx, dy, dt, nt, t, v, cp, h, level, w)); }
}
