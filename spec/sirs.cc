// Contracts of the closed-form responses (rectangle, disc, sampled disc).
#include "drive.h"
#define private public
#include "rect_sir.h"
#undef private
#include "circ_sir.h"
#include "scirc_sir.h"

// --- Rectangle (Lockwood & Willette): a corner piece of sides s x l [m] that
// starts below the observation point at height z, at time t [s].
static inline double corner(double s, double l, double z, double cp, double t)
{
  double t1 = z/cp, t2 = std::sqrt(z*z + s*s)/cp, t3 = std::sqrt(z*z + l*l)/cp, t4 = std::sqrt(z*z + s*s + l*l)/cp;
  double d = cp*std::sqrt(t*t - t1*t1), g = 0;
  if (t >= t1 && t <= t4) g += cp/4;
  if (t >= t2 && t <= t4) g -= cp/(2*M_PI)*std::acos(s/d);
  if (t >= t3 && t <= t4) g -= cp/(2*M_PI)*std::acos(l/d);
  return g;
}

// The rectangle is the signed sum of the four corner pieces between the
// observation point (by symmetry in the first quadrant) and its corners.
static void rect_response(double xi, double yi, double zi, double ai, double bi, double dt, dream_idx_type nt, double delay, double v, double cp, double *h)
{
  double x = std::fabs(xi)/1000, y = std::fabs(yi)/1000, z = zi/1000, a = ai/1000, b = bi/1000;
  double near_x = a/2 - x, far_x = a/2 + x, near_y = b/2 - y, far_y = b/2 + y;
  double sx = near_x >= 0 ? 1 : -1, sy = near_y >= 0 ? 1 : -1;
  for (dream_idx_type k = 0; k < nt; k++) h[k] = 0;
  for (dream_idx_type k = 0; k < nt; k++) h[k] += v*sx*sy*corner(std::fabs(near_x), std::fabs(near_y), z, cp, (k*dt + delay)/1e6);
  for (dream_idx_type k = 0; k < nt; k++) h[k] += v*sy*corner(std::fabs(far_x), std::fabs(near_y), z, cp, (k*dt + delay)/1e6);
  for (dream_idx_type k = 0; k < nt; k++) h[k] += v*corner(std::fabs(far_x), std::fabs(far_y), z, cp, (k*dt + delay)/1e6);
  for (dream_idx_type k = 0; k < nt; k++) h[k] += v*sx*corner(std::fabs(near_x), std::fabs(far_y), z, cp, (k*dt + delay)/1e6);
}

// --- Disc (Stepanishen): part of the circle of equal travel time that lies on
// the disc of radius r, at distance rc from the axis.
static inline double arc(double r, double rc, double z, double cp, double t)
{ return (cp*t*cp*t - z*z + rc*rc - r*r)/(2*rc*std::sqrt(cp*t*cp*t - z*z)); }

static void circ_response(double xi, double yi, double zi, double ri, double dt, dream_idx_type nt, double delay, double v, double cp, double *h)
{
  double x = xi/1000, y = yi/1000, z = zi/1000, r = ri/1000, rc = std::sqrt(x*x + y*y);
  double inner = std::sqrt(z*z + (r - rc)*(r - rc)), outer = std::sqrt(z*z + (r + rc)*(r + rc));
  for (dream_idx_type k = 0; k < nt; k++) h[k] = 0;
  for (dream_idx_type k = 0; k < nt; k++) {
    double t = (k*dt + delay)/1e6, d = cp*t, g = 0;
    if (d >= inner && d < outer && !(r > rc && d < z)) g = v*cp/M_PI*std::acos(arc(r, rc, z, cp, t));
    else if (r > rc && d >= z && d < inner) g = v*cp;
    h[k] = g;
  }
}

// --- The same, averaged over each sampling interval (trapezoidal rule with n steps).
static inline double angle(double c) { return c > 1 ? 0 : c < -1 ? M_PI : std::acos(c); }

static double arcs(double t1, double t2, double z, double r, double rc, double cp, dream_idx_type n)
{
  double step = (t2 - t1)/n, sum = 0, t = t1;
  for (dream_idx_type i = 0; i < n; i++) {
    sum += (angle(arc(r, rc, z, cp, t)) + angle(arc(r, rc, z, cp, t + step)))/2*step;
    t += step;
  }
  return sum;
}

extern double trapets_int(double t1, double t2, double zo, double r, double r_cyl, double cp, dream_idx_type int_len);

static void scirc_response(double xi, double yi, double zi, double ri, double dt, dream_idx_type nt, double delay, double v, double cp, dream_idx_type n, double *h)
{
  double x = xi/1000, y = yi/1000, z = zi/1000, r = ri/1000, rc = std::sqrt(x*x + y*y);
  double inner = std::sqrt(z*z + (r - rc)*(r - rc)), outer = std::sqrt(z*z + (r + rc)*(r + rc)), first = r > rc ? z : inner;
  for (dream_idx_type k = 0; k < nt; k++) h[k] = 0;
  for (dream_idx_type k = 0; k < nt; k++) {
    double mid = (k*dt + delay)/1e6, w = dt/1e6, t1 = mid - w/2 > 0 ? mid - w/2 : 0, t2 = mid + w/2, g = 0;
    double d1 = cp*t1, d2 = cp*t2;
    // the whole circle is on the disc from distance 'first' to 'inner', part of it from 'inner' to 'outer'
    if (d2 >= first && d1 < inner) g += v*((d2 < inner ? d2 : inner) - (d1 < first ? first : d1));
    if (outer > inner && d2 >= inner && d1 < outer) g += v*cp/M_PI*trapets_int(d1 < inner ? inner/cp : t1, d2 < outer ? t2 : outer/cp, z, r, rc, cp, n);
    h[k] = g/w;
  }
}

extern "C" {
bool dv_running;
void spec_rect_sir(void *, double xo, double yo, double zo, double a, double b, double dt, dream_idx_type nt, double delay, double v, double cp, double *h)
{ rect_response(xo, yo, zo, a, b, dt, nt, delay, v, cp, h); }
void spec_circ_sir(double xo, double yo, double zo, double r, double dt, dream_idx_type nt, double delay, double v, double cp, double *h)
{ circ_response(xo, yo, zo, r, dt, nt, delay, v, cp, h); }
double spec_acos_acos(double a, double b) { return angle(a) + angle(b); }
double spec_trapets(double t1, double t2, double zo, double r, double r_cyl, double cp, dream_idx_type n) { return arcs(t1, t2, zo, r, r_cyl, cp, n); }
void spec_scirc_sir(double xo, double yo, double zo, double r, double dt, dream_idx_type nt, double delay, double v, double cp, dream_idx_type n, double *h)
{ scirc_response(xo, yo, zo, r, dt, nt, delay, v, cp, n, h); }
ErrorLevel spec_drv_rect_sir(RectSir *o, double *Ro, dream_idx_type No, double a, double b, double dt, dream_idx_type nt, DelayType type, double *delay, double v, double cp, double *h)
{ return each([&](double x, double y, double z, double d, double *row) { o->rect_sir_serial(x, y, z, a, b, dt, nt, d, v, cp, row); }, workers(No), Ro, No, nt, type, delay, h), o->m_out_err; }
}
