// Contracts of the annular array.
#include "geom.h"
#include "dream_arr_annu.h"
#include "dreamcirc.h"
#include <limits>

// Radius of ring n used for focusing and apodization: 0 for the centre disc,
// the mean of the inner and outer radius for the rings.
static inline double ring_radius(const double *Gr, dream_idx_type n)
{ return n == 0 ? 0.0 : 0.5*(Gr[2*n] + Gr[2*n-1]); }

static inline double ring_focus(FocusMet m, double f, double r, double R, double cp)
{
  if (m == FocusMet::ud) return f;
  if (m != FocusMet::x && m != FocusMet::y && m != FocusMet::xy && m != FocusMet::x_y) return 0.0;
  return 1000.0*(std::sqrt(R*R + f*f) - std::sqrt(r*r + f*f))/cp;
}

// Sample i of the response x delayed by d samples.
static inline double shifted(const double *x, dream_idx_type i, dream_idx_type d, dream_idx_type nt)
{ return (i - d >= 0 && i - d < nt) ? x[i - d] : 0.0; }

static inline dream_idx_type samples(double t, double dt) { return (dream_idx_type) std::rint(t/dt) + 1; }

extern "C" {
void spec_annu_radii(ArrAnnu *o, double *ring, double *Gr, dream_idx_type num)
{ for (dream_idx_type n = 0; n < (num + 1)/2; n++) ring[n] = ring_radius(Gr, n); }

double spec_annu_focus(ArrAnnu *o, FocusMet m, double f, double r, double R, double cp)
{ return ring_focus(m, f, r, R, cp); }

double spec_annu_apod(ArrAnnu *o, ApodMet m, dream_idx_type n, double *apod, double r, double R, double par)
{ return window(m, m == ApodMet::ud ? apod[n] : 0.0, r, R, par); }

void spec_annu_resp(ArrAnnu *o, double *disc, double *ring, dream_idx_type nt, dream_idx_type n)
{
  for (dream_idx_type i = 0; i < nt; i++)
    ring[n*nt + i] = n == 0 ? disc[i] : disc[2*n*nt + i] - disc[(2*n-1)*nt + i];
}

void spec_annu_superpos(ArrAnnu *o, double *ring, double *h, dream_idx_type nt, double w, double delay, dream_idx_type n, double dt)
{
  dream_idx_type d = samples(delay, dt);
  for (dream_idx_type i = 0; i < nt; i++)
    h[i] += w*shifted(&ring[n*nt], i, d, nt);
}
}

// The response of the array: ring n is the disc of its outer radius minus the disc
// of its inner radius, delayed, weighted and summed.
template<class E>
static SIRError rings(E disc_response, double dt, dream_idx_type nt, double cp, dream_idx_type num, double *Gr,
  FocusMet fm, double *focal, double *apod, bool do_apod, ApodMet am, double par, double *h)
{
  SIRError status = SIRError::none;
  dream_idx_type N = (num + 1)/2;
  double *disc = (double *) calloc(nt*num, sizeof(double));
  for (dream_idx_type i = 0; i < nt; i++) h[i] = 0.0;
  for (dream_idx_type k = 0; k < num; k++) {
    if (k == 0 && Gr[0] <= std::numeric_limits<double>::epsilon()) {
      for (dream_idx_type i = 0; i < nt; i++) disc[i] = 0.0;
      continue;
    }
    SIRError e = disc_response(Gr[k], &disc[k*nt]);
    if (e != SIRError::none) status = e;
    if (e == SIRError::out_of_bounds) { free(disc); return e; }
  }
  double R = ring_radius(Gr, N-1);
  for (dream_idx_type n = 0; n < N; n++) {
    double r = ring_radius(Gr, n);
    dream_idx_type d = samples(ring_focus(fm, fm == FocusMet::ud ? focal[n] : focal[0], r, R, cp), dt);
    double w = do_apod ? window(am, am == ApodMet::ud ? apod[n] : 0.0, r, R, par) : 1.0;
    const double *outer = &disc[2*n*nt], *inner = &disc[(2*n-1)*nt];
    for (dream_idx_type i = 0; i < nt; i++)
      h[i] += w*(shifted(outer, i, d, nt) - (n == 0 ? 0.0 : shifted(inner, i, d, nt)));
  }
  free(disc);
  return status;
}

#define P double xo, double yo, double zo
#define Q double dx, double dy, double dt, dream_idx_type nt, double delay, double v, double cp, dream_idx_type num, double *Gr, FocusMet fm, double *focal, double *apod, bool do_apod, ApodMet am, double par, double *h, ErrorLevel level
#define SUM(call) rings([&](double R, double *row) { return call; }, dt, nt, cp, num, Gr, fm, focal, apod, do_apod, am, par, h)
extern "C" {
SIRError spec_arr_annu(P, Q)
{ return SUM(dreamcirc_serial(xo, yo, zo, R, dx, dy, dt, nt, delay, v, cp, row, level, 1.0)); }
SIRError spec_arr_annu_att(Attenuation *att, FFTCVec *xc, FFTVec *x, P, Q)
{ return SUM(dreamcirc_serial(*att, *xc, *x, xo, yo, zo, R, dx, dy, dt, nt, delay, v, cp, row, level, 1.0)); }
}
