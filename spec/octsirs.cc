// Contracts of the Octave functions for the closed-form responses.
#include "octbind.h"
#include "drive.h"
#include "rect_sir.h"
#include "circ_sir.h"
#include "scirc_sir.h"

// Positions, geometry, sampling [dt nt], delay, material [v cp]; one result at most.
struct Exact { const double *ro; dream_idx_type no; const double *g; double dt; dream_idx_type nt; DelayType type; const double *delay; double v, cp; };

static inline Exact exact(A ro, A geom, long k, A s, A delay, A m, long nin, long lo, long hi, int nout)
{
  Exact a;
  need(nin >= lo && nin <= hi && nout >= 0 && nout <= 1);
  need(ro.n == 3 && is_vector(geom, k) && is_vector(s, 2) && is_vector(m, 2));
  a.ro = ro.p; a.no = ro.m; a.g = geom.p;
  a.dt = s.p[0]; a.nt = (dream_idx_type) s.p[1];
  a.type = delay_kind(delay, ro.m); a.delay = delay.p;
  a.v = m.p[0]; a.cp = m.p[1];
  return a;
}

#define P List *ret, A ro, A geom, A s, A delay, A m
#define E long nin, int nout
#define H double *h = new double[a.nt*a.no]; zero(h, a.nt*a.no)
#define BACK result(ret, h, a.nt, a.no, SIRError::none, 1)

extern "C" {
bool dv_running;
void spec_oct_rect_sir(P, A dev, E)
{
  RectSir o;
  Exact a = exact(ro, geom, 2, s, delay, m, nin, 5, 6, nout);
  need(nin < 6 || dev.str);
  H;
  need(o.rect_sir((double *) a.ro, a.no, a.g[0], a.g[1], a.dt, a.nt, a.type, (double *) a.delay, a.v, a.cp, h) != ErrorLevel::stop);
  need(o.is_running());
  BACK;
}
void spec_oct_circ_sir(P, E)
{
  Exact a = exact(ro, geom, 1, s, delay, m, nin, 5, 5, nout);
  H;
  each([&](double x, double y, double z, double d, double *row) { circ_sir(x, y, z, a.g[0], a.dt, a.nt, d, a.v, a.cp, row); },
       workers(a.no), a.ro, a.no, a.nt, a.type, a.delay, h);
  BACK;
}
void spec_oct_scirc_sir(P, A n, E)
{
  Exact a = exact(ro, geom, 1, s, delay, m, nin, 6, 6, nout);
  dream_idx_type steps = (dream_idx_type) scalar(n);
  need(steps >= 1);
  H;
  each([&](double x, double y, double z, double d, double *row) { scirc_sir(x, y, z, a.g[0], a.dt, a.nt, d, a.v, a.cp, steps, row); },
       cores(a.no), a.ro, a.no, a.nt, a.type, a.delay, h);
  BACK;
}
}
