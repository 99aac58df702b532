// Contracts of the Octave impulse response functions.
#include "octbind.h"
#include "dreamline.h"
#include "dreamrect.h"
#include "dreamcirc.h"
#include "dreamrect_f.h"
#include "dreamcirc_f.h"
#include "dreamsphere.h"
#include "dreamcylind.h"
#include "dream_arr_rect.h"
#include "dream_arr_circ.h"
#include "dream_arr_cylind.h"
#include "dream_arr_annu.h"

// Between lo and hi arguments, at most two results; the error level is the
// argument after the lo required ones ("stop" without it).
static inline void counts(long nin, long lo, long hi, int nout) { need(nin >= lo && nin <= hi && nout >= 0 && nout <= 2); }
static inline ErrorLevel level(long nin, long lo, A l) { return nin > lo ? level_of(text(l)) : ErrorLevel::stop; }

#define RUN(run, ...) \
  double *h = new double[a.nt*a.no]; zero(h, a.nt*a.no); \
  SIRError e = o.run(a.alpha, (double *) a.ro, a.no, __VA_ARGS__ a.dx, a.dy, a.dt, a.nt, a.type, (double *) a.delay, a.v, a.cp, TAIL h, a.level); \
  need(o.is_running()); \
  result(ret, h, a.nt, a.no, e, nout)
#define OBJ(C, k, lo, hi) C o; counts(nin, lo, hi, nout); need(is_vector(geom, k)); const double *g = geom.p; Sir a = sir(ro, s, delay, m); a.level = level(nin, lo, lev)
#define P List *ret, A ro, A geom, A s, A delay, A m
#define E long nin, int nout
#define PA List *ret, A ro, A geom, A G, A s, A delay, A m, A foc, A focal, A steer, A steerv, A apod, A apodv, A win, A lev

extern "C" {
#define TAIL
void spec_oct_line(P, A lev, E)         { OBJ(Line, 1, 5, 6);   RUN(dreamline, g[0],); }
void spec_oct_rect(P, A lev, A dev, E)  { OBJ(Rect, 2, 5, 7);   need(nin < 7 || dev.str); RUN(dreamrect, g[0], g[1],); }
void spec_oct_circ(P, A lev, A dev, E)  { OBJ(Circ, 1, 5, 7);   need(nin < 7 || dev.str); RUN(dreamcirc, g[0],); }
void spec_oct_sphere(P, A lev, E)       { OBJ(Sphere, 2, 5, 6); RUN(dreamsphere, g[0], g[1],); }
void spec_oct_cylind(P, A lev, E)       { OBJ(Cylind, 3, 5, 6); RUN(dreamcylind, g[0], g[1], g[2],); }
void spec_oct_rect_f(P, A foc, A focal, A lev, E) { OBJ(Rect_f, 2, 7, 8); FocusMet fm = focal_of(text(foc), focal, 1); RUN(dreamrect_f, g[0], g[1], fm, focal.p[0],); }
void spec_oct_circ_f(P, A foc, A focal, A lev, E) { OBJ(Circ_f, 1, 7, 8); FocusMet fm = focal_of(text(foc), focal, 1); RUN(dreamcirc_f, g[0], fm, focal.p[0],); }

#undef TAIL
#define TAIL num, (double *) G.p, fm, (double *) focal.p, sm, steerv.p[0], steerv.p[1], (double *) apodv.p, on, am, scalar(win),
#define ARR dream_idx_type num = G.m; need(G.n == 3 && num >= 1); \
  FocusMet fm = focal_of(text(foc), focal, num); SteerMet sm = steer_of(text(steer)); need(is_vector(steerv, 2)); \
  ApodMet am; bool on = apod_of(text(apod), am); need(!on || am != ApodMet::ud || apodv.m*apodv.n == num)
void spec_oct_arr_rect(PA, E)   { OBJ(ArrRect, 2, 13, 14);   ARR; RUN(dream_arr_rect, g[0], g[1],); }
void spec_oct_arr_circ(PA, E)   { OBJ(ArrCirc, 1, 13, 14);   ARR; RUN(dream_arr_circ, g[0],); }
void spec_oct_arr_cylind(PA, E) { OBJ(ArrCylind, 3, 13, 14); ARR; RUN(dream_arr_cylind, g[0], g[1], g[2],); }

#undef TAIL
#define TAIL num, (double *) G.p, fm, (double *) focal.p, (double *) apodv.p, on, am, scalar(win),
void spec_oct_arr_annu(List *ret, A ro, A G, A s, A delay, A m, A foc, A focal, A apod, A apodv, A win, A lev, E)
{
  ArrAnnu o; counts(nin, 10, 11, nout); Sir a = sir(ro, s, delay, m); a.level = level(nin, 10, lev);
  dream_idx_type num = G.m*G.n, rings = (num+1)/2;
  need((G.m == 1 || G.n == 1) && num % 2 == 1);
  FocusMet fm = focal_of(text(foc), focal, rings);
  ApodMet am; bool on = apod_of(text(apod), am); need(!on || am != ApodMet::ud || apodv.m*apodv.n == rings);
  RUN(dream_arr_annu,);
}
}
