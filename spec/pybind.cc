// Contracts of the Python functions.
#include "bind.h"
#include "dreamline.h"
#include "dreamrect.h"
#include "dreamcirc.h"
#include "dreamrect_f.h"
#include "dreamcirc_f.h"
#include "dreamsphere.h"
#include "dreamcylind.h"
#include "dream_arr_rect.h"
#include "dream_arr_circ.h"
#include "dream_arr_cylind.h"
#include "dream_arr_annu.h"

// The result is an nt x no matrix, cleared before the computation; a run that
// was stopped raises.
#define RUN(run, ...) \
  double *h = new double[a.nt*a.no]; zero(h, a.nt*a.no); \
  o.run(a.alpha, (double *) a.ro, a.no, __VA_ARGS__ a.dx, a.dy, a.dt, a.nt, a.type, (double *) a.delay, a.v, a.cp, TAIL h, a.level); \
  need(o.is_running()); \
  ret->p = h; ret->nd = 2; ret->m = a.nt; ret->n = a.no
#define OBJ(C, k) C o; need(is_vector(geom, k)); const double *g = geom.p; Sir a = sir(ro, s, delay, m); a.level = level_of(level)
#define P Mat<double> *ret, M ro, M geom, M s, M delay, M m
#define PA Mat<double> *ret, M ro, M geom, M G, M s, M delay, M m, Str foc, M focal, Str steer, M steerv, Str apod, M apodv, double win, Str level

extern "C" {
#define TAIL
void spec_py_line(P, Str level)   { OBJ(Line, 1);   RUN(dreamline, g[0],); }
void spec_py_rect(P, Str level)   { OBJ(Rect, 2);   RUN(dreamrect, g[0], g[1],); }
void spec_py_circ(P, Str level)   { OBJ(Circ, 1);   RUN(dreamcirc, g[0],); }
void spec_py_sphere(P, Str level) { OBJ(Sphere, 2); RUN(dreamsphere, g[0], g[1],); }
void spec_py_cylind(P, Str level) { OBJ(Cylind, 3); RUN(dreamcylind, g[0], g[1], g[2],); }
void spec_py_rect_f(P, Str foc, M focal, Str level) { OBJ(Rect_f, 2); FocusMet fm = focal_of(foc, focal, 1); RUN(dreamrect_f, g[0], g[1], fm, focal.p[0],); }
void spec_py_circ_f(P, Str foc, M focal, Str level) { OBJ(Circ_f, 1); FocusMet fm = focal_of(foc, focal, 1); RUN(dreamcirc_f, g[0], fm, focal.p[0],); }

#undef TAIL
#define TAIL num, (double *) G.p, fm, (double *) focal.p, sm, steerv.p[0], steerv.p[1], (double *) apodv.p, on, am, win,
#define ARR dream_idx_type num = G.m; need(G.n == 3 && num >= 1); \
  FocusMet fm = focal_of(foc, focal, num); SteerMet sm = steer_of(steer); need(is_vector(steerv, 2)); \
  ApodMet am; bool on = apod_of(apod, am); need(!on || am != ApodMet::ud || apodv.m*apodv.n == num)
void spec_py_arr_rect(PA)   { OBJ(ArrRect, 2);   ARR; RUN(dream_arr_rect, g[0], g[1],); }
void spec_py_arr_circ(PA)   { OBJ(ArrCirc, 1);   ARR; RUN(dream_arr_circ, g[0],); }
void spec_py_arr_cylind(PA) { OBJ(ArrCylind, 3); ARR; RUN(dream_arr_cylind, g[0], g[1], g[2],); }

// An odd number of radii; one focusing delay and one weight per ring.
#undef TAIL
#define TAIL num, (double *) G.p, fm, (double *) focal.p, (double *) apodv.p, on, am, win,
void spec_py_arr_annu(Mat<double> *ret, M ro, M G, M s, M delay, M m, Str foc, M focal, Str apod, M apodv, double win, Str level)
{
  ArrAnnu o; Sir a = sir(ro, s, delay, m); a.level = level_of(level);
  dream_idx_type num = G.m*G.n, rings = (num+1)/2;
  need((G.m == 1 || G.n == 1) && num % 2 == 1);
  FocusMet fm = focal_of(foc, focal, rings);
  ApodMet am; bool on = apod_of(apod, am); need(!on || am != ApodMet::ud || apodv.m*apodv.n == rings);
  RUN(dream_arr_annu,);
}
}
