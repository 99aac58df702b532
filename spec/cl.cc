// The OpenCL kernels (each compiled as it is, for one work item) and their contracts.
#include "../shim/cl/device.h"
namespace cl {
#include "dreamrect.cl"
#include "dreamcirc.cl"
#include "rect_sir.cl"
}
namespace cl_double {
#include "das_double.cl"
#undef DAS_DATATYPE
#include "das_uni_double.cl"
#undef DAS_DATATYPE
}
namespace cl_float {
#include "das_float.cl"
#undef DAS_DATATYPE
#undef F_SFX
#include "das_uni_float.cl"
#undef DAS_DATATYPE
#undef F_SFX
}
#undef kernel
#undef global

#include "spec.h"

extern "C" {
SIRError spec_rect(double xo, double yo, double zo, double a, double b, double dx, double dy, double dt, dream_idx_type nt, double delay, double v, double cp, double *h, ErrorLevel level, double weight);
SIRError spec_circ(double xo, double yo, double zo, double R, double dx, double dy, double dt, dream_idx_type nt, double delay, double v, double cp, double *h, ErrorLevel level, double weight);
#define PIXEL(T, s) \
SIRError spec_saft_##s(const T *Y, dream_idx_type L, const T *g, dream_idx_type N, T xo, T yo, T zo, T dt, T delay, T cp, T *im, ErrorLevel level); \
SIRError spec_tfm_##s(const T *Y, dream_idx_type L, const T *gt, dream_idx_type Nt, const T *gr, dream_idx_type Nr, T xo, T yo, T zo, T dt, T delay, T cp, T *im, ErrorLevel level); \
SIRError spec_coltx_##s(const T *Y, dream_idx_type L, const T *gt, dream_idx_type Nt, const T *gr, dream_idx_type Nr, T xo, T yo, T zo, T dt, T delay, T cp, T *im, ErrorLevel level); \
SIRError spec_rowtx_##s(const T *Y, dream_idx_type L, const T *gt, dream_idx_type Nt, const T *gr, dream_idx_type Nr, T xo, T yo, T zo, T dt, T delay, T cp, T *im, ErrorLevel level);
PIXEL(double, d)
PIXEL(float, f)

// Work item no computes row no of the result, what the CPU computes for point no.
void dv_cl_rect(int no, const double *Ro, int No, double a, double b, double dx, double dy, double dt, int nt, double delay, double v, double cp, double *H)
{ dv_work_item = no; cl::dreamrect(Ro, No, a, b, dx, dy, dt, nt, delay, v, cp, H); }
void spec_cl_rect(int no, const double *Ro, int No, double a, double b, double dx, double dy, double dt, int nt, double delay, double v, double cp, double *H)
{
  double *h = H + no*nt;
  for (int k = 0; k < nt; k++) h[k] = 0;
  spec_rect(Ro[no], Ro[no+No], Ro[no+2*No], a, b, dx, dy, dt, nt, delay, v, cp, h, ErrorLevel::ignore, 1.0);
}

void dv_cl_circ(int no, const double *Ro, int No, double R, double dx, double dy, double dt, int nt, double delay, double v, double cp, double *H)
{ dv_work_item = no; cl::dreamcirc(Ro, No, R, dx, dy, dt, nt, delay, v, cp, H); }
void spec_cl_circ(int no, const double *Ro, int No, double R, double dx, double dy, double dt, int nt, double delay, double v, double cp, double *H)
{
  double *h = H + no*nt;
  for (int k = 0; k < nt; k++) h[k] = 0;
  spec_circ(Ro[no], Ro[no+No], Ro[no+2*No], R, dx, dy, dt, nt, delay, v, cp, h, ErrorLevel::ignore, 1.0);
}

void dv_cl_sir(int no, const double *Ro, int No, double a, double b, double dt, int nt, double delay, double v, double cp, double *H)
{ dv_work_item = no; cl::rect_sir(Ro, No, a, b, dt, nt, delay, v, cp, H); }
// A corner piece (see sirs.cc) is never negative: what falls below zero is rounding and left out.
static inline double corner(double s, double l, double z, double cp, double t)
{
  double t1 = z/cp, t2 = std::sqrt(z*z + s*s)/cp, t3 = std::sqrt(z*z + l*l)/cp, t4 = std::sqrt(z*z + s*s + l*l)/cp;
  double d = cp*std::sqrt(t*t - t1*t1), g = 0;
  if (t >= t1 && t <= t4) g += cp/4;
  if (t >= t2 && t <= t4) g -= cp/(2*M_PI)*std::acos(s/d);
  if (t >= t3 && t <= t4) g -= cp/(2*M_PI)*std::acos(l/d);
  return g;
}
#define PIECE(sign, s, l) for (int k = 0; k < nt; k++) { double g = corner(s, l, z, cp, (k*dt + delay)/1e6); if (g > 0) h[k] += v*(sign)*g; }
void spec_cl_sir(int no, const double *Ro, int No, double ai, double bi, double dt, int nt, double delay, double v, double cp, double *H)
{
  double x = std::fabs(Ro[no])/1000, y = std::fabs(Ro[no+No])/1000, z = Ro[no+2*No]/1000, a = ai/1000, b = bi/1000;
  double near_x = a/2 - x, far_x = a/2 + x, near_y = b/2 - y, far_y = b/2 + y;
  double sx = near_x >= 0 ? 1 : -1, sy = near_y >= 0 ? 1 : -1;
  double *h = H + no*nt;
  for (int k = 0; k < nt; k++) h[k] = 0;
  PIECE(sx*sy, std::fabs(near_x), std::fabs(near_y))
  PIECE(sy, std::fabs(far_x), std::fabs(near_y))
  PIECE(1, std::fabs(far_x), std::fabs(far_y))
  PIECE(sx, std::fabs(near_x), std::fabs(far_y))
}

// Delay-and-sum: work item no computes pixel no.
#define DAS1(T, ns, s) \
void dv_cl_saft_##s(int no, const T *Y, int L, const T *G, int N, const T *Ro, int No, T dt, T delay, T cp, T *Im) \
{ dv_work_item = no; ns::das_saft(Y, L, G, N, Ro, No, dt, delay, cp, Im); } \
void spec_cl_saft_##s(int no, const T *Y, int L, const T *G, int N, const T *Ro, int No, T dt, T delay, T cp, T *Im) \
{ T im = 0; spec_saft_##s(Y, L, G, N, Ro[no], Ro[no+No], Ro[no+2*No], dt, delay, cp, &im, ErrorLevel::ignore); Im[no] = im; }
#define DAS2(T, ns, s, f, k) \
void dv_cl_##k##_##s(int no, const T *Y, int L, const T *Gt, int Nt, const T *Gr, int Nr, const T *Ro, int No, T dt, T delay, T cp, T *Im) \
{ dv_work_item = no; ns::f(Y, L, Gt, Nt, Gr, Nr, Ro, No, dt, delay, cp, Im); } \
void spec_cl_##k##_##s(int no, const T *Y, int L, const T *Gt, int Nt, const T *Gr, int Nr, const T *Ro, int No, T dt, T delay, T cp, T *Im) \
{ T im = 0; spec_##k##_##s(Y, L, Gt, Nt, Gr, Nr, Ro[no], Ro[no+No], Ro[no+2*No], dt, delay, cp, &im, ErrorLevel::ignore); Im[no] = im; }
#define DASALL(T, ns, s) DAS1(T, ns, s) DAS2(T, ns, s, das_tfm, tfm) DAS2(T, ns, s, das_rca_coltx, coltx) DAS2(T, ns, s, das_rca_rowtx, rowtx)
DASALL(double, cl_double, d)
DASALL(float, cl_float, f)
}

// The same for elements and pixels on regular grids; pixels are numbered with y
// first, then z, then x.
template<class T> static inline int count(T min, T step, T max) { return (int) ((max - min)/step + 1); }
template<class T> static inline T dist(T dx, T dy, T dz, T cp) { return std::sqrt(dx*dx + dy*dy + dz*dz)/cp; }
template<class T> static inline T stripe(T o, T lo, T hi) { return o < lo ? lo - o : (o > hi ? hi - o : (T) 0); }
template<class T> static inline void pick(const T *y, int L, T t, T dt, T &im)
{
  int k = (int) (t*1000/dt);
  if (k >= 0 && k < L) im += y[k];
}
#define GRID(T) T x0, T dx, T x1, T y0, T dy, T y1, T z0, T dz, T z1
#define GRIDS x0, dx, x1, y0, dy, y1, z0, dz, z1
template<class T> static inline void pixel(int no, GRID(T), T &x, T &y, T &z)
{
  int Nx = count(x0, dx, x1), Ny = count(y0, dy, y1), Nz = count(z0, dz, z1);
  y = y0 + (no % Ny)*dy;
  z = z0 + (no/Ny % Nz)*dz;
  x = x0 + (no/Ny/Nz % Nx)*dx;
}

extern "C" {
#define UNI1(T, ns, s) \
void dv_cl_uni_saft_##s(int no, int No, T g0, T dg, T g1, int L, const T *Y, GRID(T), T dt, T delay, T cp, T *Im) \
{ dv_work_item = no; ns::das_uni_saft(Y, L, g0, dg, g1, GRIDS, dt, delay, cp, Im); } \
void spec_cl_uni_saft_##s(int no, int No, T g0, T dg, T g1, int L, const T *Y, GRID(T), T dt, T delay, T cp, T *Im) \
{ \
  T x, y, z, im = 0; \
  pixel<T>(no, GRIDS, x, y, z); \
  for (int n = 0; n < count(g0, dg, g1); n++) pick<T>(Y + n*L, L, 2*(dist<T>(g0 + n*dg - x, y, z, cp) + delay/1000), dt, im); \
  Im[no] = im; \
}
#define UNI2(T, ns, s, f, id, outer, inner, first, second) \
void dv_cl_uni_##id##_##s(int no, int No, T g0, T dg, T g1, T r0, T dr, T r1, int L, const T *Y, GRID(T), T dt, T delay, T cp, T *Im) \
{ dv_work_item = no; ns::f(Y, L, g0, dg, g1, r0, dr, r1, GRIDS, dt, delay, cp, Im); } \
void spec_cl_uni_##id##_##s(int no, int No, T g0, T dg, T g1, T r0, T dr, T r1, int L, const T *Y, GRID(T), T dt, T delay, T cp, T *Im) \
{ \
  T x, y, z, im = 0; \
  pixel<T>(no, GRIDS, x, y, z); \
  int N = count(g0, dg, g1), M = count(r0, dr, r1); \
  for (int i = 0; i < outer; i++) \
    for (int k = 0; k < inner; k++) \
      pick<T>(Y + (i*inner + k)*L, L, first + second + delay/1000, dt, im); \
  Im[no] = im; \
}
// row-column: column n is a line at x_n from the first to the last row's place, row m one at y_m from the first to the last column's
#define COL(T, n) dist<T>(g0 + n*dg - x, stripe<T>(y, r0, r1), z, cp)
#define ROW(T, m) dist<T>(stripe<T>(x, g0, g1), r0 + m*dr - y, z, cp)
#define UNIALL(T, ns, s) UNI1(T, ns, s) \
UNI2(T, ns, s, das_uni_tfm, tfm, N, M, dist<T>(g0 + i*dg - x, y, z, cp), dist<T>(r0 + k*dr - x, y, z, cp)) \
UNI2(T, ns, s, das_uni_rca_coltx, coltx, N, M, COL(T, i), ROW(T, k)) \
UNI2(T, ns, s, das_uni_rca_rowtx, rowtx, M, N, COL(T, k), ROW(T, i))
UNIALL(double, cl_double, d)
UNIALL(float, cl_float, f)
}
