// Contracts of delay-and-sum beamforming (SAFT, TFM, row-column addressed arrays).
#include "drive.h"
#define private public
#include "das.h"
#undef private

// One A-scan y of L samples, delayed by the travel time t [ms]; dt in us.
template<class T>
static inline bool pick(const T *y, dream_idx_type L, T t, T dt, T &im)
{
  dream_idx_type k = (dream_idx_type) (t*1000/dt);
  if (k >= 0 && k < L) {
    im += y[k];
    return true;
  }
  return false;
}

// Travel time [ms] between an observation point and a point / line element.
template<class T>
static inline T travel(T dx, T dy, T dz, T cp) { return std::sqrt(dx*dx + dy*dy + dz*dz)/cp; }

// Distance from o to the closest point of the stripe [lo, hi] (signed).
template<class T>
static inline T stripe(T o, T lo, T hi) { return o < lo ? lo - o : (o > hi ? hi - o : (T) 0); }

template<class T>
static SIRError saft(const T *Y, dream_idx_type L, const T *g, dream_idx_type N, T xo, T yo, T zo, T dt, T delay, T cp, T &im, ErrorLevel level)
{
  SIRError err = SIRError::none;
  im = 0;
  for (dream_idx_type n = 0; n < N; n++)
    DV_ELEMENT(pick(Y + n*L, L, 2*(travel(g[n] - xo, g[n+N] - yo, g[n+2*N] - zo, cp) + delay/1000), dt, im));
  return err;
}

template<class T>
static SIRError tfm(const T *Y, dream_idx_type L, const T *gt, dream_idx_type Nt, const T *gr, dream_idx_type Nr,
                    T xo, T yo, T zo, T dt, T delay, T cp, T &im, ErrorLevel level)
{
  SIRError err = SIRError::none;
  im = 0;
  for (dream_idx_type t = 0; t < Nt; t++)
    for (dream_idx_type r = 0; r < Nr; r++)
      DV_ELEMENT(pick(Y + (t*Nr + r)*L, L, travel(gt[t] - xo, gt[t+Nt] - yo, gt[t+2*Nt] - zo, cp)
                      + travel(gr[r] - xo, gr[r+Nr] - yo, gr[r+2*Nr] - zo, cp) + delay/1000, dt, im));
  return err;
}

// Row-column addressed arrays: column c is a line element at (x_c, z_c) that
// extends in y between the outermost rows, row r one at (y_r, z_r) that extends
// in x between the outermost columns.
template<class T>
static inline T column(const T *gc, dream_idx_type Nc, const T *gr, dream_idx_type Nr, dream_idx_type c, T xo, T yo, T zo, T cp)
{ return travel(gc[c] - xo, stripe(yo, gr[Nr], gr[Nr + Nr-1]), gc[c+2*Nc] - zo, cp); }
template<class T>
static inline T row(const T *gc, dream_idx_type Nc, const T *gr, dream_idx_type Nr, dream_idx_type r, T xo, T yo, T zo, T cp)
{ return travel(stripe(xo, gc[0], gc[Nc-1]), gr[r+Nr] - yo, gr[r+2*Nr] - zo, cp); }

template<class T>
static SIRError rca(bool coltx, const T *Y, dream_idx_type L, const T *gc, dream_idx_type Nc, const T *gr, dream_idx_type Nr,
                    T xo, T yo, T zo, T dt, T delay, T cp, T &im, ErrorLevel level)
{
  SIRError err = SIRError::none;
  im = 0;
  if (coltx) {
    for (dream_idx_type c = 0; c < Nc; c++)
      for (dream_idx_type r = 0; r < Nr; r++)
        DV_ELEMENT(pick(Y + (c*Nr + r)*L, L, column(gc, Nc, gr, Nr, c, xo, yo, zo, cp) + row(gc, Nc, gr, Nr, r, xo, yo, zo, cp) + delay/1000, dt, im));
  } else {
    for (dream_idx_type r = 0; r < Nr; r++)
      for (dream_idx_type c = 0; c < Nc; c++)
        DV_ELEMENT(pick(Y + (r*Nc + c)*L, L, column(gc, Nc, gr, Nr, c, xo, yo, zo, cp) + row(gc, Nc, gr, Nr, r, xo, yo, zo, cp) + delay/1000, dt, im));
  }
  return err;
}

#define ONE(T, s) \
SIRError spec_saft_##s(const T *Y, dream_idx_type L, const T *g, dream_idx_type N, T xo, T yo, T zo, T dt, T delay, T cp, T *im, ErrorLevel level) \
{ return saft(Y, L, g, N, xo, yo, zo, dt, delay, cp, *im, level); } \
SIRError spec_tfm_##s(const T *Y, dream_idx_type L, const T *gt, dream_idx_type Nt, const T *gr, dream_idx_type Nr, T xo, T yo, T zo, T dt, T delay, T cp, T *im, ErrorLevel level) \
{ return tfm(Y, L, gt, Nt, gr, Nr, xo, yo, zo, dt, delay, cp, *im, level); } \
SIRError spec_coltx_##s(const T *Y, dream_idx_type L, const T *gt, dream_idx_type Nt, const T *gr, dream_idx_type Nr, T xo, T yo, T zo, T dt, T delay, T cp, T *im, ErrorLevel level) \
{ return rca(true, Y, L, gt, Nt, gr, Nr, xo, yo, zo, dt, delay, cp, *im, level); } \
SIRError spec_rowtx_##s(const T *Y, dream_idx_type L, const T *gt, dream_idx_type Nt, const T *gr, dream_idx_type Nr, T xo, T yo, T zo, T dt, T delay, T cp, T *im, ErrorLevel level) \
{ return rca(false, Y, L, gt, Nt, gr, Nr, xo, yo, zo, dt, delay, cp, *im, level); }

// The image: every observation point its own sum.
template<class T>
static SIRError image(DAS<T> *o, const T *Y, const T *Ro, const T *Gt, const T *Gr, T dt, DelayType type, const T *delay, T cp, T *Im, ErrorLevel level)
{
  DASType m = o->m_num_r_elements == 0 ? DASType::saft : o->m_das_type;
  dream_idx_type L = o->m_a_scan_len, No = o->m_No, Nt = o->m_num_t_elements, Nr = o->m_num_r_elements;
  dream_idx_type W = workers(No);
  bool running = true;
  SIRError *status = (SIRError *) malloc(W*sizeof(SIRError));
  for (dream_idx_type t = 0; t < W; t++) {
    status[t] = SIRError::none;
    for (dream_idx_type n = t*No/W; n < (t+1)*No/W; n++) {
      T x = Ro[n], y = Ro[n+No], z = Ro[n+2*No], d = type == DelayType::single ? delay[0] : delay[n];
      SIRError e = SIRError::none;
      if (m == DASType::saft) e = o->das_saft_serial(Y, L, Gt, Nt, x, y, z, dt, d, cp, Im[n], level);
      if (m == DASType::tfm) e = o->das_tfm_serial(Y, L, Gt, Nt, Gr, Nr, x, y, z, dt, d, cp, Im[n], level);
      if (m == DASType::rca_coltx) e = o->das_rca_serial_coltx(Y, L, Gt, Nt, Gr, Nr, x, y, z, dt, d, cp, Im[n], level);
      if (m == DASType::rca_rowtx) e = o->das_rca_serial_rowtx(Y, L, Gt, Nt, Gr, Nr, x, y, z, dt, d, cp, Im[n], level);
      if (e != SIRError::none) status[t] = e;
      if (e == SIRError::out_of_bounds) running = false;
      if (!running) break;
    }
  }
  SIRError err = SIRError::none;
  if (W > 1) {
    for (dream_idx_type t = 0; t < W; t++)
      if (status[t] != SIRError::none) err = status[t];
  } else err = status[0];
  free(status);
  dv_running = running;
  return err;
}

extern "C" {
bool dv_running;
ONE(double, d)
ONE(float, f)
SIRError spec_das_d(DAS<double> *o, const double *Y, const double *Ro, const double *Gt, const double *Gr, double dt, DelayType type, const double *delay, double cp, double *Im, ErrorLevel level)
{ return image(o, Y, Ro, Gt, Gr, dt, type, delay, cp, Im, level); }
SIRError spec_das_f(DAS<float> *o, const float *Y, const float *Ro, const float *Gt, const float *Gr, float dt, DelayType type, const float *delay, float cp, float *Im, ErrorLevel level)
{ return image(o, Y, Ro, Gt, Gr, dt, type, delay, cp, Im, level); }
}
