// Contract of the multi-observation-point entry points: every observation point
// gets the single-point response of its own position and delay; rows are handed
// to the workers as the contiguous ranges [t*No/T, (t+1)*No/T).
#pragma once
#include "spec.h"
#include <string>
#include <thread>
#include <limits>

static inline dream_idx_type cores(dream_idx_type No)      // whatever DREAM_NUM_THREADS says
{
  dream_idx_type T = std::thread::hardware_concurrency();
  if (T > No) T = No;
  if (T < 1) T = 1;
  return T;
}

static inline dream_idx_type workers(dream_idx_type No)
{
  dream_idx_type T = std::thread::hardware_concurrency();
  if (const char *e = std::getenv("DREAM_NUM_THREADS")) {
    dream_idx_type k = (dream_idx_type) std::stoul(e);
    if (k < T) T = k;
  }
  if (T > No) T = No;
  if (T < 1) T = 1;
  return T;
}

extern "C" bool dv_running;      // whether the run was completed (not stopped)

// plain(x,y,z,delay,row) and filtered(att,xc,x, x,y,z,delay,row): one response.
template<class F, class G>
static inline SIRError drive(F plain, G filtered, double alpha, double dt, double *Ro, dream_idx_type No,
                      dream_idx_type nt, DelayType type, double *delay, double *h)
{
  bool running = true;
  dream_idx_type T = workers(No);
  Attenuation medium(nt, dt, alpha);
  bool lossy = alpha > std::numeric_limits<double>::epsilon();
  SIRError *status = (SIRError *) malloc(T*sizeof(SIRError));
  auto rows = [&](dream_idx_type t, dream_idx_type from, dream_idx_type to) {
    status[t] = SIRError::none;
    std::unique_ptr<FFTCVec> xc; std::unique_ptr<FFTVec> x;
    if (lossy) { xc = std::make_unique<FFTCVec>(nt); x = std::make_unique<FFTVec>(nt); }
    for (dream_idx_type n = from; n < to; n++) {
      double d = type == DelayType::single ? delay[0] : delay[n];
      SIRError e = lossy ? filtered(medium, *xc, *x, Ro[n], Ro[n+No], Ro[n+2*No], d, &h[n*nt])
                         : plain(Ro[n], Ro[n+No], Ro[n+2*No], d, &h[n*nt]);
      if (e != SIRError::none) status[t] = e;
      if (e == SIRError::out_of_bounds) running = false;
      if (!running) return;
    }
  };
  for (dream_idx_type t = 0; t < T; t++) {
    if (T > 1) rows(t, t*No/T, (t+1)*No/T);
    else rows(0, t*No/T, (t+1)*No/T);
  }
  SIRError err = SIRError::none;
  if (T > 1) {
    for (dream_idx_type t = 0; t < T; t++)
      if (status[t] != SIRError::none) err = status[t];
  } else err = status[0];
  free(status);
  dv_running = running;
  return err;
}

// The same without attenuation and error status.
template<class F>
static inline void each(F response, dream_idx_type T, const double *Ro, dream_idx_type No, dream_idx_type nt, DelayType type, const double *delay, double *h)
{
  auto rows = [&](dream_idx_type from, dream_idx_type to) {
    for (dream_idx_type n = from; n < to; n++)
      response(Ro[n], Ro[n+No], Ro[n+2*No], type == DelayType::single ? delay[0] : delay[n], &h[n*nt]);
  };
  for (dream_idx_type t = 0; t < T; t++) {
    rows(t*No/T, (t+1)*No/T);
  }
  dv_running = true;
}
