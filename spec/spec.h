// Executable contracts ("what the call must return / leave in memory").
// These functions are the postconditions: the verifier proves, for all inputs,
// that the real function returns the same value and leaves the same memory.
#pragma once
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <memory>
#include "dream.h"
#include "attenuation.h"

// Status of a sample that falls outside the response, per error level.
static inline SIRError policy(ErrorLevel l)
{
  if (l == ErrorLevel::ignore) return SIRError::ignore_out_of_bounds;
  if (l == ErrorLevel::warn) return SIRError::warn_out_of_bounds;
  if (l == ErrorLevel::stop || l == ErrorLevel::parallel_stop) return SIRError::out_of_bounds;
  return SIRError::none;
}

// Where a surface element's contribution goes: straight into the response ...
struct Direct {
  double *h;
  void add(double r, dream_idx_type k, double ai) { h[k] += ai; }
};
// ... or through the attenuation filter.
struct Filtered {
  Attenuation *att; FFTCVec *xc; FFTVec *x; double *h;
  void add(double r, dream_idx_type k, double ai) { att->att(*xc, *x, r, k, h, ai); }
};

// One surface element of area ds at distance r [mm], delay [us], sampled at dt [us].
template<class Out>
static inline bool element(Out &out, double r, double ds, double delay, double weight,
                       double v, double cp, double dt, dream_idx_type nt)
{
  double amp = weight * v * ds / (2*M_PI*r) * 1000.0/dt;
  dream_idx_type k = (dream_idx_type) std::rint((r*1000.0/cp - delay)/dt);
  if (k >= 0 && k < nt) {
    out.add(r, k, amp);
    return true;
  }
  return false;
}

// Cell midpoints from lo to hi with the given step.
#define DV_MIDPOINTS(x, lo, hi, step) for (double x = (lo) + (step)/2; x <= (hi); x += (step))

// Sum a surface element; a sample outside the response sets the status, and on
// a stop condition leaves the function.
#define DV_ELEMENT(call) do { if (!(call)) { err = policy(level); \
  if (err == SIRError::out_of_bounds) return err; } } while (0)
