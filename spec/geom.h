// Contracts of the array geometry: aperture extent, focusing, steering, apodization.
#pragma once
#include "spec.h"

// Largest |g[i]|.
static inline double extent(const double *g, dream_idx_type n)
{
  double m = std::fabs(g[0]);
  for (dream_idx_type i = 1; i < n; i++)
    if (std::fabs(g[i]) > m) m = std::fabs(g[i]);
  return m;
}

// Delay compensation [us] of an element at (x,y) so that the array of extent
// (X,Y), radius D, focuses at depth f; user-defined delays are used as they are.
static inline double focus_comp(FocusMet m, double f, double x, double y, double X, double Y, double D, double cp)
{
  double d = 0.0;
  if (m == FocusMet::ud) return f;
  if (m == FocusMet::x) d = std::sqrt(X*X + f*f) - std::sqrt(x*x + f*f);
  if (m == FocusMet::y) d = std::sqrt(Y*Y + f*f) - std::sqrt(y*y + f*f);
  if (m == FocusMet::xy) d = std::sqrt(D*D + f*f) - std::sqrt(x*x + y*y + f*f);
  if (m == FocusMet::x_y) d = std::sqrt(D*D + f*f) - std::sqrt(x*x + f*f) - std::sqrt(y*y + f*f);
  return 1000.0*d/cp;
}

// Steering by theta [deg] in x and phi [deg] in y: delay [us] growing linearly
// with the element position, zero at the negative edge of the aperture.
static inline double steer_comp(SteerMet m, double theta, double phi, double x, double y, double X, double Y, double cp)
{
  double d = 0.0;
  if (m == SteerMet::x || m == SteerMet::xy) d += (X + x)*std::sin(theta*M_PI/180.0);
  if (m == SteerMet::y || m == SteerMet::xy) d += (Y + y)*std::sin(phi*M_PI/180.0);
  return 1000.0*d/cp;
}

// Apodization window at radius r of an aperture of radius R.
static inline double window(ApodMet m, double ud, double r, double R, double par)
{
  double q = r/R;
  double w = 1.0;
  if (m == ApodMet::ud) w = ud;
  if (m == ApodMet::triangle) w = 1.0 - std::fabs(r)/R;
  if (m == ApodMet::gauss) w = std::exp(-par*q*q);
  if (m == ApodMet::raised_cosine) w = par + std::cos(M_PI*q);
  if (m == ApodMet::hann) w = 0.5 - 0.5*std::cos(M_PI*q + M_PI);
  if (m == ApodMet::hamming) w = 25.0/46.0 - 21.0/46.0*std::cos(M_PI*q + M_PI);
  if (m == ApodMet::simply_supported) w = 1.0 - q*q;
  if (m == ApodMet::clamped) w = (1.0 - q*q)*(1.0 - q*q);
  return w;
}
