// Contracts of the language bindings: how the documented arguments reach the
// computation, what is rejected, and what comes back.
#pragma once
#include "spec.h"
#include <string>
#include <stdexcept>
#include <limits>

// A matrix argument (column-major).
template<class T>
struct Mat { const T *p; dream_idx_type nd, m, n; };
typedef const Mat<double> &M;
typedef const std::string &Str;

static inline void need(bool ok) { if (!ok) throw 1; }
template<class T>
static inline bool is_vector(const Mat<T> &a, dream_idx_type k) { return (a.m == k && a.n == 1) || (a.m == 1 && a.n == k); }

// One delay, or one per observation point.
template<class T>
static inline DelayType delay_kind(const Mat<T> &d, dream_idx_type No)
{
  need(d.m*d.n == 1 || d.m*d.n == No);
  return d.m*d.n == 1 ? DelayType::single : DelayType::multiple;
}

static inline ErrorLevel level_of(Str s)
{
  if (s == "ignore") return ErrorLevel::ignore;
  if (s == "warn") return ErrorLevel::warn;
  need(s == "stop");
  return ErrorLevel::stop;
}

static inline FocusMet focus_of(Str s)
{
  if (s == "off") return FocusMet::none;
  if (s == "x") return FocusMet::x;
  if (s == "y") return FocusMet::y;
  if (s == "xy" || s == "on") return FocusMet::xy;
  if (s == "x+y") return FocusMet::x_y;
  need(s == "ud");
  return FocusMet::ud;
}

// One focal depth, or one focusing delay per element ("ud").
static inline FocusMet focal_of(Str s, const Mat<double> &f, dream_idx_type num)
{
  FocusMet met = focus_of(s);
  need(f.m*f.n == (met == FocusMet::ud ? num : 1));
  return met;
}

static inline SteerMet steer_of(Str s)
{
  if (s == "off") return SteerMet::none;
  if (s == "x") return SteerMet::x;
  if (s == "y") return SteerMet::y;
  need(s == "xy");
  return SteerMet::xy;
}

// Returns whether apodization is on.
static inline bool apod_of(Str s, ApodMet &m)
{
  m = ApodMet::gauss;
  if (s == "off") return false;
  if (s == "triangle") m = ApodMet::triangle;
  else if (s == "gauss") m = ApodMet::gauss;
  else if (s == "raised") m = ApodMet::raised_cosine;
  else if (s == "hann") m = ApodMet::hann;
  else if (s == "hamming") m = ApodMet::hamming;
  else if (s == "simply") m = ApodMet::simply_supported;
  else if (s == "clamped") m = ApodMet::clamped;
  else { need(s == "ud"); m = ApodMet::ud; }
  return true;
}

// What every impulse response function takes.
struct Sir {
  const double *ro; dream_idx_type no; double dx, dy, dt; dream_idx_type nt;
  DelayType type; const double *delay; double v, cp, alpha; ErrorLevel level;
};

static inline Sir sir(M ro, M s, M delay, M m)
{
  Sir a;
  need(ro.n == 3 && is_vector(s, 4) && is_vector(m, 3));
  a.ro = ro.p; a.no = ro.m;
  a.dx = s.p[0]; a.dy = s.p[1]; a.dt = s.p[2]; a.nt = (dream_idx_type) s.p[3];
  a.type = delay_kind(delay, ro.m); a.delay = delay.p;
  a.v = m.p[0]; a.cp = m.p[1]; a.alpha = m.p[2];
  return a;
}

static inline void zero(double *h, dream_idx_type n) { for (dream_idx_type i = 0; i < n; i++) h[i] = 0.0; }
