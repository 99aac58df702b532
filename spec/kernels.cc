#include "spec.h"

static inline void clear(double *h, dream_idx_type nt) { for (dream_idx_type i = 0; i < nt; i++) h[i] = 0.0; }

// ---------------------------------------------------------------- flat apertures
template<class Out>
static SIRError line(Out out, double xo, double yo, double zo, double a,
                     double dx, double dy, double dt, dream_idx_type nt,
                     double delay, double v, double cp, ErrorLevel level)
{
  SIRError err = SIRError::none;
  DV_MIDPOINTS(x, -a/2, a/2, dx) {
    double r = std::sqrt((xo-x)*(xo-x) + yo*yo + zo*zo);
    DV_ELEMENT(element(out, r, dx*dy, delay, 1.0, v, cp, dt, nt));
  }
  return err;
}

template<class Out>
static SIRError rect(Out out, double xo, double yo, double zo, double a, double b,
                     double dx, double dy, double dt, dream_idx_type nt,
                     double delay, double v, double cp, ErrorLevel level, double weight)
{
  SIRError err = SIRError::none;
  DV_MIDPOINTS(y, -b/2, b/2, dy)
    DV_MIDPOINTS(x, -a/2, a/2, dx) {
      double r = std::sqrt((xo-x)*(xo-x) + (yo-y)*(yo-y) + zo*zo);
      DV_ELEMENT(element(out, r, dx*dy, delay, weight, v, cp, dt, nt));
    }
  return err;
}

template<class Out>
static SIRError circ(Out out, double xo, double yo, double zo, double R,
                     double dx, double dy, double dt, dream_idx_type nt,
                     double delay, double v, double cp, ErrorLevel level, double weight)
{
  SIRError err = SIRError::none;
  DV_MIDPOINTS(y, -R, R, dy) {
    double w = std::sqrt(R*R - y*y);
    DV_MIDPOINTS(x, -w, w, dx) {
      double r = std::sqrt((xo-x)*(xo-x) + (yo-y)*(yo-y) + zo*zo);
      DV_ELEMENT(element(out, r, dx*dy, delay, weight, v, cp, dt, nt));
    }
  }
  return err;
}

// ---------------------------------------------------------------- focused apertures
// Extra travel compensated at surface point (x,y) for a focus at depth f; the
// aperture's outermost point (distance X, Y or D from the centre) has zero delay
// in the x, y and radial modes.
static inline double focus_delay(FocusMet m, double f, double x, double y, double X, double Y, double D, double cp)
{
  double d = 0.0;
  if (m == FocusMet::x) d = std::sqrt(X*X + f*f) - std::sqrt(x*x + f*f);
  else if (m == FocusMet::y) d = std::sqrt(Y*Y + f*f) - std::sqrt(y*y + f*f);
  else if (m == FocusMet::xy) d = std::sqrt(D*D + f*f) - std::sqrt(x*x + y*y + f*f);
  else if (m == FocusMet::x_y) d = std::sqrt(D*D + f*f) - (std::sqrt(x*x + f*f) + std::sqrt(y*y + f*f));
  return d*1000.0/cp;
}

template<class Out>
static SIRError rect_f(Out out, double xo, double yo, double zo, double a, double b, FocusMet m, double f,
                       double dx, double dy, double dt, dream_idx_type nt,
                       double delay, double v, double cp, ErrorLevel level)
{
  SIRError err = SIRError::none;
  DV_MIDPOINTS(y, -b/2, b/2, dy)
    DV_MIDPOINTS(x, -a/2, a/2, dx) {
      double r = std::sqrt((xo-x)*(xo-x) + (yo-y)*(yo-y) + zo*zo);
      double fd = focus_delay(m, f, x, y, a, b, std::sqrt(a*a + b*b), cp);
      DV_ELEMENT(element(out, r, dx*dy, delay - fd, 1.0, v, cp, dt, nt));
    }
  return err;
}

template<class Out>
static SIRError circ_f(Out out, double xo, double yo, double zo, double R, FocusMet m, double f,
                       double dx, double dy, double dt, dream_idx_type nt,
                       double delay, double v, double cp, ErrorLevel level)
{
  SIRError err = SIRError::none;
  DV_MIDPOINTS(y, -R, R, dy) {
    double w = std::sqrt(R*R - y*y);
    DV_MIDPOINTS(x, -w, w, dx) {
      double r = std::sqrt((xo-x)*(xo-x) + (yo-y)*(yo-y) + zo*zo);
      double fd = focus_delay(m, f, x, y, R, R, R, cp);
      DV_ELEMENT(element(out, r, dx*dy, delay - fd, 1.0, v, cp, dt, nt));
    }
  }
  return err;
}

// ---------------------------------------------------------------- curved apertures
// Height of a bowl of curvature radius C at distance^2 d2 from its axis,
// towards the observer (C >= 0, focused) or away from it (C < 0).
static inline double bowl(double C, double d2)
{
  double z = std::fabs(C) - std::sqrt(C*C - d2);
  return C >= 0.0 ? z : -z;
}

template<class Out>
static SIRError sphere(Out out, double xo, double yo, double zo, double R, double C,
                       double dx, double dy, double dt, dream_idx_type nt,
                       double delay, double v, double cp, ErrorLevel level)
{
  SIRError err = SIRError::none;
  DV_MIDPOINTS(y, -R, R, dy) {
    double w = std::sqrt(R*R - y*y);
    DV_MIDPOINTS(x, -w, w, dx) {
      double rz = zo - bowl(C, x*x + y*y);
      double r = std::sqrt((xo-x)*(xo-x) + (yo-y)*(yo-y) + rz*rz);
      DV_ELEMENT(element(out, r, dx*dy, delay, 1.0, v, cp, dt, nt));
    }
  }
  return err;
}

template<class Out>
static SIRError cylind(Out out, double xo, double yo, double zo, double a, double b, double C,
                       double dx, double dy, double dt, dream_idx_type nt,
                       double delay, double v, double cp, ErrorLevel level, double weight)
{
  SIRError err = SIRError::none;
  double A = std::fabs(C);
  double half = std::atan((b/2)/std::sqrt(A*A - (b/2)*(b/2)));   // half opening angle
  double dphi = std::asin(dy/A);
  DV_MIDPOINTS(phi, -half, half, dphi) {
    double y = A*std::sin(phi);
    DV_MIDPOINTS(x, -a/2, a/2, dx) {
      double rz = zo - bowl(C, y*y);
      double r = std::sqrt((xo-x)*(xo-x) + (yo-y)*(yo-y) + rz*rz);
      DV_ELEMENT(element(out, r, A*dx*dphi, delay, weight, v, cp, dt, nt));
    }
  }
  return err;
}

// ---------------------------------------------------------------- entry points
#define G double xo, double yo, double zo
#define S double dx, double dy, double dt, dream_idx_type nt, double delay, double v, double cp, double *h, ErrorLevel level
#define A Attenuation *att, FFTCVec *xc, FFTVec *x
#define GG xo, yo, zo
#define SS dx, dy, dt, nt, delay, v, cp, level
#define DIR Direct{h}
#define FIL Filtered{att, xc, x, h}
extern "C" {
SIRError spec_line(G, double a, S) { clear(h, nt); return line(DIR, GG, a, SS); }
SIRError spec_line_att(A, G, double a, S) { clear(h, nt); return line(FIL, GG, a, SS); }
SIRError spec_rect(G, double a, double b, S, double weight) { return rect(DIR, GG, a, b, SS, weight); }
SIRError spec_rect_att(A, G, double a, double b, S, double weight) { return rect(FIL, GG, a, b, SS, weight); }
SIRError spec_circ(G, double R, S, double weight) { return circ(DIR, GG, R, SS, weight); }
SIRError spec_circ_att(A, G, double R, S, double weight) { return circ(FIL, GG, R, SS, weight); }
SIRError spec_rect_f(G, double a, double b, FocusMet m, double f, S) { clear(h, nt); return rect_f(DIR, GG, a, b, m, f, SS); }
SIRError spec_rect_f_att(A, G, double a, double b, FocusMet m, double f, S) { clear(h, nt); return rect_f(FIL, GG, a, b, m, f, SS); }
SIRError spec_circ_f(G, double R, FocusMet m, double f, S) { clear(h, nt); return circ_f(DIR, GG, R, m, f, SS); }
SIRError spec_circ_f_att(A, G, double R, FocusMet m, double f, S) { clear(h, nt); return circ_f(FIL, GG, R, m, f, SS); }
SIRError spec_sphere(G, double R, double C, S) { clear(h, nt); return sphere(DIR, GG, R, C, SS); }
SIRError spec_sphere_att(A, G, double R, double C, S) { clear(h, nt); return sphere(FIL, GG, R, C, SS); }
SIRError spec_cylind(G, double a, double b, double C, S, double weight) { return cylind(DIR, GG, a, b, C, SS, weight); }
SIRError spec_cylind_att(A, G, double a, double b, double C, S, double weight) { return cylind(FIL, GG, a, b, C, SS, weight); }
}
