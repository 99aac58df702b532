// Entry points of the array responses.  The serial member functions are declared
// here as free functions through accessors (they are private members).
#include "drive.h"
#define private public
#include "dream_arr_rect.h"
#include "dream_arr_circ.h"
#include "dream_arr_cylind.h"
#include "dream_arr_annu.h"
#undef private

#define D0(f) drive([&](double x, double y, double z, double d, double *row) { return f; }
#define D1(f) ,[&](Attenuation &m, FFTCVec &xc, FFTVec &xr, double x, double y, double z, double d, double *row) { return f; } \
  , alpha, dt, Ro, No, nt, type, delay, h)
#define A double alpha, double *Ro, dream_idx_type No
#define Q double dx, double dy, double dt, dream_idx_type nt, DelayType type, double *delay, double v, double cp
#define B dream_idx_type num, double *G, FocusMet fm, double *focal, SteerMet sm, double theta, double phi, double *apod, bool do_apod, ApodMet am, double par, double *h, ErrorLevel level
#define C dx,dy,dt,nt,d,v,cp,num,G,G+num,G+2*num,fm,focal,sm,theta,phi,apod,do_apod,am,par,row,level
extern "C" {
bool dv_running;
SIRError spec_drv_arr_rect(ArrRect *o, A, double a, double b, Q, B)
{ return D0(o->dream_arr_rect_serial(x,y,z,a,b,C)) D1(o->dream_arr_rect_serial(m,xc,xr,x,y,z,a,b,C)); }
SIRError spec_drv_arr_circ(ArrCirc *o, A, double R, Q, B)
{ return D0(o->dream_arr_circ_serial(x,y,z,R,C)) D1(o->dream_arr_circ_serial(m,xc,xr,x,y,z,R,C)); }
SIRError spec_drv_arr_cylind(ArrCylind *o, A, double a, double b, double K, Q, B)
{ Cylind c; return D0(o->dream_arr_cylind_serial(c,x,y,z,a,b,K,C)) D1(o->dream_arr_cylind_serial(c,m,xc,xr,x,y,z,a,b,K,C)); }
SIRError spec_drv_arr_annu(ArrAnnu *o, A, Q, dream_idx_type num, double *Gr, FocusMet fm, double *focal, double *apod, bool do_apod, ApodMet am, double par, double *h, ErrorLevel level)
{ return D0(o->dream_arr_annu_serial(x,y,z,dx,dy,dt,nt,d,v,cp,num,Gr,fm,focal,apod,do_apod,am,par,row,level))
  D1(o->dream_arr_annu_serial(m,xc,xr,x,y,z,dx,dy,dt,nt,d,v,cp,num,Gr,fm,focal,apod,do_apod,am,par,row,level)); }
}
