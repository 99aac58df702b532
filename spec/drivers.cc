#include "drive.h"
#include "dreamline.h"
#include "dreamrect.h"
#include "dreamcirc.h"
#include "dreamrect_f.h"
#include "dreamcirc_f.h"
#include "dreamsphere.h"
#include "dreamcylind.h"

#define D0(f) drive([&](double x, double y, double z, double d, double *row) { return f; }
#define D1(f) ,[&](Attenuation &m, FFTCVec &xc, FFTVec &xr, double x, double y, double z, double d, double *row) { return f; } \
  , alpha, dt, Ro, No, nt, type, delay, h)
#define A double alpha, double *Ro, dream_idx_type No
#define Q double dx, double dy, double dt, dream_idx_type nt, DelayType type, double *delay, double v, double cp, double *h, ErrorLevel level
extern "C" {
bool dv_running;
SIRError spec_line(Line *o, A, double a, Q)
{ return D0(o->dreamline_serial(x,y,z,a,dx,dy,dt,nt,d,v,cp,row,level)) D1(o->dreamline_serial(m,xc,xr,x,y,z,a,dx,dy,dt,nt,d,v,cp,row,level)); }
SIRError spec_rect(Rect *o, A, double a, double b, Q)
{ return D0(dreamrect_serial(x,y,z,a,b,dx,dy,dt,nt,d,v,cp,row,level,1.0)) D1(dreamrect_serial(m,xc,xr,x,y,z,a,b,dx,dy,dt,nt,d,v,cp,row,level,1.0)); }
SIRError spec_circ(Circ *o, A, double R, Q)
{ return D0(dreamcirc_serial(x,y,z,R,dx,dy,dt,nt,d,v,cp,row,level,1.0)) D1(dreamcirc_serial(m,xc,xr,x,y,z,R,dx,dy,dt,nt,d,v,cp,row,level,1.0)); }
SIRError spec_rect_f(Rect_f *o, A, double a, double b, FocusMet met, double f, Q)
{ return D0(o->dreamrect_f_serial(x,y,z,a,b,met,f,dx,dy,dt,nt,d,v,cp,row,level)) D1(o->dreamrect_f_serial(m,xc,xr,x,y,z,a,b,met,f,dx,dy,dt,nt,d,v,cp,row,level)); }
SIRError spec_circ_f(Circ_f *o, A, double R, FocusMet met, double f, Q)
{ return D0(o->dreamcirc_f_serial(x,y,z,R,met,f,dx,dy,dt,nt,d,v,cp,row,level)) D1(o->dreamcirc_f_serial(m,xc,xr,x,y,z,R,met,f,dx,dy,dt,nt,d,v,cp,row,level)); }
SIRError spec_sphere(Sphere *o, A, double R, double C, Q)
{ return D0(o->dreamsphere_serial(x,y,z,R,C,dx,dy,dt,nt,d,v,cp,row,level)) D1(o->dreamsphere_serial(m,xc,xr,x,y,z,R,C,dx,dy,dt,nt,d,v,cp,row,level)); }
SIRError spec_cylind(Cylind *o, A, double a, double b, double C, Q)
{ return D0(o->dreamcylind_serial(x,y,z,a,b,C,dx,dy,dt,nt,d,v,cp,row,level,1.0)) D1(o->dreamcylind_serial(m,xc,xr,x,y,z,a,b,C,dx,dy,dt,nt,d,v,cp,row,level,1.0)); }
}
