// Calls of bindings from the replayer: arguments are pointers and numbers only.
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
extern "C" {
void dv_require(bool ok) { if (!ok) abort(); }
void *dv_copy(const void *p, long n, long size, long from)
{
  double *d = new double[n]; float *f = new float[n];
  for (long i = 0; i < n; i++) f[i] = d[i] = from == 4 ? ((const float *) p)[i] : ((const double *) p)[i];
  if (size == 8) { delete[] f; return d; }
  delete[] d;
  return f;
}
void *dv_string(const char *s) { return new std::string(s); }
// whether the call raised
int dv_guard(void *f, void **p, double *d)
{
  typedef void *P;
  typedef void (*F)(P,P,P,P,P,P,P,P,P,P,P,P,P,P,P,P,P,P,P,P,double,double,double,double,double,double,double,double);
  try {
    ((F) f)(p[0],p[1],p[2],p[3],p[4],p[5],p[6],p[7],p[8],p[9],p[10],p[11],p[12],p[13],p[14],p[15],p[16],p[17],p[18],p[19],
            d[0],d[1],d[2],d[3],d[4],d[5],d[6],d[7]);
  } catch (const std::bad_alloc &) { return 2; }
  catch (...) { return 1; }
  return 0;
}
}
