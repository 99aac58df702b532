// Objects needed to call the real functions from the replayer.
#include <cstdlib>
#include "dream.h"
#include "attenuation.h"
extern "C" {
void *dv_alloc(long n) { return malloc(n > 0 ? n : 1); }
void dv_free(void *p) { free(p); }
void *dv_att(long nt, double dt, double alpha) { return new Attenuation(nt, dt, alpha); }
void *dv_fftobj(long n) { return new FFT(n); }
void *dv_fft(long nt) { return new FFTVec(nt); }
void *dv_fftc(long nt) { return new FFTCVec(nt); }
}
