#include "spec.h"

// Frequency response of a medium with attenuation alpha [dB/(cm MHz)] over r [mm],
// delayed to sample 'it': spectrum S[k], k = 0..n/2, with conjugate symmetry.
extern "C" void spec_att(Attenuation *a, FFTCVec *xc, FFTVec *x, double r, dream_idx_type it, double *h, double ai, dream_idx_type element)
{
  dream_idx_type n = a->m_len;
  double dt = a->m_dt/1e6;                    // [s]
  double alpha = a->m_alpha/86860.0;          // [Np/(m Hz)]
  double R = r/1000.0;                        // [m]
  std::complex<double> *S = xc->get();
  S[0] = std::complex<double>(1.0, 0.0);
  for (dream_idx_type k = 1; k <= n/2; k++) {
    double w = 2*M_PI*double(k)/(double(n)*dt);             // angular frequency [rad/s]
    double amp = std::exp(-alpha*R*w/(2*M_PI));
    double phase = -w*R*alpha/(M_PI*M_PI)*std::log(M_PI/(0.95*dt*w)) - w*double(it)*dt;
    S[k] = std::complex<double>(amp*std::cos(phase), amp*std::sin(phase));
    S[n-k] = std::complex<double>(amp*std::cos(phase), -(amp*std::sin(phase)));
  }
  a->m_fft->ifft(*xc, *x);
  double *row = h + (element > 0 ? element : 0)*n;
  for (dream_idx_type i = 0; i < n; i++) row[i] += ai*x->get()[i];
}
