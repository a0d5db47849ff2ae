// Mode functions as Fourier series in the momentum basis (reference implementation).
#pragma once
#include "dense.h"
#include "ModeFunction.h"
#include <map>
namespace four {
using vf::cplx; using dense::Mat; static const cplx I(0, 1);
inline Mat shift(size_t N, long k) { Mat m(N); for (long n = 0; n < long(N); ++n) if (n + k >= 0 && n + k < long(N)) m(size_t(n + k), size_t(n)) = 1.; return m; } // exp(i k x)
using Four = std::map<long, cplx>;
inline Four series(ModeFunctionType f, long K) { Four s; switch (f) { case MFT_SIN: s[K] += 1. / (2. * I); s[-K] -= 1. / (2. * I); break; case MFT_COS: s[K] += .5; s[-K] += .5; break; case MFT_PLUS: s[K] += 1.; break; case MFT_MINUS: s[-K] += 1.; } return s; }
inline Four prod(const Four& a, const Four& b) { Four o; for (auto& x : a) for (auto& y : b) o[y.first - x.first] += std::conj(x.second) * y.second; return o; } // conj(a) b
inline Mat mat(const Four& s, size_t N) { Mat m(N); for (auto& x : s) m = m + x.second * shift(N, x.first); return m; }
inline Mat k2x(size_t N) { Mat F(N); for (size_t j = 0; j < N; ++j) for (size_t n = 0; n < N; ++n) F(j, n) = std::exp(I * (-M_PI + 2 * M_PI * j / N) * (double(n) - double(N) / 2)) / std::sqrt(double(N)); return F; }
} // four
