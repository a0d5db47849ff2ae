// Independent reference linear algebra: dense complex matrices, no code shared with the library under test.
#pragma once
#include "vf.h"

namespace dense {
using vf::cplx;
using Vec = std::vector<cplx>;

struct Mat {
  size_t r = 0, c = 0; std::vector<cplx> a;
  Mat() {}
  Mat(size_t r_, size_t c_) : r(r_), c(c_), a(r_ * c_, 0.) {}
  explicit Mat(size_t n) : Mat(n, n) {}
  cplx& operator()(size_t i, size_t j) { return a[i * c + j]; }
  cplx operator()(size_t i, size_t j) const { return a[i * c + j]; }
};
inline Mat id(size_t n) { Mat m(n); for (size_t i = 0; i < n; ++i) m(i, i) = 1.; return m; }
inline Mat operator*(const Mat& x, const Mat& y) { Mat m(x.r, y.c); for (size_t i = 0; i < x.r; ++i) for (size_t k = 0; k < x.c; ++k) { cplx v = x(i, k); if (v != 0.) for (size_t j = 0; j < y.c; ++j) m(i, j) += v * y(k, j); } return m; }
inline Mat operator+(Mat x, const Mat& y) { for (size_t i = 0; i < x.a.size(); ++i) x.a[i] += y.a[i]; return x; }
inline Mat operator-(Mat x, const Mat& y) { for (size_t i = 0; i < x.a.size(); ++i) x.a[i] -= y.a[i]; return x; }
inline Mat operator*(cplx s, Mat x) { for (auto& v : x.a) v *= s; return x; }
inline Mat operator*(double s, Mat x) { for (auto& v : x.a) v *= s; return x; }
inline Vec operator*(const Mat& x, const Vec& v) { Vec o(x.r, 0.); for (size_t i = 0; i < x.r; ++i) for (size_t k = 0; k < x.c; ++k) o[i] += x(i, k) * v[k]; return o; }
inline Vec add(Vec a, const Vec& b) { for (size_t i = 0; i < a.size(); ++i) a[i] += b[i]; return a; }
inline Vec sub(Vec a, const Vec& b) { for (size_t i = 0; i < a.size(); ++i) a[i] -= b[i]; return a; }
inline Vec scal(cplx s, Vec a) { for (auto& v : a) v *= s; return a; }
inline Mat dag(const Mat& x) { Mat m(x.c, x.r); for (size_t i = 0; i < x.r; ++i) for (size_t j = 0; j < x.c; ++j) m(j, i) = std::conj(x(i, j)); return m; }
inline Mat kron(const Mat& x, const Mat& y) { Mat m(x.r * y.r, x.c * y.c); for (size_t i = 0; i < x.r; ++i) for (size_t j = 0; j < x.c; ++j) for (size_t k = 0; k < y.r; ++k) for (size_t l = 0; l < y.c; ++l) m(i * y.r + k, j * y.c + l) = x(i, j) * y(k, l); return m; }
inline cplx tr(const Mat& x) { cplx t = 0.; for (size_t i = 0; i < x.r; ++i) t += x(i, i); return t; }
inline double fro(const Mat& x) { double s = 0; for (auto& v : x.a) s += std::norm(v); return std::sqrt(s); }
inline double nrm2(const Vec& v) { double s = 0; for (auto& x : v) s += std::norm(x); return s; }
inline double nrm(const Vec& v) { return std::sqrt(nrm2(v)); }
inline cplx dot(const Vec& a, const Vec& b) { cplx s = 0.; for (size_t i = 0; i < a.size(); ++i) s += std::conj(a[i]) * b[i]; return s; }
inline double dist(const Mat& x, const Mat& y) { double s = 0; for (size_t i = 0; i < x.a.size(); ++i) s = std::max(s, std::abs(x.a[i] - y.a[i])); return x.a.size() == y.a.size() ? s : 1e300; }
inline double dist(const Vec& x, const Vec& y) { double s = 0; if (x.size() != y.size()) return 1e300; for (size_t i = 0; i < x.size(); ++i) { double d = std::abs(x[i] - y[i]); if (!(d <= s)) s = d; } return s; }
inline Mat dyad(const Vec& a, const Vec& b) { Mat m(a.size(), b.size()); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) m(i, j) = a[i] * std::conj(b[j]); return m; }
inline Mat diag(const Vec& d) { Mat m(d.size()); for (size_t i = 0; i < d.size(); ++i) m(i, i) = d[i]; return m; }
inline Mat conj(Mat x) { for (auto& v : x.a) v = std::conj(v); return x; }
inline Mat inv(Mat m) {
  size_t n = m.r; Mat e = id(n);
  for (size_t c = 0; c < n; ++c) {
    size_t p = c; for (size_t i = c; i < n; ++i) if (std::abs(m(i, c)) > std::abs(m(p, c))) p = i;
    for (size_t j = 0; j < n; ++j) { std::swap(m(c, j), m(p, j)); std::swap(e(c, j), e(p, j)); }
    cplx q = 1. / m(c, c); for (size_t j = 0; j < n; ++j) { m(c, j) *= q; e(c, j) *= q; }
    for (size_t i = 0; i < n; ++i) if (i != c) { cplx f = m(i, c); if (f != 0.) for (size_t j = 0; j < n; ++j) { m(i, j) -= f * m(c, j); e(i, j) -= f * e(c, j); } }
  }
  return e;
}
inline double maxabs(const Mat& x) { double s = 0; for (auto& v : x.a) s = std::max(s, std::abs(v)); return s; }
// distance up to a multiple of the identity
inline double distUpToId(const Mat& x, const Mat& y) { Mat d = x - y; cplx s = d(0, 0); for (size_t i = 0; i < d.r; ++i) d(i, i) -= s; return maxabs(d); }
inline Mat expm(const Mat& x) {
  double n = 0; for (size_t i = 0; i < x.r; ++i) { double s = 0; for (size_t j = 0; j < x.c; ++j) s += std::abs(x(i, j)); n = std::max(n, s); }
  if (!(n < 1e15)) { Mat bad = x; for (auto& q : bad.a) q = cplx(NAN, NAN); return bad; }
  int sq = 0; while (n > .25) { n /= 2; ++sq; }
  Mat y = std::pow(.5, sq) * x, t = id(x.r), e = t;
  for (int k = 1; k < 18; ++k) { t = (1. / k) * (t * y); e = e + t; }
  for (int k = 0; k < sq; ++k) e = e * e;
  return e;
}
// eigenvalues of a Hermitian matrix by cyclic Jacobi
inline std::vector<double> eigh(Mat m) {
  size_t n = m.r;
  for (int sweep = 0; sweep < 100; ++sweep) {
    double off = 0, tot = 0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { tot += std::norm(m(i, j)); if (i != j) off += std::norm(m(i, j)); }
    if (off <= 1e-30 * tot) break;
    for (size_t p = 0; p < n; ++p) for (size_t q = p + 1; q < n; ++q) {
      cplx z = m(p, q); double az = std::abs(z); if (az < 1e-300) continue;
      cplx ph = z / az; double th = .5 * std::atan2(2 * az, m(p, p).real() - m(q, q).real()); double c = std::cos(th), s = std::sin(th);
      // columns: v_p = c e_p + s conj(ph) e_q ; v_q = -s ph e_p + c e_q
      for (size_t k = 0; k < n; ++k) { cplx a = m(k, p), b = m(k, q); m(k, p) = c * a + s * std::conj(ph) * b; m(k, q) = -s * ph * a + c * b; }
      for (size_t k = 0; k < n; ++k) { cplx a = m(p, k), b = m(q, k); m(p, k) = c * a + s * ph * b; m(q, k) = -s * std::conj(ph) * a + c * b; }
    }
  }
  std::vector<double> e; for (size_t i = 0; i < n; ++i) e.push_back(m(i, i).real());
  return e;
}
// embed operator `op` acting on the axes `ax` (in that order) of a space with dimensions `dims`
inline Mat embed(const Mat& op, const std::vector<size_t>& dims, const std::vector<size_t>& ax) {
  size_t N = 1; for (auto d : dims) N *= d;
  std::vector<size_t> stride(dims.size()); { size_t s = 1; for (size_t k = dims.size(); k-- > 0;) { stride[k] = s; s *= dims[k]; } }
  size_t M = 1; for (auto a : ax) M *= dims[a];
  std::vector<size_t> off(M); for (size_t m = 0; m < M; ++m) { size_t x = m, o = 0; for (size_t k = ax.size(); k-- > 0;) { o += (x % dims[ax[k]]) * stride[ax[k]]; x /= dims[ax[k]]; } off[m] = o; }
  Mat R(N);
  for (size_t n = 0; n < N; ++n) {
    // base: index n with kept axes set to zero; column index n
    size_t base = n, m = 0; for (auto a : ax) { size_t v = (n / stride[a]) % dims[a]; base -= v * stride[a]; m = m * dims[a] + v; }
    for (size_t k = 0; k < M; ++k) R(base + off[k], n) += op(k, m);
  }
  return R;
}
// partial trace keeping axes `ax` in that order
inline Mat ptrace(const Mat& rho, const std::vector<size_t>& dims, const std::vector<size_t>& ax) {
  size_t N = rho.r; std::vector<size_t> stride(dims.size()); { size_t s = 1; for (size_t k = dims.size(); k-- > 0;) { stride[k] = s; s *= dims[k]; } }
  size_t M = 1; for (auto a : ax) M *= dims[a];
  Mat R(M);
  auto split = [&](size_t n, size_t& kept, size_t& rest) { kept = 0; rest = n; for (auto a : ax) { size_t v = (n / stride[a]) % dims[a]; kept = kept * dims[a] + v; rest -= v * stride[a]; } };
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { size_t ki, ri, kj, rj; split(i, ki, ri); split(j, kj, rj); if (ri == rj) R(ki, kj) += rho(i, j); }
  return R;
}
// every so often with vanishing, purely real and purely imaginary components (which generic numbers never have)
inline cplx randAmp(vf::Rng& r, bool special) { cplx x(r.n(), r.n()); if (!special) return x; switch (r.i(0, 4)) { case 0: return 0.; case 1: return x.real(); case 2: return cplx(0, x.imag()); default: return x; } }
inline Vec randVec(vf::Rng& r, size_t n, bool normalize = true) { bool special = r.b(.25); Vec v(n); do { for (auto& x : v) x = randAmp(r, special); } while (nrm(v) < .1); return normalize ? scal(1. / nrm(v), v) : v; }
inline Mat randMat(vf::Rng& r, size_t n) { bool special = r.b(.25); Mat m(n); for (auto& x : m.a) x = randAmp(r, special); return m; }
inline Mat randHerm(vf::Rng& r, size_t n) { Mat m = randMat(r, n); return .5 * (m + dag(m)); }
inline Mat randRho(vf::Rng& r, size_t n, size_t rank = 0) { if (!rank) rank = n; Mat m(n); for (size_t k = 0; k < rank; ++k) { Vec v = randVec(r, n); m = m + r.u(.1, 1) * dyad(v, v); } return (1. / tr(m).real()) * m; }
inline Mat randU(vf::Rng& r, size_t n) { Mat h = randHerm(r, n); return expm(cplx(0, 1) * h); }
// ladder operators
inline Mat lower(size_t n) { Mat m(n); for (size_t k = 1; k < n; ++k) m(k - 1, k) = std::sqrt(double(k)); return m; }
inline Mat number(size_t n) { Mat m(n); for (size_t k = 0; k < n; ++k) m(k, k) = double(k); return m; }
// Lindblad generator on row-major vec(rho): L = A (x) 1 + 1 (x) conj(A) + sum J (x) conj(J), with A = -iH - 1/2 sum J^+J  (=H_nH/i)
inline Mat lindblad(const Mat& A, const std::vector<Mat>& J) {
  size_t n = A.r; Mat Ac = A; for (auto& x : Ac.a) x = std::conj(x);
  Mat L = kron(A, id(n)) + kron(id(n), Ac);
  for (auto& j : J) { Mat jc = j; for (auto& x : jc.a) x = std::conj(x); L = L + kron(j, jc); }
  return L;
}
} // dense
