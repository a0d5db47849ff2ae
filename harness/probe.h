// Probes: reads off the dense matrices a quantum system stands for by acting with its public interface on basis states.
#pragma once
#include "qd.h"
#include "Structure.h"

namespace probe {
using vf::cplx; using dense::Mat; using dense::Vec; using qd::Dims;

template <int R> struct Probe {
  structure::QuantumSystemWrapper<R> q; Dims d; size_t N;
  explicit Probe(structure::QuantumSystemPtr<R> p) : q(p, true), d(qd::dimsOf<R>(*p)), N(qd::total(d)) {}
  template <typename F> Mat columns(F f) const { Mat m(N); for (size_t j = 0; j < N; ++j) { Vec e(N, 0.); e[j] = 1.; Vec o = f(e); for (size_t i = 0; i < N; ++i) m(i, j) = o[i]; } return m; }
  Vec U(double t, double t0, const Vec& v) const { auto a = qd::arr<R>(v, d); q.actWithU(t, a, t0); return qd::vec<R>(a); }
  Vec H(double t, double t0, const Vec& v) const { auto a = qd::arr<R>(v, d); CArray<R> o(a.shape()); o = 0.; q.addContribution(t, a, o, t0); return qd::vec<R>(o); }
  Vec J(double t, size_t m, const Vec& v) const { auto a = qd::arr<R>(v, d); q.actWithJ(t, a, m); return qd::vec<R>(a); }
  Mat U(double t, double t0) const { return columns([&](const Vec& v) { return U(t, t0, v); }); }
  Mat H(double t, double t0) const { return columns([&](const Vec& v) { return H(t, t0, v); }); }
  Mat J(double t, size_t m) const { return columns([&](const Vec& v) { return J(t, m, v); }); }
  size_t nJ() const { return q.template nAvr<structure::LA_Li>(); }
  size_t nA() const { return q.template nAvr<structure::LA_Av>(); }
  // superoperator applied to rho; false if not implemented
  bool S(double t, size_t m, const Mat& rho, Mat& out) const {
    auto a = qd::arrM<R>(rho, d); CArray<2 * R> o(a.shape()); o = 0.;
    try { q.actWithSuperoperator(t, a, o, m); } catch (const structure::SuperoperatorNotImplementedException&) { return false; }
    out = qd::mat<R>(o); return true;
  }
  static std::vector<double> list(const structure::Averages& a) { std::vector<double> v; for (int k = 0; k < int(a.size()); ++k) v.push_back(a(k)); return v; }
  std::vector<double> rates(double t, const quantumdata::LazyDensityOperator<R>& m) const { return list(q.template average<structure::LA_Li>(t, m)); }
  std::vector<double> raw(double t, const quantumdata::LazyDensityOperator<R>& m) const { return list(q.template average<structure::LA_Av>(t, m)); }
  std::vector<double> avg(double t, const quantumdata::LazyDensityOperator<R>& m) const { auto a = q.template average<structure::LA_Av>(t, m); structure::Averages b(a.copy()); q.process(b); return list(b); }
  // fastest rate occurring in U, read off U itself
  double rateOfU(double t0) const { double h = 1.; for (int k = 0; k < 80 && !(dense::dist(U(t0 + h, t0), dense::id(N)) < .2); ++k) h /= 2; return .2 / h; }
  // picture-independent generator (d/dt of the Schroedinger-picture state) at time t, for a reference time t0; `scale` bounds the frequencies of U
  Mat gen(double t, double t0, double scale) const {
    double h = .01 / std::max(scale, 1e-3);
    Mat u = U(t, t0);
    Mat du = (1. / (12 * h)) * (U(t - 2 * h, t0) - U(t + 2 * h, t0) + 8. * (U(t + h, t0) - U(t - h, t0)));
    Mat ui = dense::inv(u);
    return du * ui + u * H(t, t0) * ui;
  }
};

// expectation value with a dense density matrix
inline cplx ex(const Mat& rho, const Mat& op) { return dense::tr(rho * op); }
} // probe
