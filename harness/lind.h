// Random physical (Lindblad) systems given by dense matrices, presented to the library in any picture; and reference solutions of their equations of motion.
#pragma once
#include "matsys.h"
#include "QuantumSystem.h"

namespace lind {
using vf::cplx; using vf::fmt; using dense::Mat; using dense::Vec; using qd::Dims; using matsys::Spec;
using dense::operator*; using dense::operator+; using dense::operator-;
static const cplx I(0, 1);

// A(t)=-iH(t)-1/2 sum J^+J(t): the Schroedinger-picture generator; E: its exactly solved part
struct Lind { Dims d; size_t N; std::function<Mat(double)> A; std::vector<std::function<Mat(double)>> J; std::vector<bool> special; Mat E; bool exact = false, ham = true; std::shared_ptr<Spec> spec; double freq = 1.; std::string what;
  std::vector<Mat> Js(double t) const { std::vector<Mat> o; for (auto& j : J) o.push_back(j(t)); return o; } };

template <int R, int B> struct SysOf : structure::QuantumSystem<R>, matsys::Bits<R, B> {
  std::shared_ptr<const Spec> s; double f;
  SysOf(std::shared_ptr<const Spec> s_, double f_) : structure::QuantumSystem<R>(qd::tiny<R>(s_->d)), matsys::Bits<R, B>(s_), s(s_), f(f_) {}
  double highestFrequency_v() const override { return f; }
  std::ostream& streamParameters_v(std::ostream& os) const override { return os << "System of known matrices\n"; } };
template <int R> structure::QuantumSystemPtr<R> makeSystem(std::shared_ptr<const Spec> s, double f) { structure::QuantumSystemPtr<R> p; [&]<int... B>(std::integer_sequence<int, B...>) { ((B == matsys::bits(*s) ? (void)(p = std::make_shared<const SysOf<R, B>>(s, f)) : void()), ...); }(std::make_integer_sequence<int, 16>{}); return p; }

struct Opt { bool forMaster = true; double pExact = .5, pHam = .85, pLiou = .85, pTime = .4, pSpecial = .2, pSuper = .5, strength = 1.; };
inline Lind random(vf::Rng& r, Dims d, const Opt& o) {
  Lind l; l.d = d; l.N = qd::total(d); size_t N = l.N; l.exact = r.b(o.pExact); l.ham = r.b(o.pHam); bool liou = r.b(o.pLiou);
  Mat H0 = dense::randHerm(r, N), H1 = dense::randHerm(r, N); bool td = r.b(o.pTime); double nu = r.u(.3, 3), s1 = td ? .7 : 0.;
  Vec om(N); for (auto& x : om) x = r.u(-4, 4);
  // jumps; if an exact part is to be compatible with a master equation, they must only acquire phases under it
  size_t nJ = liou ? size_t(r.i(1, 3)) : 0;
  for (size_t k = 0; k < nJ; ++k) {
    Mat j(N);
    if (l.exact && o.forMaster) { if (r.b(.6)) { size_t a = size_t(r.i(0, long(N) - 1)), b = size_t(r.i(0, long(N) - 1)); j(a, b) = r.c(1.3); } else for (size_t n = 0; n < N; ++n) j(n, n) = r.c(.8); }
    else { j = (.8 / std::sqrt(double(N))) * dense::randMat(r, N); if (r.b(.4)) for (auto& x : j.a) if (r.b(.6)) x = 0.; }
    j = std::sqrt(o.strength) * j;
    bool jt = r.b(o.pTime * .6); double nj = r.u(.3, 2); l.J.push_back([=](double t) { return jt ? (1. + .5 * std::sin(nj * t)) * j : j; }); l.special.push_back(r.b(o.pSpecial));
  }
  auto J = l.J; auto damp = [J, N](double t) { Mat m(N); for (auto& j : J) { Mat x = j(t); m = m + dense::dag(x) * x; } return m; };
  l.E = Mat(N);
  if (l.exact) {
    if (o.forMaster) for (size_t n = 0; n < N; ++n) l.E(n, n) = -I * om[n];
    else { l.E = r.b() ? -I * dense::randHerm(r, N) : dense::diag(om); for (size_t n = 0; n < N; ++n) l.E(n, n) += cplx(-r.u(0, .5), r.u(-2, 2)); if (r.b(.3)) l.E = l.E - .5 * damp(0.); }
  }
  Mat E = l.E; bool ham = l.ham;
  if (l.ham) { double sc = r.u(.3, 1.5); l.A = [=](double t) { return -I * (sc * (H0 + (s1 * std::cos(nu * t)) * H1)) - .5 * damp(t); }; }
  else l.A = [=](double) { return E; };   // no Hamiltonian part: only what is solved exactly
  auto sp = std::make_shared<Spec>(); sp->d = d; sp->N = N; sp->ex = l.exact; sp->ha = l.ham; sp->li = liou; sp->av = r.b(.8); sp->master = true; sp->name = "L";
  auto A = l.A; sp->U = [E](double t, double t0) { return dense::expm((t - t0) * E); };
  if (l.exact) sp->H = [A, E](double t, double t0) { return dense::expm((t0 - t) * E) * (A(t) - E) * dense::expm((t - t0) * E); };
  else sp->H = [A](double t, double) { return A(t); };
  for (size_t k = 0; k < nJ; ++k) { auto j = l.J[k]; Spec::Ch c; c.J = j; c.super = r.b(o.pSuper); if (!l.special[k]) c.rate = [j](double t) { Mat x = j(t); return dense::dag(x) * x; }; sp->ch.push_back(c); }
  if (sp->av) { size_t n = size_t(r.i(1, 4)); for (size_t k = 0; k < n; ++k) { Mat a = dense::randHerm(r, N), b = dense::randHerm(r, N); sp->obs.push_back([=](double t) { return a + t * b; }); } }
  l.spec = sp; l.freq = r.logu(.5, 20); l.what = fmt("%s ex%d ha%d li%d(%zu) td%d", qd::str(d).c_str(), l.exact, l.ham, liou, nJ, td);
  return l;
}
// d rho/dt
inline Mat rhs(const Lind& l, double t, const Mat& rho) { Mat x = l.A(t) * rho; Mat o = x + dense::dag(x); for (auto& j : l.J) { Mat J = j(t); o = o + J * rho * dense::dag(J); } return o; }
// classical fourth-order Runge-Kutta on a fine grid: independent of the library's integrators
template <typename Y, typename F> Y rk4(F f, Y y, double t0, double t1, double dtMax, double rate) {
  long n = std::max(1L, long(std::ceil(std::abs(t1 - t0) * std::max(rate, 1e-6) / dtMax))); double h = (t1 - t0) / double(n);
  for (long k = 0; k < n; ++k) { double t = t0 + h * double(k); Y k1 = f(t, y), k2 = f(t + h / 2, y + (h / 2) * k1), k3 = f(t + h / 2, y + (h / 2) * k2), k4 = f(t + h, y + h * k3); y = y + (h / 6) * (k1 + 2. * k2 + 2. * k3 + k4); }
  return y;
}
inline double rateOf(const Lind& l, double t) { Mat a = l.A(t); double n = dense::fro(a); for (auto& j : l.J) { double x = dense::fro(j(t)); n += x * x; } return n + dense::fro(l.E) + 3.; }
inline Mat master(const Lind& l, const Mat& rho, double t0, double t1) { return rk4([&](double t, const Mat& x) { return rhs(l, t, x); }, rho, t0, t1, .01, rateOf(l, t0)); }
// unnormalised evolution between jumps
inline Mat noJump(const Lind& l, const Mat& psi, double t0, double t1) { return rk4([&](double t, const Mat& x) { return l.A(t) * x; }, psi, t0, t1, .01, rateOf(l, t0)); }
inline Vec noJump(const Lind& l, const Vec& psi, double t0, double t1) { Mat m(psi.size(), 1); m.a = psi; return noJump(l, m, t0, t1).a; }
inline double herm(const Mat& m) { return dense::dist(m, dense::dag(m)); }
inline double lowest(const Mat& m) { auto e = dense::eigh(.5 * (m + dense::dag(m))); double x = e[0]; for (auto y : e) x = std::min(x, y); return x; }
} // lind
