// Oracles shared by the element checks.
#pragma once
#include "probe.h"
#include "Tridiagonal.h"

namespace elem {
using namespace dense; using namespace vf; using probe::Probe;
template <typename T> struct tag { using type = T; };
struct Jump { Mat J, rate; };            // rate operator; empty: the element leaves the rate to be calculated from the jump
using Jumps = std::vector<Jump>;

// The documented generator is recovered at any reference time, independently of the division into exact and Hamiltonian parts; U is a one-parameter semigroup.
template <int R> void generator(Rng& r, const Probe<R>& p, const Mat& G, const std::string& key, const std::string& cfg, bool upToConstant = false) {
  if (double z = r.u(-5, 5); r.b()) check(dist(p.U(z, z), id(p.N)) <= 1e-13, key + ".zero-interval", cfg + " (before any propagation)");
  double scale = p.rateOfU(0.); for (size_t i = 0; i < G.r; ++i) scale = std::max(scale, std::abs(G(i, i)));
  double all = std::max(scale, maxabs(G)), mid = r.u(-5, 5);
  for (int k = 0; k < 3; ++k) {
    double dt = k == 0 && r.b() ? 0. : r.u(-1, 1) * std::min(2., 2. / scale), t0 = k == 2 ? 0. : mid, t = t0 + dt;
    Mat g = p.gen(t, t0, scale); double D = upToConstant ? distUpToId(g, G) : dist(g, G);
    if (!check(D <= 1e-7 * all, key, cfg + fmt(" t=%g t0=%g deviation %g of %g", t, t0, D, all))) return;
  }
  double a = r.u(0, 1) / scale, b = r.u(0, 1) / scale;
  Mat u = p.U(mid + a + b, mid), v = p.U(mid + a + b, mid + a) * p.U(mid + a, mid);
  check(dist(u, v) <= 1e-10 * (1 + maxabs(u)), key + ".semigroup", cfg);
  check(dist(p.U(mid, mid), id(p.N)) <= 1e-13, key + ".zero-interval", cfg);
  count("generators.observed", 4);
}

template <int R> void jumps(Rng& r, const Probe<R>& p, const Jumps& js, const std::string& key, const std::string& cfg) {
  double t = r.u(-3, 3);
  if (!check(p.nJ() == js.size(), key + ".number-of-jumps", cfg + fmt(" got %zu expected %zu", p.nJ(), js.size()))) return;
  Vec v = randVec(r, p.N, r.b()); Mat rho = randRho(r, p.N); rho = r.u(.5, 2) * rho;
  auto pure = qd::sv<R>(v, p.d); auto mixed = qd::dop<R>(rho, p.d);
  if (!js.size()) return;
  auto rv = p.rates(t, pure), rm = p.rates(t, mixed); Mat sumS(p.N), sumJ(p.N); bool all = true;
  for (size_t m = 0; m < js.size(); ++m) {
    double s = 1 + maxabs(js[m].J);
    check(dist(p.J(t, m), js[m].J) <= 1e-11 * s, key + ".jump", cfg + fmt(" channel %zu", m));
    check(dist(p.J(t, m, v), js[m].J * v) <= 1e-11 * s * (1 + nrm(v)), key + ".jump-on-superposition", cfg + fmt(" channel %zu", m));
    if (js[m].rate.r) {
      close(rv[m], probe::ex(dyad(v, v), js[m].rate).real(), 1e-11, key + ".rate.pure", cfg + fmt(" channel %zu", m), 1e-11);
      close(rm[m], probe::ex(rho, js[m].rate).real(), 1e-11, key + ".rate.mixed", cfg + fmt(" channel %zu", m), 1e-11);
    } else check(rv[m] < 0 && rm[m] < 0, key + ".rate.special", cfg + fmt(" channel %zu", m));
    Mat S; if (p.S(t, m, rho, S)) sumS = sumS + S; else all = false;
    sumJ = sumJ + js[m].J * rho * dag(js[m].J);
    count("jumps.observed");
  }
  // superoperators add up to the sum of J rho J+ (each channel's share and a multiple of rho are conventions)
  if (all) { Mat D = sumS - sumJ; double c = (tr(D) / tr(rho)).real(); D = D - c * rho; check(maxabs(D) <= 1e-10 * (1 + maxabs(sumJ)), key + ".superoperator", cfg + fmt(" deviation %g", maxabs(D))); count("superoperators.observed"); }
}

template <int R, typename F> void averages(Rng& r, const Probe<R>& p, const std::string& key, F expected) {
  for (int k = 0; k < 3; ++k) {
    Mat rho; std::vector<double> got;
    if (k < 2) { Vec v = randVec(r, p.N); if (k == 1) { size_t j = size_t(r.i(0, long(p.N) - 1)); v = Vec(p.N, 0.); v[j] = 1.; } rho = dyad(v, v); got = p.avg(r.u(-3, 3), qd::sv<R>(v, p.d)); }
    else { rho = randRho(r, p.N, size_t(r.i(1, long(p.N)))); got = p.avg(r.u(-3, 3), qd::dop<R>(rho, p.d)); }
    auto e = expected(rho);
    if (!check(got.size() == e.size() && p.nA() == e.size(), key + ".number", fmt("%zu columns, announced %zu, expected %zu", got.size(), p.nA(), e.size()))) return;
    for (size_t c = 0; c < e.size(); ++c) close(got[c], e[c], 1e-10, key, fmt("column %zu of %s state", c, k < 2 ? "pure" : "mixed"), 1e-10);
    count("averages.observed", long(e.size()));
  }
}

// a tridiagonal offered by an element: acts, at t in the element's own picture, as the documented operator
template <int R> void tridiag(const Probe<R>& p, quantumoperator::Tridiagonal<R> T, const Mat& op, double t, double t0, const std::string& key, const std::string& cfg) {
  T.propagate(t - t0);
  Mat m = p.columns([&](const Vec& v) { auto a = qd::arr<R>(v, p.d); CArray<R> o(a.shape()); o = 0.; T.apply(a, o); return qd::vec<R>(o); });
  Mat u = p.U(t, t0), e = inv(u) * op * u; double s = 1 + maxabs(e);
  check(dist(m, e) <= 1e-9 * s, key, cfg + fmt(" t=%g t0=%g deviation %g", t, t0, dist(m, e)));
}
} // elem
