// C15: Master-equation runs against the reference Lindblad flow; invariants watched after every step.
#include "lind.h"
#include "Master.h"
#include "ODE_GSL.h"
#include <sstream>
using namespace vf; using namespace qd; using lind::Lind;
using dense::operator*; using dense::operator+; using dense::operator-;
using quantumdata::StateVector; using quantumdata::DensityOperator;
namespace {
// the state as the trajectory itself saves it (the array comes first)
template <int R, typename M> Mat stateOf(M& m) { std::ostringstream os; { cppqedutils::oarchive oa(os); m.stateIO(oa); } std::istringstream is(os.str()); cppqedutils::iarchive ia(is); CArray<2 * R> a; ia & a; return mat<R>(a); }
struct Pars { parameters::Table t; quantumtrajectory::master::Pars p{t}; Pars(double rel, double abs) { p.epsRel = rel; p.epsAbs = abs; } };

// steps to `T`, watching
template <typename M> bool watch(M& m, const std::function<Mat()>& rho, double T, double eps, const std::string& where) {
  std::ostringstream log; long n = 0; bool ok = true;
  while (double dt = T - m.getTime()) {
    double t = m.getTime(); m.step(dt, log); Mat x = rho();
    ok &= check(m.getTime() != t && m.getTime() <= T * (1 + 1e-15), "step.within-limit", where + fmt(" t %g -> %g, limit %g", t, m.getTime(), T));
    ok &= close(m.getDtDid(), m.getTime() - t, 1e-14, "step.dtDid", where, 1e-9);
    ok &= close(dense::tr(x), cplx(1.), 1e-12, "step.unit-trace", where); ok &= check(lind::herm(x) <= 1e-13, "step.hermitian", where + fmt(" %g", lind::herm(x)));
    double lo = lind::lowest(x); ok &= check(lo >= -(1e-11 + 300 * eps), "step.positive", where + fmt(" lowest eigenvalue %g", lo));
    if (++n > 100000) { check(false, "step.no-progress", where); return false; } if (!ok) return false;
  }
  count("steps", n); return ok;
}
template <int R, template <typename> class Engine> void run(Rng& r) {
  Dims d = randDims(r, R, R == 1 ? 6 : 8, R == 1 ? 6 : 4); if (total(d) < 2) d[0] = 2;
  lind::Opt o; o.strength = r.logu(.1, 3); Lind l = lind::random(r, d, o); auto sys = lind::makeSystem<R>(l.spec, l.freq);
  double eps = r.logu(1e-10, 1e-6); Pars p(eps, eps); bool pure = r.b(); Vec v = dense::randVec(r, l.N); Mat rho0 = pure ? dense::dyad(v, v) : dense::randRho(r, l.N, size_t(r.i(1, long(l.N))));
  std::string where = l.what + fmt(" eps %.1e ", eps);
  using OE = Engine<quantumdata::DensityOperatorLow<R>>;
  auto rho = dop<R>(rho0, d); if (pure) { auto psi = sv<R>(v, d); rho = psi; }
  using V = tmptools::V_Empty;
  auto m = quantumtrajectory::master::make<OE, V>(sys, rho, p.p, quantumtrajectory::EntanglementMeasuresSwitch{}); 
  auto now = [&] { return stateOf<R>(m); }; double t = 0; Mat ref = rho0; long nT = r.i(1, 4);
  for (long k = 0; k < nT; ++k) {
    double T = t + r.u(.05, 1.) * std::min(1., 8 / lind::rateOf(l, t)); if (!watch(m, now, T, eps, where)) return;
    if (l.ham || l.J.empty()) ref = lind::master(l, ref, t, T);   // (without a Hamiltonian part the damping is not there to accompany the jumps)
    else break;
    t = T; double dev = dense::dist(now(), ref); check(dev <= 1e-9 + 3000 * eps, "flow", where + fmt("at t=%g deviation %g strength %g rate %g freq %g", T, dev, o.strength, lind::rateOf(l,t), l.freq));
    // printed quantities
    std::ostringstream os; auto [os2, av] = m.stream(os, 10); (void)os2;
    if (l.spec->av) { std::vector<double> e; for (auto& ob : l.spec->obs) e.push_back(dense::tr(now() * ob(T)).real()); for (size_t q = 1; q < e.size(); ++q) e[q] -= e[0] * e[0];
      check(size_t(av.size()) == e.size(), "stream.number", where); for (size_t q = 0; q < e.size() && q < size_t(av.size()); ++q) close(av(int(q)), e[q], 1e-10, "stream.averages", where, 1e-10); }
  }
  sig(where.substr(0, where.find(" eps")) + (pure ? "p" : "m")); sample(where); count("runs"); count("calls-superoperator", l.spec->calls[3]); count("calls-J", l.spec->calls[2]); count("calls-U", l.spec->calls[0]);
}
// quantities printed besides the averages: entanglement measures of a bipartition
double neg(const Mat& rho, const Dims& d, std::vector<size_t> ax) { size_t N = rho.r; Mat m(N); auto dig = [&](size_t n) { std::vector<size_t> v(d.size()); for (size_t k = d.size(); k-- > 0;) { v[k] = n % d[k]; n /= d[k]; } return v; }; auto num = [&](const std::vector<size_t>& v) { size_t n = 0; for (size_t k = 0; k < d.size(); ++k) n = n * d[k] + v[k]; return n; };
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { auto a = dig(i), b = dig(j); for (auto x : ax) std::swap(a[x], b[x]); m(num(a), num(b)) = rho(i, j); } double s = 0; for (auto e : dense::eigh(m)) if (e < 0) s -= e; return s; }
double ent(const Mat& m) { double s = 0; for (auto e : dense::eigh(m)) if (e > 1e-14) s -= e * std::log(e); return s; }
template <int... AX> void ems(Rng& r) {
  constexpr int R = 3; Dims d = randDims(r, R, 12, 3); lind::Opt o; o.pHam = 1; Lind l = lind::random(r, d, o); auto sys = lind::makeSystem<R>(l.spec, l.freq); Pars p(1e-7, 1e-7); Mat rho0 = dense::randRho(r, l.N, 2);
  auto rho = dop<R>(rho0, d); quantumtrajectory::EntanglementMeasuresSwitch s(size_t(r.i(0, 7))); using V = tmptools::Vector<AX...>; std::vector<size_t> ax{size_t(AX)...}, rest; for (size_t k = 0; k < 3; ++k) { bool in = false; for (auto a : ax) in |= a == k; if (!in) rest.push_back(k); }
  auto m = quantumtrajectory::master::make<cppqedutils::ODE_EngineBoost<quantumdata::DensityOperatorLow<R>>, V>(sys, rho, p.p, s); cppqedutils::advance(m, r.u(.05, .3)); Mat x = stateOf<R>(m);
  std::vector<double> e; if (l.spec->av) { for (auto& ob : l.spec->obs) e.push_back(dense::tr(x * ob(m.getTime())).real()); for (size_t q = 1; q < e.size(); ++q) e[q] -= e[0] * e[0]; }
  size_t nAv = e.size(); Mat a = dense::ptrace(x, d, ax), b = dense::ptrace(x, d, rest);
  if (s[0]) e.push_back(neg(x, d, ax)); if (s[1]) e.push_back(ent(a) + ent(b) - ent(x)); if (s[2]) e.push_back(dense::tr(a * a).real());
  std::ostringstream os; auto res = m.stream(os, 12); auto& av = std::get<1>(res); std::string where = str(d) + fmt(" switch %lu axes", s.to_ulong()); for (auto q : ax) where += fmt(" %zu", q);
  if (check(size_t(av.size()) == e.size(), "measures.number", where + fmt(" got %d expected %zu", int(av.size()), e.size()))) for (size_t q = 0; q < e.size(); ++q) close(av(int(q)), e[q], 1e-8, q < nAv ? "measures.averages" : "measures.value", where + fmt(" #%zu", q), 1e-8);
  // the printed columns after the averages are those values
  std::istringstream is(os.str().substr(l.spec->av ? os.str().find(')') + 1 : 0)); for (size_t q = nAv; q < e.size(); ++q) { double y; if (check(bool(is >> y), "measures.columns", where)) close(y, e[q], 1e-8, "measures.printed", where, 1e-8); }
  // the key numbers the columns consecutively, starting after time and time step
  std::ostringstream key; m.streamKey(key); std::istringstream ks(key.str()); std::string line; std::vector<long> nums; while (std::getline(ks, line)) { char* end; const char* c = line.c_str(); long n = strtol(c, &end, 10); if (end != c && *end == '.') nums.push_back(n); }
  if (check(nums.size() == e.size(), "key.entries", where + " " + key.str())) { bool seq = true; for (size_t q = 1; q < nums.size(); ++q) seq &= nums[q] == nums[q - 1] + 1; check(seq, "key.consecutive", where + "\n" + key.str()); }
  sig(where); count("measures");
}
} // namespace
SCENARIO(random_rank1_boost, 40) { run<1, cppqedutils::ODE_EngineBoost>(r); }
SCENARIO(random_rank2_boost, 25) { run<2, cppqedutils::ODE_EngineBoost>(r); }
SCENARIO(random_rank1_gsl, 25) { run<1, cppqedutils::ODE_EngineGSL>(r); }
SCENARIO(random_rank3_boost, 8) { run<3, cppqedutils::ODE_EngineBoost>(r); }
SCENARIO(entanglement_columns, 12) { ems<0>(r); ems<1>(r); ems<2, 0>(r); }
SCENARIO(refusals, 30) {
  Dims d = randDims(r, 2, 12, 4); lind::Opt o; o.pExact = 1; Lind l = lind::random(r, d, o); l.spec->master = r.b(); auto sys = lind::makeSystem<2>(l.spec, 1.); Pars p(1e-6, 1e-6); using OE = cppqedutils::ODE_EngineBoost<quantumdata::DensityOperatorLow<2>>;
  Dims e = d; bool wrong = r.b(); if (wrong) e[size_t(r.i(0, 1))] += r.b() ? 1 : 2; auto rho = dop<2>(dense::randRho(r, total(e)), e); std::string what; bool threw = false, na = false, dm = false;
  try { quantumtrajectory::master::make<OE, tmptools::V_Empty>(sys, rho, p.p, quantumtrajectory::EntanglementMeasuresSwitch{}); } catch (const quantumtrajectory::master::SystemNotApplicable&) { threw = na = true; } catch (const DimensionalityMismatchException&) { threw = dm = true; } catch (...) { threw = true; }
  check(threw == (wrong || !l.spec->master), "refused", fmt("wrong dimensions %d, applicable %d: refused %d", wrong, l.spec->master, threw)); if (threw) check(na || dm, "refused.kind", ""); if (wrong && l.spec->master) check(dm, "refused.dimensions", ""); if (!wrong && !l.spec->master) check(na, "refused.not-applicable", "");
  sig(fmt("%d%d", wrong, l.spec->master) + str(d));
}
