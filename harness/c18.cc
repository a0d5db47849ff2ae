// C18: ensembles are the average of the independent single trajectories they are made of, and that average follows the master equation.
#include "lind.h"
#include "script_engine.h"
#include "MCWF_Trajectory.h"
#include "ODE_GSL.h"
#include <sstream>
using namespace vf; using namespace qd; using lind::Lind;
using dense::operator*; using dense::operator+; using dense::operator-;
using quantumdata::StateVector; using quantumdata::DensityOperator; using quantumtrajectory::EntanglementMeasuresSwitch;
namespace mcwf = quantumtrajectory::mcwf;
namespace {
struct Pars { parameters::Table t; mcwf::Pars<pcg64> p{t}; };
double after(const std::string& s, const std::string& w, bool* ok = nullptr) { size_t k = s.find(w); if (ok) *ok = k != std::string::npos; return k == std::string::npos ? NAN : atof(s.c_str() + k + w.size()); }
// what the closing log of an ensemble has to say about the histories of its members
void logOfEnsemble(const std::string& e, const std::vector<double>& jumps, size_t nTraj, double steps, size_t nBins, size_t perBin, const std::string& where) {
  bool ok; close(after(e, "Average number of total steps: ", &ok), steps, 1e-4 * (1 + steps), "log.steps", where); check(ok, "log.present", e);
  close(after(e, "Average number of total jumps: "), double(jumps.size()) / double(nTraj), 1e-4 * (1 + double(jumps.size())), "log.jumps", where);
  bool few = e.find("Too few jumps") != std::string::npos; if (!nBins) check(few == (jumps.size() < 2 * perBin), "log.histogram-when", where + fmt(" %zu jumps, %zu per bin", jumps.size(), perBin)); else check(!few, "log.histogram-asked", where);
  size_t pos = e.find("Number of bins="); if (few || jumps.empty()) return; if (!check(pos != std::string::npos, "log.histogram", e)) return;
  size_t nb = size_t(atol(e.c_str() + pos + 15)), want = nBins ? nBins : jumps.size() / perBin; check(nb == want + 2, "log.bins", where + fmt(" %zu, expected %zu inner", nb, want));
  std::istringstream is(e.substr(e.find('\n', pos) + 1)); std::vector<std::pair<double, double>> h; double a, b; std::string line; while (std::getline(is, line) && !line.empty()) { std::istringstream l(line); if (l >> a >> b) h.push_back({a, b}); }
  if (!check(h.size() == nb, "log.histogram-lines", where + fmt(" %zu of %zu", h.size(), nb))) return;
  double sum = 0; for (auto& x : h) sum += x.second; close(sum, 1., 1e-4 * double(nb), "log.histogram-normalised", where);
  // every bin holds its share (edges are printed with few digits: compare the cumulative distribution away from samples)
  for (size_t k = 2; k < h.size(); ++k) { double edge = h[k].first, c = 0, lo = 0, hi = 0; for (size_t q = 0; q < k; ++q) c += h[q].second; for (auto x : jumps) { lo += x < edge - 1e-4 * (1 + std::abs(edge)); hi += x < edge + 1e-4 * (1 + std::abs(edge)); } double n = double(jumps.size()); check(c >= lo / n - 1e-3 && c <= hi / n + 1e-3, "log.histogram-bin", where + fmt(" share below %g: %g, true %g..%g", edge, c, lo / n, hi / n)); }
  count("histograms");
}
template <int R, template <typename> class Engine, int... AX> void average(Rng& r) {
  Dims d = randDims(r, R, R == 1 ? 5 : 8, R == 1 ? 5 : 4); if (total(d) < 2) d[0] = 2; lind::Opt o; o.forMaster = false; o.strength = r.logu(.2, 5); Lind l = lind::random(r, d, o); auto sys = lind::makeSystem<R>(l.spec, l.freq); Vec v = dense::randVec(r, l.N);
  using OE = Engine<quantumdata::StateVectorLow<R>>; using V = std::conditional_t<sizeof...(AX) == 0, tmptools::V_Empty, tmptools::Vector<AX...>>;
  Pars P; auto& p = P.p; p.nTraj = size_t(r.i(1, 12)); p.seed = size_t(r.i(1, 100000)); p.prngStream = size_t(r.i(1, 100)); p.dpLimit = r.logu(1e-3, .05); p.noise = r.b(.9); p.logLevel = int(r.i(0, 3)); p.nBins = r.b(.6) ? 0 : size_t(r.i(1, 8)); p.nJumpsPerBin = size_t(r.i(1, 6)); size_t n = p.nTraj, stream0 = p.prngStream;
  std::string where = l.what + fmt(" %zu trajectories seed %zu stream %zu noise %d ", n, size_t(p.seed), stream0, bool(p.noise)); EntanglementMeasuresSwitch ems(size_t(r.i(0, 7)));
  auto psi = sv<R>(v, d); Vec vCopy = v; auto e = mcwf::makeEnsemble<OE, pcg64, V>(sys, psi, p, ems); check(p.prngStream == stream0 + n, "streams.consumed", where + fmt(" next stream %zu", size_t(p.prngStream)));
  // the members, each on its own
  p.prngStream = stream0; using Single = quantumtrajectory::MCWF_Trajectory<R, OE, pcg64>; std::vector<std::unique_ptr<Single>> s; for (size_t k = 0; k < n; ++k) { s.push_back(std::make_unique<Single>(sys, sv<R>(v, d), OE{quantumtrajectory::initialTimeStep(sys), 0, p.epsRel, p.epsAbs}, randomutils::EngineWithParameters<pcg64>{p.seed, stream0 + k}, p.dpLimit, p.overshootTolerance, 1, p.noise)); }
  auto mean = [&] { Mat m(l.N); for (auto& x : s) { Vec y = vec<R>(x->getStateVector()); m = m + dense::dyad(y, y); } return (1. / double(n)) * m; };
  std::ostringstream log, log2; check(dense::dist(mat<R>(e.averaged()), mean()) < 1e-13, "average.initial", where); double t = 0;
  for (int k = int(r.i(1, 5)); k--;) {
    double D = r.u(.02, .6); cppqedutils::advance(e, D, log); for (auto& x : s) cppqedutils::advance(*x, D, log2); t = s[0]->getTime();
    check(e.getTime() == t, "time", where + fmt(" %.17g %.17g", e.getTime(), t)); double dt = 0; for (auto& x : s) dt += x->getDtDid(); close(e.getDtDid(), dt / double(n), 1e-15, "dtDid.mean", where, 1e-12);
    int asked = int(r.i(1, 3)); Mat ref = mean(); for (int q = 0; q < asked; ++q) { double dev = dense::dist(mat<R>(e.averaged()), ref); if (!check(dev < 1e-12, "average.of-members", where + fmt(" t=%g deviation %g (asked %d times)", t, dev, q + 1))) return; }
    std::ostringstream os; auto res = e.stream(os, 8); auto& av = std::get<1>(res); std::vector<double> want; if (l.spec->av) { for (auto& ob : l.spec->obs) want.push_back(dense::tr(ref * ob(t)).real()); for (size_t q = 1; q < want.size(); ++q) want[q] -= want[0] * want[0]; }
    size_t nAv = want.size(), extra = sizeof...(AX) ? ems.count() : 0; if (check(size_t(av.size()) == nAv + extra, "stream.number", where)) { for (size_t q = 0; q < nAv; ++q) close(av(int(q)), want[q], 1e-10, "stream.averages", where, 1e-9); for (size_t q = nAv; q < nAv + extra; ++q) check(std::isfinite(av(int(q))), "stream.measures", where); }
    count("comparisons"); count("trajectories", long(n));
  }
  check(v == vCopy && vec<R>(psi) == v, "initial-state.untouched", where);
  // members differ from each other only through their random numbers
  std::vector<double> jumps; double steps = 0; std::set<std::vector<std::pair<double, size_t>>> hist; for (auto& x : s) { auto& tr = x->getLogger().getTrajectory(); for (auto& j : tr) jumps.push_back(j.first); hist.insert({tr.begin(), tr.end()}); std::ostringstream os; x->logOnEnd(os); steps += after(os.str(), "Total number of MCWF steps: "); }
  std::ostringstream end; e.logOnEnd(end); std::string es = end.str(); if (!jumps.empty() || !p.nBins) logOfEnsemble(es, jumps, n, steps / double(n), p.nBins, p.nJumpsPerBin, where); else check(std::isfinite(after(es, "Average number of total jumps: ")), "log.no-jumps", es);
  check(jumps.size() < 2 * n || n < 3 || hist.size() > 1, "members.independent", where + fmt(" %zu jumps, %zu different histories", jumps.size(), hist.size())); count("jumps", long(jumps.size())); count("different-histories", long(hist.size())); sig(l.what + fmt("%zu", n)); sample(where + fmt("%zu jumps", jumps.size()));
}
// many trajectories against the reference master equation
template <int R> void convergence(Rng& r, size_t n) {
  Dims d = randDims(r, R, R == 1 ? 4 : 6, 3); if (total(d) < 2) d[0] = 2; lind::Opt o; o.forMaster = false; o.pHam = 1; o.pLiou = 1; o.pTime = .2; o.pExact = .25; o.strength = r.logu(.3, 2); Lind l = lind::random(r, d, o); l.freq = 2.; auto sys = lind::makeSystem<R>(l.spec, l.freq); Vec v = dense::randVec(r, l.N);
  using OE = cppqedutils::ODE_EngineBoost<quantumdata::StateVectorLow<R>>; Pars P; auto& p = P.p; p.nTraj = n; p.seed = size_t(r.i(1, 1000000)); p.dpLimit = .01; p.overshootTolerance = 2; p.epsRel = p.epsAbs = 1e-5; auto e = mcwf::makeEnsemble<OE, pcg64, tmptools::V_Empty>(sys, sv<R>(v, d), p, EntanglementMeasuresSwitch{});
  Mat ref = dense::dyad(v, v); double t = 0; std::ostringstream log; for (int k = 0; k < 3; ++k) { double D = r.u(.2, .7), T = t + D; cppqedutils::advance(e, D, log); ref = lind::master(l, ref, t, T); t = T; Mat got = mat<R>(e.averaged());
    close(dense::tr(got), cplx(1.), 1e-9, "convergence.trace", l.what); check(lind::lowest(got) > -1e-10, "convergence.positive", l.what);
    double worst = 0; for (int q = 0; q < 8; ++q) { Mat A = dense::randHerm(r, l.N); double m = dense::tr(A * got).real(), m0 = dense::tr(A * ref).real(), v2 = dense::tr(A * A * ref).real() - m0 * m0, lim = 4.5 * std::sqrt(std::max(v2, 0.) / double(n)) + .01 * dense::fro(A); worst = std::max(worst, std::abs(m - m0) / lim); check(std::abs(m - m0) <= lim, "convergence.to-master", l.what + fmt(" t=%g: %g instead of %g, allowed %g, %zu trajectories", t, m, m0, lim, n)); }
    count("statistical-comparisons", 8); sample(l.what + fmt(" worst deviation %.2g of allowed", worst)); }
  sig(l.what + "c");
}
} // namespace
SCENARIO(average_rank1, 60) { average<1, cppqedutils::ODE_EngineBoost>(r); }
SCENARIO(average_rank2, 25) { average<2, cppqedutils::ODE_EngineBoost, 0>(r); }
SCENARIO(average_rank3, 10) { average<3, cppqedutils::ODE_EngineBoost, 2, 0>(r); }
SCENARIO(average_gsl, 15) { average<1, cppqedutils::ODE_EngineGSL>(r); }
SCENARIO(convergence_rank1, 5) { convergence<1>(r, 400); }
SCENARIO(convergence_rank2, 2) { convergence<2>(r, 300); }
