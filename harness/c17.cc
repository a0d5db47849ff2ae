// C17: every step of Monte-Carlo wave-function trajectories replayed by an independent reference that knows each random number drawn.
#include "lind.h"
#include "script_engine.h"
#include "MCWF_Trajectory.h"
#include "ODE_GSL.h"
#include <sstream>
using namespace vf; using namespace qd; using lind::Lind;
using dense::operator*; using dense::operator+; using dense::operator-;
using quantumdata::StateVector;
namespace {
struct Pars { parameters::Table t; quantumtrajectory::mcwf::Pars<pcg64> p{t}; };
double fidelityDefect(const Vec& a, const Vec& b) { double s = 0; for (size_t k = 0; k < a.size(); ++k) s = std::max(s, std::abs(a[k] - b[k])); return s; }
long countOf(const std::string& s, const std::string& w) { long n = 0; for (size_t k = 0; (k = s.find(w, k)) != std::string::npos; ++k) ++n; return n; }

template <int R, template <typename> class Engine> void run(Rng& r, bool stress, bool noise = true) {
  Dims d = randDims(r, R, R == 1 ? 6 : 8, R == 1 ? 6 : 4); if (total(d) < 2) d[0] = 2;
  lind::Opt o; o.forMaster = false; o.strength = r.logu(.1, 4); o.pHam = .75; Lind l = lind::random(r, d, o); bool li = l.spec->li && noise;
  l.freq = stress ? r.logu(.02, .3) : r.logu(.5, 20); auto sys = lind::makeSystem<R>(l.spec, l.freq);
  double eps = r.logu(1e-10, 1e-7), dp = stress ? r.logu(1e-4, 1e-2) : r.logu(1e-3, .1), tol = stress ? r.u(1., 3.) : r.u(1., 15.); Vec v = dense::randVec(r, l.N);
  std::string where = l.what + fmt(" dp %.2g tol %.3g dt0 %.2g ", dp, tol, .1 / l.freq);
  using OE = Engine<quantumdata::StateVectorLow<R>>; tape() = Tape(); tape().fallback = Rng(r.next());
  quantumtrajectory::MCWF_Trajectory<R, OE, ScriptEngine> m(sys, sv<R>(v, d), OE{.1 / l.freq, 3, eps, eps}, {1ul, 1ul}, dp, tol, 3, noise);
  check(tape().used.empty(), "construction.no-random-number", where);
  auto ratesOf = [&](double t, const Vec& x) { std::vector<double> o; for (auto& j : l.J) o.push_back(dense::nrm2(j(t) * x)); return o; };
  auto sum = [](const std::vector<double>& a) { double s = 0; for (auto x : a) s += x; return s; };
  if (li) { double s0 = sum(ratesOf(0, v)); check(s0 < 1e-12 || m.getDtTry() * s0 <= dp * (1 + 1e-9), "construction.dpLimit", where + fmt(" dtTry*rate = %g", m.getDtTry() * s0)); }
  long nSteps = r.i(5, 30), backs = 0, jumps = 0; Vec psi = v; double T = r.u(.5, 3);
  for (long k = 0; k < nSteps && m.getTime() < T * (1 - 1e-12); ++k) {
    double t = m.getTime(), Dt = r.b(.2) ? (T - t) * r.u(.001, .3) : T - t; size_t nJ = m.getLogger().getTrajectory().size(), nu = tape().used.size();
    // dictate the random number now and then: around the point deciding about a jump
    if (li && r.b(.4)) tape().next.push_back(r.b() ? r.u(0, 1e-3) : r.logu(1e-6, .5));
    double dtTryBefore = m.getDtTry(); std::ostringstream log; m.step(Dt, log); double t1 = m.getTime(), dt = t1 - t; backs += countOf(log.str(), "stepping back");
    if (!check(dt > 0 && t1 <= t + Dt * (1 + 1e-12), "step.within-limit", where + fmt(" %g of %g", dt, Dt))) return;
    close(m.getDtDid(), dt, 1e-14, "step.dtDid", where, 1e-9);
    if (!l.ham && !li) check(dt >= Dt * (1 - 1e-12), "step.exact-covers-interval", where);
    Vec ref = lind::noJump(l, psi, t, t1); { double n = dense::nrm(ref); for (auto& x : ref) x /= n; }
    auto rates = ratesOf(t1, ref); double R_ = sum(rates);
    Vec got = vec<R>(m.getStateVector()); auto& tr = m.getLogger().getTrajectory(); bool jumped = tr.size() > nJ; double err = 1e-9 + 3000 * eps;
    if (!check(close(dense::nrm2(got), 1., 1e-9 + 10 * err * jumped, "state.normalised", where) && tr.size() - nJ <= 1, "jump.at-most-one", where)) return;
    if (li) {
      if (!check(tape().used.size() == nu + 1, "random.one-per-step", where + fmt(" drawn %zu", tape().used.size() - nu))) return;
      check(R_ * dt <= tol * dp * (1 + 1e-4), "dpLimit.tolerance-respected", where + fmt(" total jump probability %g", R_ * dt));
      check(!(R_ > 1e-12) || m.getDtTry() * R_ <= dp * (1 + 1e-4), "dpLimit.next-step", where + fmt(" next %g rate %g", m.getDtTry(), R_));
      if (!l.ham && R_ > 1e-9) close(m.getDtTry() * R_, dp, 1e-9, "dpLimit.governs-non-Hamiltonian", where, 1e-4);
      double u = tape().used.back() / dt, c = 0; int which = -1; bool edge = std::abs(u) < 1e-12; for (size_t q = 0; q < rates.size(); ++q) { if (which < 0 && u < c + rates[q]) which = int(q); edge |= std::abs(u - c) < 1e-5 * (1 + u); c += rates[q]; edge |= std::abs(u - c) < 1e-5 * (1 + u); }
      if (!edge) { check(jumped == (which >= 0), "jump.decision", where + fmt(" u/dt %g total rate %g jumped %d", u, c, jumped));
        if (jumped && which >= 0) { check(int(tr.back().second) == which, "jump.channel", where + fmt(" got %zu expected %d", tr.back().second, which)); } count(which >= 0 ? "jumps" : "no-jumps"); }
      if (jumped) { ++jumps; int w = int(tr.back().second); check(tr.back().first == t1, "jump.time", where); check(countOf(log.str(), fmt("Jump No. %d at time", w)) == 1, "jump.logged", where + log.str());
        if (!check(w < int(rates.size()) && rates[size_t(w)] > 1e-9, "jump.possible", where)) return;
        double amp = 1 / std::sqrt(rates[size_t(w)]); ref = dense::scal(amp, l.J[size_t(w)](t1) * ref); err *= 1 + 5 * amp; if (l.special[size_t(w)]) count("special-jumps"); }
    }
    else { check(tape().used.size() == nu && !jumped, "random.none-without-jumps", where); }
    double dev = fidelityDefect(got, ref);
    if (!check(dev <= err, jumped ? "state.after-jump" : "state.between-jumps", where + fmt(" t %g -> %g (dtTry was %g, stepped back %ld) deviation %g", t, t1, dtTryBefore, countOf(log.str(), "stepping back"), dev))) return;
    psi = got; count("steps");
  }
  // summary log
  std::ostringstream end; m.logOnEnd(end); std::string e = end.str(); size_t pos = e.find("dpTolerance overshot: "); if (check(pos != std::string::npos, "log.summary", e)) check(atol(e.c_str() + pos + 22) == backs, "log.step-backs", where + fmt(" observed %ld: ", backs) + e.substr(pos, 40));
  pos = e.find("MCWF Trajectory:\n"); if (check(pos != std::string::npos, "log.jumps", e)) { std::istringstream is(e.substr(pos + 17)); double a; size_t b; long n = 0; auto it = m.getLogger().getTrajectory().begin(); while (is >> a >> b) { if (it == m.getLogger().getTrajectory().end()) { ++n; break; } check(b == it->second && std::abs(a - it->first) < 1e-4 * (1 + it->first), "log.jump-list", where); ++it; ++n; } check(n == long(m.getLogger().getTrajectory().size()) && n == jumps, "log.number-of-jumps", where); }
  count("step-backs", backs); sig(l.what + fmt("%d%d", backs > 0, jumps > 0)); sample(where + fmt("%ld jumps, %ld step-backs", jumps, backs));
}

// Intervals are ended exactly, whatever the rounding, and only jumps that have been drawn occur
template <template <typename> class Engine> void endings(Rng& r) {
  constexpr int R = 1; Dims d{size_t(r.i(2, 4))}; lind::Opt o; o.forMaster = false; o.pLiou = 1; Lind l = lind::random(r, d, o); l.freq = r.logu(.2, 5); auto sys = lind::makeSystem<R>(l.spec, l.freq); using OE = Engine<quantumdata::StateVectorLow<R>>;
  for (int k = 0; k < 20; ++k) { Vec v = dense::randVec(r, l.N); tape() = Tape(); tape().fallback = Rng(r.next()); double dp = r.u(.05, .3);
    quantumtrajectory::MCWF_Trajectory<R, OE, ScriptEngine> m(sys, sv<R>(v, d), OE{.1 / l.freq, 0, 1e-4, 1e-4}, {1ul, 1ul}, dp, 2., 0); tape().bias = true; double T = r.b() ? r.u(.1, 1.) : std::min(m.getDtTry(), 3.) * r.u(1.1, 3.), end = m.getTime() + T; std::ostringstream log;
    if (r.b()) { cppqedutils::advance(m, T, log); check(m.getTime() == end, "interval.exact-end", l.what + fmt(" %.17g instead of %.17g", m.getTime(), end)); }
    else for (int q = 0; q < 10 && m.getTime() != end; ++q) { double t = m.getTime(); m.step(end - t, log); count(m.getTime() < t ? "backward-corrections" : "steps-to-end"); }
    for (auto& j : m.getLogger().getTrajectory()) check(j.second < l.J.size(), "interval.no-such-jump", l.what + fmt(" jump number %ld at %.17g, limit %.17g", long(j.second), j.first, end));
    check(m.getLogger().getTrajectory().empty(), "interval.no-jump-drawn", l.what); close(dense::nrm2(vec<R>(m.getStateVector())), 1., 1e-9, "interval.normalised", l.what); }
  sig(l.what + "end");
}
// The same trajectory through the parameter table and the maker as by hand, bit by bit
void fromParameters(Rng& r) {
  using A = quantumdata::StateVectorLow<1>; using OE = cppqedutils::ODE_EngineBoost<A>; Dims d = randDims(r, 1, 6, 6); if (total(d) < 2) d[0] = 2;
  lind::Opt o; o.forMaster = false; o.strength = r.logu(.5, 6); Lind l = lind::random(r, d, o); l.freq = r.logu(.5, 20); auto sys = lind::makeSystem<1>(l.spec, l.freq); Vec v = dense::randVec(r, l.N);
  Pars P; auto& p = P.p; check(p.noise, "parameters.noise-is-default", ""); p.noise = r.b(); p.seed = size_t(r.i(1, 1000000)); p.prngStream = size_t(r.i(1, 50)); p.dpLimit = r.logu(1e-3, .1); p.overshootTolerance = r.u(1, 12); p.epsRel = r.logu(1e-9, 1e-5); p.epsAbs = r.logu(1e-9, 1e-5); p.logLevel = int(r.i(0, 3));
  std::string where = l.what + fmt(" noise=%d seed %zu stream %zu", bool(p.noise), size_t(p.seed), size_t(p.prngStream));
  auto a = quantumtrajectory::mcwf::make<OE, pcg64>(sys, sv<1>(v, d), p);
  quantumtrajectory::MCWF_Trajectory<1, OE, pcg64> b(sys, sv<1>(v, d), OE{1. / (10 * l.freq), p.logLevel, p.epsRel, p.epsAbs}, {p.seed, p.prngStream}, p.dpLimit, p.overshootTolerance, p.logLevel, p.noise);
  std::ostringstream la, lb; double T = r.u(.5, 3); for (int k = 0; k < 200 && a.getTime() < T; ++k) { a.step(T - a.getTime(), la); b.step(T - b.getTime(), lb); Vec x = vec<1>(a.getStateVector()), y = vec<1>(b.getStateVector()); if (!check(a.getTime() == b.getTime() && x == y && a.getDtTry() == b.getDtTry(), "parameters.same-trajectory", where + fmt(" step %d", k))) return; }
  check(la.str() == lb.str(), "parameters.same-log", where); check(p.noise || a.getLogger().getTrajectory().empty(), "parameters.no-noise-no-jumps", where);
  if (!p.noise) { Vec ref = lind::noJump(l, v, 0, a.getTime()); double n = dense::nrm(ref); for (auto& x : ref) x /= n; check(fidelityDefect(vec<1>(a.getStateVector()), ref) < 1e-3, "parameters.no-noise-evolution", where); }
  count(p.noise ? "made-noisy" : "made-noiseless"); sig(l.what);
}
} // namespace
SCENARIO(from_parameters, 60) { fromParameters(r); }
SCENARIO(interval_ends, 150) { endings<cppqedutils::ODE_EngineBoost>(r); }
SCENARIO(interval_ends_gsl, 40) { endings<cppqedutils::ODE_EngineGSL>(r); }
SCENARIO(noise_off, 50) { run<1, cppqedutils::ODE_EngineBoost>(r, r.b(), false); }
SCENARIO(trajectory_rank1, 120) { run<1, cppqedutils::ODE_EngineBoost>(r, false); }
SCENARIO(trajectory_rank2, 50) { run<2, cppqedutils::ODE_EngineBoost>(r, false); }
SCENARIO(trajectory_gsl, 50) { run<1, cppqedutils::ODE_EngineGSL>(r, false); }
SCENARIO(stepping_back, 120) { run<1, cppqedutils::ODE_EngineBoost>(r, true); }
