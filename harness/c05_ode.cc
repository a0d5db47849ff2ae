// C05: adaptive integration. Every engine step is observed: time, step sizes, derivative calls, state; compared with an
// independent Cash-Karp evaluation, with closed forms and with the step contract.
#include "dense.h"
#include "table.h"
#include "Simulated.h"
#include "ODE_GSL.h"
#include "DrivenDampedHarmonicOscillator.h"

using namespace vf;
namespace cu = cppqedutils;
using dense::Vec; using dense::Mat;

namespace {

// problems with known solutions: y(t) as complex vectors
struct Problem { std::string name; size_t n; std::function<void(const Vec&, Vec&, double)> f; std::function<Vec(double)> exact; double t0, rate; };

Problem makeProblem(Rng& r, int kind, double scale = 1.) {
  Problem p; p.t0 = 0;
  if (kind == 0) { // linear, constant matrix
    size_t n = size_t(r.i(1, 4)); Mat A = dense::randMat(r, n); double sh = r.u(0, 2); for (size_t i = 0; i < n; ++i) A(i, i) -= sh; double k = r.logu(.2, 5); A = k * A;
    Vec y0 = dense::scal(scale, dense::randVec(r, n));
    p = {"linear", n, [A](const Vec& y, Vec& d, double) { d = A * y; }, [A, y0](double t) { return dense::expm(t * A) * y0; }, 0., k * n};
  }
  else if (kind == 1) { // exp(exp(Zt))
    cplx Z(r.u(-1.5, -.3), r.u(-8, 8));
    p = {"expexp", 2, [Z](const Vec& y, Vec& d, double t) { d = {y[1], y[1] * y[1] + Z * y[1] + Z * Z * std::exp(2. * Z * t) * (y[0] - y[0] * y[0])}; },
         [Z](double t) { cplx e = std::exp(std::exp(Z * t)); return Vec{e, Z * std::exp(Z * t) * e}; }, 0., 2 * std::abs(Z)};
  }
  else if (kind == 2) { // pure quadrature, time dependent
    double w = r.u(.5, 6), a = r.u(.2, 2); cplx c = r.c();
    p = {"quadrature", 1, [=](const Vec&, Vec& d, double t) { d = {c * a * std::cos(w * t) * w}; }, [=](double t) { return Vec{cplx(.3, .1) + c * a * std::sin(w * t)}; }, 0., w};
  }
  else if (kind == 3) { // logistic
    double k = r.u(.5, 3), y0 = r.u(.05, .5);
    p = {"logistic", 1, [=](const Vec& y, Vec& d, double) { d = {k * y[0] * (1. - y[0])}; }, [=](double t) { double e = std::exp(k * t); return Vec{y0 * e / (1 + y0 * (e - 1))}; }, 0., k};
  }
  else { // driven damped oscillator, closed form by variation of constants on the dense side
    double g = r.u(.05, .9), w = r.u(.3, 4); cplx a0 = r.c(), a1 = r.c();
    Mat A(3); A(0, 1) = 1.; A(1, 0) = -1.; A(1, 1) = -2 * g; A(1, 2) = 1.; A(2, 2) = cplx(0, w); // third component: the drive
    Vec y0{a0, a1, 1.};
    p = {"ddho", 2, [=](const Vec& y, Vec& d, double t) { d = {y[1], -y[0] - 2 * g * y[1] + std::exp(cplx(0, w * t))}; }, [=](double t) { Vec v = dense::expm(t * A) * y0; v.resize(2); return v; }, 0., w + 1};
  }
  return p;
}

// ---- adaptors to the two element types
struct CTraits { using A = CArray<1>; static Vec get(const A& a) { Vec v(size_t(a.size())); for (int i = 0; i < a.extent(0); ++i) v[size_t(i)] = a(i); return v; } static A put(const Vec& v) { A a{int(v.size())}; for (size_t i = 0; i < v.size(); ++i) a(int(i)) = v[i]; return a; } static void set(A& a, const Vec& v) { for (size_t i = 0; i < v.size(); ++i) a(int(i)) = v[i]; } };
struct DTraits { using A = DArray<1>; // interleaved real and imaginary parts
  static Vec get(const A& a) { Vec v(size_t(a.size() / 2)); for (size_t i = 0; i < v.size(); ++i) v[i] = cplx(a(int(2 * i)), a(int(2 * i + 1))); return v; }
  static A put(const Vec& v) { A a{int(2 * v.size())}; set(a, v); return a; } static void set(A& a, const Vec& v) { for (size_t i = 0; i < v.size(); ++i) { a(int(2 * i)) = v[i].real(); a(int(2 * i + 1)) = v[i].imag(); } } };
// rank 2, one row
struct C2Traits { using A = CArray<2>; static Vec get(const A& a) { Vec v; for (int i = 0; i < a.extent(0); ++i) for (int j = 0; j < a.extent(1); ++j) v.push_back(a(i, j)); return v; } static A put(const Vec& v) { A a{1, int(v.size())}; set(a, v); return a; } static void set(A& a, const Vec& v) { for (size_t i = 0; i < v.size(); ++i) a(int(i) / a.extent(1), int(i) % a.extent(1)) = v[i]; } };

// independent Cash-Karp 5(4): new value and error estimate
void rkck(const Problem& p, const Vec& y, double t, double h, Vec& out, Vec& err, Vec& k1) {
  static const double b[5][5] = {{1. / 5}, {3. / 40, 9. / 40}, {3. / 10, -9. / 10, 6. / 5}, {-11. / 54, 5. / 2, -70. / 27, 35. / 27}, {1631. / 55296, 175. / 512, 575. / 13824, 44275. / 110592, 253. / 4096}};
  static const double c[6] = {0, 1. / 5, 3. / 10, 3. / 5, 1, 7. / 8}, w5[6] = {37. / 378, 0, 250. / 621, 125. / 594, 0, 512. / 1771}, w4[6] = {2825. / 27648, 0, 18575. / 48384, 13525. / 55296, 277. / 14336, 1. / 4};
  std::vector<Vec> k(6, Vec(y.size()));
  for (int s = 0; s < 6; ++s) { Vec z = y; for (int q = 0; q < s; ++q) z = dense::add(z, dense::scal(h * b[s - 1][q], k[q])); p.f(z, k[s], t + c[s] * h); }
  out = y; err = Vec(y.size(), 0.); for (int s = 0; s < 6; ++s) { out = dense::add(out, dense::scal(h * w5[s], k[s])); err = dense::add(err, dense::scal(h * (w5[s] - w4[s]), k[s])); }
  k1 = k[0];
}

struct Calls { long n = 0, starts = 0; double t0 = 0, tmin = 1e300, tmax = -1e300; void reset(double t) { t0 = t; n = starts = 0; tmin = 1e300; tmax = -1e300; } };

long numberAfter(const std::string& s, const std::string& key) { auto k = s.rfind(key); if (k == std::string::npos) return -1; return atol(s.c_str() + k + key.size()); }

template <typename T, typename Engine> struct Driver {
  Problem p; Engine e; typename T::A y; double t; Calls c; long totalCalls = 0, totalSteps = 0, totalFails = 0, printedFails = 0; std::ostringstream log; double epsRel, epsAbs; std::string key;
  Driver(Problem p_, double dtInit, double er, double ea, std::string k) : p(p_), e(dtInit, 4, er, ea), y(T::put(p.exact(0))), t(p.t0), epsRel(er), epsAbs(ea), key(k) {}
  // one observed step; returns the time step done
  double step(double deltaT, bool exact = true, double tolFactor = 0) {
    double tBefore = t, tryBefore = e.getDtTry(), didBefore = e.getDtDid(); Vec yb = T::get(y); c.reset(t); log.str("");
    e.step(deltaT, log, [this](const typename T::A& a, typename T::A& d, double tt) { ++c.n; if (tt == c.t0) ++c.starts; c.tmin = std::min(c.tmin, tt); c.tmax = std::max(c.tmax, tt); Vec v = T::get(a), dv; p.f(v, dv, tt); T::set(d, dv); }, t, y);
    double did = t - tBefore; std::string where = p.name + fmt(" deltaT=%.17g dtTry=%.17g t=%.17g epsRel=%g epsAbs=%g", deltaT, tryBefore, tBefore, epsRel, epsAbs);
    check(did != 0 && std::signbit(did) == std::signbit(deltaT), key + ".moves", where);
    check(std::abs(did) <= std::abs(deltaT) * (1 + 1e-15) + 4e-16 * std::abs(tBefore), key + ".overshoot", where + fmt(" did %.17g", did));
    check(e.getDtDid() == did, key + ".dtDid", where + fmt(" reported %.17g actual %.17g", e.getDtDid(), did));
    double span = std::abs(deltaT) * (1 + 1e-12) + 1e-15 * std::abs(tBefore);
    check(c.tmin >= tBefore - (deltaT > 0 ? 1e-15 : span) && c.tmax <= tBefore + (deltaT > 0 ? span : 1e-15), key + ".rhs-time", where);
    bool sameSign = std::signbit(deltaT) == std::signbit(tryBefore);
    if (std::abs(deltaT) < std::abs(tryBefore) / 10 * (1 - 1e-12) && sameSign) { check(e.getDtTry() == tryBefore, key + ".dtTry-survives", where + fmt(" dtTry after %.17g", e.getDtTry())); count("tiny steps"); }
    else if (sameSign && std::abs(deltaT) > std::abs(tryBefore) / 10 * (1 + 1e-12)) { double tr = e.getDtTry(); check(std::signbit(tr) == std::signbit(deltaT) && std::abs(tr) > 0 && std::abs(tr) <= 6 * std::abs(did) && std::abs(tr) >= std::abs(did) / 6, key + ".dtTry-range", where + fmt(" did %.17g dtTry after %.17g", did, tr)); }
    // the first attempt is made with the proposal, limited by deltaT
    bool resolvable = std::abs(did) > 1e-13 * (1 + std::abs(tBefore)); // otherwise the stages' times coincide, attempts cannot be told apart
    long fails = resolvable ? c.starts - 1 : 0;
    if (sameSign && fails == 0) { double want = std::abs(tryBefore) > std::abs(deltaT) ? deltaT : tryBefore; check(std::abs(did - want) <= 1e-12 * std::abs(want) + 4e-16 * std::abs(tBefore), key + ".uses-proposal", where + fmt(" did %.17g", did)); }
    if (fails > 0) { check(std::abs(did) < std::min(std::abs(deltaT), sameSign ? std::abs(tryBefore) : std::abs(didBefore)) , key + ".retry-shorter", where); count("failed attempts", fails); }
    long logged = numberAfter(log.str(), "failed steps in this timestep: "); if (!resolvable) fails = logged; check(logged == fails, key + ".log-failed-step", where + fmt(" logged %ld actual %ld", logged, fails)); printedFails += logged;
    ++totalSteps; totalCalls += c.n; totalFails += fails;
    // state equals the Cash-Karp result of the accepted step, and its error estimate is within tolerance
    Vec out, err, k1, kEnd(yb.size()); rkck(p, yb, tBefore, did, out, err, k1); p.f(out, kEnd, t);
    Vec ya = T::get(y); double sc = 1e-300; for (auto& v : out) sc = std::max(sc, std::abs(v)); for (auto& v : yb) sc = std::max(sc, std::abs(v));
    check(dense::dist(ya, out) <= 1e-11 * sc, key + ".cash-karp", where + fmt(" dev %g", dense::dist(ya, out)));
    double worst = 0; for (size_t i = 0; i < yb.size(); ++i) { double m = std::max(std::abs(yb[i]) + std::abs(did * k1[i]), std::abs(out[i]) + std::abs(did * kEnd[i]));
      // either assignment of the two tolerances (see finding on their roles); GSL accepts up to 1.1
      double D = std::max(epsAbs + epsRel * m, epsRel + epsAbs * m); worst = std::max(worst, std::max(std::abs(err[i].real()), std::abs(err[i].imag())) / D); }
    bool noise = std::abs(dense::nrm(err)) < 1e-13 * sc;
    if (!noise) check(worst <= 1.15, key + ".accepted-error", where + fmt(" error/tolerance=%g", worst));
    if (worst > .5) count("steps near the tolerance");
    count("steps");
    return did;
  }
  void checkLog() {
    std::ostringstream o; e.logOnEnd(o); std::string s = o.str();
    check(numberAfter(s, "Total number of ODE steps: ") == totalSteps, key + ".log-steps", s);
    check(numberAfter(s, "Number of failed ODE steps: ") == totalFails, key + ".log-fails", s + fmt(" actual %ld", totalFails));
    check(numberAfter(s, "RHS for ODE: ") == totalCalls, key + ".log-calls", s + fmt(" actual %ld", totalCalls));
  }
  void advance(double T1) { long g = 0; while (t < T1 && ++g < 200000) step(T1 - t); check(t <= T1 * (1 + 1e-15) && T1 - t <= 1e-15 * (1 + std::abs(T1)) * 4, key + ".advance", ""); }
};

template <typename T, template <typename> class Engine> void stepContract(Rng& r, const std::string& key) {
  Problem p = makeProblem(r, int(r.i(0, 4)));
  double eps = r.logu(1e-11, 1e-3); bool equal = r.b(.5);
  Driver<T, Engine<typename T::A>> d(p, r.logu(1e-4, 2.) / p.rate, eps, equal ? eps : r.logu(1e-12, 1e-3), key);
  { std::ostringstream o; d.e.streamParameters(o); auto s = o.str(); double a = -1, b = -1; auto k = s.find("epsRel="); if (k != std::string::npos) a = atof(s.c_str() + k + 7); k = s.find("epsAbs="); if (k != std::string::npos) b = atof(s.c_str() + k + 7);
    close(a, d.epsRel, 0, key + ".parameters", s, 1e-5); close(b, d.epsAbs, 0, key + ".parameters", s, 1e-5); }
  int n = int(r.i(3, 30)); std::string s = p.name;
  for (int k = 0; k < n && d.t < 4 / p.rate * 3; ++k) {
    double dt = r.b(.3) ? r.logu(1e-7, 1e-2) / p.rate : r.logu(1e-2, 5.) / p.rate; if (k && r.b(.07)) dt = -dt; // step back: as a trajectory does when it has overshot
    if (dt < 0) { double t0 = d.t; d.step(dt); check(d.t < t0, key + ".backward", ""); count("backward steps"); break; }
    d.step(dt); s += dt > d.e.getDtDid() ? "f" : "l";
  }
  d.checkLog(); sig(s); sample(p.name + fmt(" eps=%g", eps));
}

// global error against the closed form, and convergence with the tolerance
template <typename T, template <typename> class Engine> void accuracy(Rng& r, const std::string& key) {
  Problem p = makeProblem(r, int(r.i(0, 4))); double Tend = r.u(.5, 4) * (p.name == "linear" ? 3. / p.rate : 1.), prev = 0; Rng save = r;
  std::string s = p.name;
  for (double eps : {1e-4, 1e-7, 1e-10}) {
    r = save;
    Driver<T, Engine<typename T::A>> d(p, .1 / p.rate, eps, eps, key);
    int parts = int(r.i(1, 6)); double worst = 0, scale = 1; std::vector<double> ts; for (int k = 0; k < parts; ++k) ts.push_back(Tend * (k + r.u(.2, .99)) / parts); ts.push_back(Tend);
    // growth of perturbations along the flow, measured on the closed form of a linear problem by its norm
    for (double t1 : ts) { d.advance(t1); Vec ex = p.exact(d.t); for (auto& v : ex) scale = std::max(scale, std::abs(v)); worst = std::max(worst, dense::dist(T::get(d.y), ex)); }
    d.checkLog();
    double amp = p.name == "linear" ? 300 : p.name == "expexp" ? 300 : 50;
    check(worst <= eps * scale * amp * std::max(1., Tend * p.rate) + 1e-12 * scale * 100, key + ".global-error", p.name + fmt(" eps=%g T=%g error=%g scale=%g", eps, Tend, worst, scale));
    if (eps == 1e-4) prev = worst / scale;
    if (eps == 1e-10 && prev > 3e-8) check(worst / scale < prev / 5, key + ".converges", p.name + fmt(" eps=%g error=%g, with 1e6x looser tolerance %g", eps, worst / scale, prev));
    s += fmt("%d", parts); count("steps accuracy", d.totalSteps);
  }
  sig(s);
}

// each tolerance in its own role: with a negligible absolute tolerance the step sequence of a linear problem does not depend on the scale of the solution;
// with a negligible relative tolerance it depends on scale/epsAbs only
template <typename T, template <typename> class Engine> void roles(Rng& r, const std::string& key, const std::string& tag) {
  Problem a = makeProblem(r, 0, 1.); double f = r.b() ? 1e5 : 1e-5; Problem b = a; auto ex = a.exact; b.exact = [ex, f](double t) { return dense::scal(f, ex(t)); };
  auto seq = [&](const Problem& p, double er, double ea) { Driver<T, Engine<typename T::A>> d(p, .01 / p.rate, er, ea, key); std::vector<double> s; for (int k = 0; k < 12; ++k) s.push_back(d.step(1e3 / p.rate)); return s; };
  double eps = r.logu(1e-9, 1e-5);
  double tiny = eps * 1e-12;
  auto dev = [](const std::vector<double>& x, const std::vector<double>& y) { double d = 0; for (size_t k = 2; k < x.size(); ++k) d = std::max(d, std::abs(x[k] / y[k] - 1)); return d; };
  double rel = dev(seq(a, eps, tiny), seq(b, eps, tiny)), abs_ = dev(seq(a, tiny, eps), seq(b, tiny, eps * f)); // zero if each is in its own role
  double rel2 = dev(seq(a, tiny, eps), seq(b, tiny, eps)), abs2 = dev(seq(a, eps, tiny), seq(b, eps * f, tiny)); // zero if the roles are exchanged
  bool right = rel < .05 && abs_ < .05, swapped = rel2 < .05 && abs2 < .05;
  std::string msg = fmt("eps=%g scaled by %g: with epsRel dominating the steps of a linear problem change by a factor up to %g under scaling", eps, f, 1 + rel);
  if (!right && swapped) check(false, "ode.tolerance-roles-exchanged." + tag, msg);
  else check(right, "ode.tolerance-roles." + tag, msg + fmt(", with epsAbs dominating by %g when epsAbs is scaled along", 1 + abs_));
  sig(fmt("%s%g%d", tag.c_str(), f, int(std::log10(eps))));
}

template <template <typename> class Engine> void viaSimulated(Rng& r, const std::string& key) {
  // the whole driver: returned arrays at the requested times agree with the closed form
  Problem p = makeProblem(r, int(r.i(1, 4))); double Tend = r.u(.5, 3), Dt = Tend / r.u(3, 30); using A = CArray<1>;
  long calls = 0; auto S = cu::simulated::make<Engine<A>>(CTraits::put(p.exact(0)), [&](const A& a, A& d, double t) { ++calls; Vec dv; p.f(CTraits::get(a), dv, t); CTraits::set(d, dv); }, {}, .05 / p.rate, 1, 1e-8, 1e-8);
  auto res = cu::trajectory::run(S, Tend, Dt, 0u, std::string{}, std::string{}, 6, false, false, std::string{}, false, true, cu::trajectory::autostopHandlerNoOp);
  check(!res.empty(), key + ".sim-empty", ""); close(S.getTime(), Tend, 1e-13, key + ".sim-end", "");
  for (auto& x : res) { Vec e = p.exact(std::get<0>(x)); double sc = 1; for (auto& v : e) sc = std::max(sc, std::abs(v)); check(dense::dist(CTraits::get(std::get<2>(x)), e) < 1e-5 * sc, key + ".sim-value", p.name + fmt(" t=%g", std::get<0>(x))); }
  std::ostringstream o; S.logOnEnd(o); check(numberAfter(o.str(), "RHS for ODE: ") == calls, key + ".sim-calls", o.str());
  sig(p.name + fmt("%d", int(Tend / Dt))); count("sim lines", long(res.size()));
}

} // namespace

SCENARIO(step_boost, 60) { stepContract<CTraits, cu::ODE_EngineBoost>(r, "step.boost"); stepContract<DTraits, cu::ODE_EngineBoost>(r, "step.boost.real"); stepContract<C2Traits, cu::ODE_EngineBoost>(r, "step.boost.rank2"); }
SCENARIO(step_gsl, 60) { stepContract<CTraits, cu::ODE_EngineGSL>(r, "step.gsl"); stepContract<DTraits, cu::ODE_EngineGSL>(r, "step.gsl.real"); stepContract<C2Traits, cu::ODE_EngineGSL>(r, "step.gsl.rank2"); }
SCENARIO(accuracy_boost, 25) { accuracy<CTraits, cu::ODE_EngineBoost>(r, "accuracy.boost"); accuracy<DTraits, cu::ODE_EngineBoost>(r, "accuracy.boost.real"); }
SCENARIO(accuracy_gsl, 25) { accuracy<CTraits, cu::ODE_EngineGSL>(r, "accuracy.gsl"); accuracy<DTraits, cu::ODE_EngineGSL>(r, "accuracy.gsl.real"); }
SCENARIO(roles_boost, 4) { roles<CTraits, cu::ODE_EngineBoost>(r, "roles.boost", "boost"); }
SCENARIO(roles_gsl, 4) { roles<CTraits, cu::ODE_EngineGSL>(r, "roles.gsl", "gsl"); }
SCENARIO(sim_run, 25) { viaSimulated<cu::ODE_EngineBoost>(r, "sim.boost"); viaSimulated<cu::ODE_EngineGSL>(r, "sim.gsl"); }
// engines are copied by value together with the object that holds them: copies must not share integration state
SCENARIO(copies, 20) {
  using A = CArray<1>;
  Problem p = makeProblem(r, int(r.i(0, 4))); std::ostringstream log; size_t n = p.n;
  auto f = [&](const A& a, A& d, double t) { Vec dv; p.f(CTraits::get(a), dv, t); CTraits::set(d, dv); };
  auto go = [&](auto e, int split) { A y = CTraits::put(p.exact(0)); double t = 0; for (int k = 0; k < split; ++k) e.step(1., log, f, t, y); auto e2 = e; A y2 = y.copy(); double t2 = t; for (int k = 0; k < 5; ++k) { e.step(.3 / p.rate, log, f, t, y); e2.step(.3 / p.rate, log, f, t2, y2); }
    check(t == t2 && dense::dist(CTraits::get(y), CTraits::get(y2)) == 0 && e.getDtTry() == e2.getDtTry(), "copies.same", p.name + fmt(" n=%zu split=%d", n, split)); };
  int split = int(r.i(0, 6));
  go(cu::ODE_EngineBoost<A>(.01, 0, 1e-7, 1e-9), split); go(cu::ODE_EngineGSL<A>(.01, 0, 1e-7, 1e-9), split);
  sig(p.name + fmt("%d", split));
}
SCENARIO(ddho_reference, 60) {
  // the library's own reference solution solves its documented equation and initial condition
  double g = r.pick(std::vector<double>{.1, .7, 1., 1.5, 3.}); if (r.b(.4)) g = r.u(.05, 3); double w = r.u(.2, 3), ti = r.b(.5) ? 0. : r.u(-2, 2); cplx a = r.c(), b = r.c();
  auto o = cu::ddho::make(g, w, a, b, ti); close(o->amp(ti), a, 1e-9, "ddho.initial", ""); close(o->ampDeriv(ti), b, 1e-9, "ddho.initial", "");
  Mat A(3); A(0, 1) = 1.; A(1, 0) = -1.; A(1, 1) = -2 * g; A(1, 2) = 1.; A(2, 2) = cplx(0, w); Vec y0{a, b, std::exp(cplx(0, w * ti))};
  double t = ti + r.u(0, 4); Vec y = dense::expm((t - ti) * A) * y0; close(o->amp(t), y[0], 1e-7, "ddho.amp", fmt("gamma=%g omega=%g tInit=%g t=%g", g, w, ti, t)); close(o->ampDeriv(t), y[1], 1e-7, "ddho.deriv", fmt("gamma=%g omega=%g tInit=%g t=%g", g, w, ti, t));
  sig(fmt("%g%d", g, ti != 0));
}
