// C12 (spins, particles, multi-level systems, user-defined elements)
#include "probe.h"
#include "elem.h"
#include "fourier.h"
#include "Spin.h"
#include "Particle.h"
#include "Particle_.h"
#include "MultiLevel.h"
using namespace dense; using namespace vf; using probe::Probe;
using four::I;

SCENARIO(spins, 160) {
  parameters::Table pt; spin::Pars pp(pt); size_t twoS = size_t(r.b(.4) ? 1 : r.i(1, 9)); pp.twoS = twoS; pp.dim = r.b(.7) ? 0 : size_t(r.i(2, long(twoS) + 3));
  pp.omega = r.b(.1) ? 0. : r.u(-4, 4); pp.gamma = r.b(.3) ? 0. : r.u(.05, 1.5); pp.theta = r.u(0, 3.1); pp.phi = r.u(-3, 3);
  bool sch = r.b(), lossy = r.b(); size_t N = pp.dim && pp.dim < twoS + 1 ? pp.dim : twoS + 1; double s = twoS / 2.;
  spin::Ptr m; if (sch) { if (lossy) m = std::make_shared<LossySpinSch>(pp); else m = std::make_shared<SpinSch>(pp); } else { if (lossy) m = std::make_shared<LossySpin>(pp); else m = std::make_shared<Spin>(pp); }
  std::string cfg = fmt("2S=%zu N=%zu omega=%g gamma=%g sch=%d", twoS, N, pp.omega, pp.gamma, sch);
  Probe<1> p(m); if (!check(p.N == N, "spin.dimension", cfg)) return;
  Mat sp(N), sz(N); for (size_t k = 0; k + 1 < N; ++k) sp(k + 1, k) = std::sqrt(double((twoS - k) * (k + 1))); for (size_t k = 0; k < N; ++k) sz(k, k) = double(k) - s;
  Mat sm = dag(sp), sx = .5 * (sp + sm), sy = (-I / 2.) * (sp - sm); double th = sch ? double(pp.theta) : 0., ph = sch ? double(pp.phi) : 0.;
  Mat sn = std::sin(th) * (std::cos(ph) * sx + std::sin(ph) * sy) + std::cos(th) * sz;
  Mat G = -1. * (cplx(pp.gamma, pp.omega) * sn);
  elem::generator(r, p, G, "spin.generator", cfg, true);
  elem::Jumps js; if (lossy) js.push_back({std::sqrt(2 * pp.gamma) * sm, 2 * pp.gamma * (sp * sm)});
  elem::jumps(r, p, js, "spin", cfg);
  elem::averages(r, p, "spin.averages", [&](const Mat& rho) { using probe::ex; double z = ex(rho, sz).real(); cplx q = ex(rho, sp); return std::vector<double>{z, ex(rho, sz * sz).real() - z * z, q.real(), q.imag(), rho(N - 1, N - 1).real()}; });
  double t0 = r.u(-2, 2), t = t0 + r.u(-.3, .3);
  elem::tridiag(p, spin::splus(m), sp, t, t0, "spin.splus", cfg); elem::tridiag(p, spin::sminus(m), sm, t, t0, "spin.sminus", cfg); elem::tridiag(p, spin::sx(m), sx, t, t0, "spin.sx", cfg);
  elem::tridiag(p, spin::sy(m), sy, t, t0, "spin.sy", cfg); elem::tridiag(p, spin::sz(m), sz, t, t0, "spin.sz", cfg); elem::tridiag(p, spin::sn(m), sn, t, t0, "spin.sn", cfg);
  // half the sum of J+J against the damping part of the generator
  if (lossy && pp.gamma) { Mat D = -1. * (G + dag(G)), S = 2 * pp.gamma * (sp * sm); bool plain = twoS == 1 && !(sch && pp.theta); check(distUpToId(D, S) < 1e-9 * (1 + maxabs(S)), plain ? "spin.damping" : "spin.damping-not-half-the-jump-rate-beyond-spin-half", cfg); }
  sig(cfg.substr(0, 12) + fmt("%d%d%d", sch, lossy, pp.gamma != 0)); sample(cfg);
}

// ---- particles
using namespace four;

SCENARIO(particles, 160) {
  parameters::Table pt; particle::ParsPumped pp(pt); size_t fin = size_t(r.i(1, 5)), N = size_t(1) << fin; pp.fin = fin; pp.omrec = r.u(.01, 1.); pp.vClass = r.b(.2) ? 0. : r.u(-8, 8); pp.kPart = size_t(r.i(0, long(std::max<size_t>(1, N / 2 + 1))));
  pp.modePart = r.pick(std::vector<ModeFunctionType>{MFT_SIN, MFT_COS, MFT_PLUS, MFT_MINUS}); QM_Picture q = r.pick(std::vector<QM_Picture>{QMP_IP, QMP_UIP, QMP_SCH});
  bool pumped = r.b(.7); particle::Ptr m; if (pumped) m = particle::makePumped(pp, q); else m = particle::make(pp, q);
  std::string cfg = fmt("fin=%zu omrec=%g v=%g K=%zu mf=%d pict=%d pumped=%d", fin, pp.omrec, pp.vClass, pp.kPart, int(ModeFunctionType(pp.modePart)), int(q), pumped);
  Probe<1> p(m); if (!check(p.N == N, "particle.dimension", cfg)) return;
  Mat K(N), X(N); for (size_t i = 0; i < N; ++i) { K(i, i) = double(i) - double(N) / 2; X(i, i) = -M_PI + 2 * M_PI * i / N; }
  Mat G = -I * pp.omrec * (K * K);
  if (pumped) G = G + (-I * pp.vClass) * mat(prod(series(pp.modePart, long(pp.kPart)), series(pp.modePart, long(pp.kPart))), N);   // V |f(Kx)|^2, up to a constant
  elem::generator(r, p, G, "particle.generator", cfg, true);
  elem::jumps(r, p, {}, "particle", cfg);
  Mat F = k2x(N);
  elem::averages(r, p, "particle.averages", [&](const Mat& rho) { using probe::ex; double k = ex(rho, K).real(); Mat rx = F * rho * dag(F); double x = ex(rx, X).real(); return std::vector<double>{k, ex(rho, K * K).real() - k * k, x, std::sqrt(std::max(0., ex(rx, X * X).real() - x * x))}; });
  double t0 = r.u(-2, 2), t = t0 + r.u(-1, 1);
  auto mfs = std::vector<ModeFunctionType>{MFT_SIN, MFT_COS, MFT_PLUS, MFT_MINUS}; auto f = r.pick(mfs), g = r.pick(mfs); long n1 = r.i(-long(N) / 2, long(N) / 2); if (n1 == 0) n1 = 1; long n2 = r.b() ? n1 : -n1;
  std::string c2 = cfg + fmt(" f=%d,%ld g=%d,%ld", int(f), n1, int(g), n2);
  elem::tridiag(p, particle::mfNKX(m, ModeFunction(f, n1)), mat(series(f, n1), N), t, t0, "particle.mfNKX", c2);
  elem::tridiag(p, particle::expINKX(m, n1), shift(N, n1), t, t0, "particle.expINKX", c2);
  elem::tridiag(p, particle::mfComposition(m, ModeFunction(f, n1), ModeFunction(g, n2)), mat(prod(series(f, n1), series(g, n2)), N), t, t0, "particle.mfComposition", c2);
  check(throws([&] { particle::mfComposition(m, ModeFunction(f, n1), ModeFunction(g, (n1 > 0 ? n1 : -n1) + 1)); }), "particle.mfComposition.refused", c2);
  double x = r.u(-7, 7); cplx s = 0.; for (auto& c : series(f, 1)) s += c.second * std::exp(I * double(c.first) * x); close(modeFunction(f, x), s, 1e-13, "modeFunction");
  { std::ostringstream os; os << f; std::istringstream is(os.str()); ModeFunctionType h = f == MFT_SIN ? MFT_COS : MFT_SIN; is >> h; check(bool(is) && h == f, "modeFunctionType.io"); std::istringstream bad("Sine"); ModeFunctionType b = f; check(!(bad >> b) && b == f, "modeFunctionType.refused"); }
  sig(fmt("%zu/%d/%d/%zu/%d/%d%d", fin, int(q), pumped, size_t(pp.kPart), int(ModeFunctionType(pp.modePart)), int(f), int(g))); sample(cfg);
}

SCENARIO(particleStates, 80) {
  size_t fin = size_t(r.i(6, 8)), N = size_t(1) << fin; bool inK = r.b(), kFlag = r.b(.7); double x0 = r.u(-.4, .4), k0 = double(r.i(-4, 4)), sig_ = inK ? r.u(1.5, 3.) : r.u(.18, .3);
  Mat F = k2x(N); particle::Spatial sp(fin); std::string cfg = fmt("fin=%zu inK=%d x0=%g k0=%g sig=%g kFlag=%d", fin, inK, x0, k0, sig_, kFlag);
  for (size_t i = 0; i < N; i += 7) { close(sp.x(i), -M_PI + 2 * M_PI * i / N, 1e-12, "particle.spatial.x"); close(sp.k(i), double(i) - double(N) / 2, 1e-9, "particle.spatial.k"); }
  auto toX = [&](const Vec& v) { return kFlag ? F * v : v; }; auto toK = [&](const Vec& v) { return kFlag ? v : dag(F) * v; };
  auto mom = [&](const Vec& v, bool k, double& m, double& s) { m = s = 0; double n = 0; for (size_t i = 0; i < N; ++i) { double c = k ? double(i) - double(N) / 2 : -M_PI + 2 * M_PI * i / N, w = std::norm(v[i]); n += w; m += c * w; s += c * c * w; } m /= n; s = std::sqrt(std::max(0., s / n - m * m)); };
  auto v = qd::vec<1>(particle::wavePacket(particle::InitialCondition(x0, k0, sig_, inK), sp, kFlag)); double m, s;
  close(nrm(v), 1., 1e-12, "particle.wavePacket.norm", cfg);
  mom(toX(v), false, m, s); close(m, M_PI * x0, 1e-3, "particle.wavePacket.x", cfg, 0); close(s, inK ? 1 / (2 * sig_) : sig_, 1e-3, "particle.wavePacket.dx", cfg, 0);
  mom(toK(v), true, m, s); close(m, k0, 1e-3, "particle.wavePacket.k", cfg, 0); close(s, inK ? sig_ : 1 / (2 * sig_), 1e-3, "particle.wavePacket.dk", cfg, 0);
  int n = int(r.i(-1, 3)); double hs = r.u(.2, .35); auto w = qd::vec<1>(particle::hoState(n, particle::InitialCondition(x0 * .4, 0, hs), sp, kFlag)); int e = std::max(0, n);
  close(nrm(w), 1., 1e-12, "particle.hoState.norm", cfg);
  mom(toX(w), false, m, s); close(m, M_PI * x0 * .4, 1e-3, "particle.hoState.x", cfg, 0); close(s, hs * std::sqrt(e + .5), 1e-3, "particle.hoState.dx", cfg + fmt(" n=%d", n), 0);
  mom(toK(w), true, m, s); close(m, 0., 1e-3, "particle.hoState.k", cfg, 0); close(s, std::sqrt(e + .5) / hs, 1e-3, "particle.hoState.dk", cfg + fmt(" n=%d", n), 0);
  // dispatch of the initial condition from parameters
  parameters::Table pt; particle::ParsPumped pp(pt); pp.fin = fin; pp.hoInitn = int(r.i(-1, 2)); pp.omrec = r.u(.5, 1); pp.vClass = -r.u(50, 200); bool zero = r.b(); new (&pp.init) particle::InitialCondition(x0 * .4, 0., zero ? 0. : .25, false);
  auto q = qd::vec<1>(particle::init(pp)); double es = zero ? std::pow(pp.omrec / std::abs(pp.vClass), .25) / std::sqrt(2.) : .25; particle::InitialCondition ic(x0 * .4, 0., es, false);
  auto qe = pp.hoInitn < 0 ? qd::vec<1>(particle::wavePacket(ic, sp)) : qd::vec<1>(particle::hoState(pp.hoInitn, ic, sp)); check(dist(q, qe) < 1e-12, "particle.init", cfg);
  sig(cfg.substr(0, 12) + fmt("%d%d", kFlag, n));
}

// ---- multi-level
template <int NL, typename VP, typename VL> static void multi(Rng& r, VP etas, VL gammas, const char* name) {
  using namespace multilevel; RealPerLevel<NL> deltas; for (int k = 0; k < NL; ++k) deltas(k) = r.u(-4, 4);
  Mat G(NL); for (int k = 0; k < NL; ++k) G(size_t(k), size_t(k)) += I * deltas(k);
  boost::fusion::for_each(etas, [&](auto& e) { e = std::decay_t<decltype(e)>(r.b(.2) ? cplx(0) : r.c(2)); size_t f = size_t(std::decay_t<decltype(e)>::first), s = size_t(std::decay_t<decltype(e)>::second); G(f, s) += std::conj(e.get()); G(s, f) -= e.get(); });
  elem::Jumps js; Mat Gd = G;
  boost::fusion::for_each(gammas, [&](auto& g) { g = std::decay_t<decltype(g)>(r.u(.05, 2)); size_t f = size_t(std::decay_t<decltype(g)>::first), s = size_t(std::decay_t<decltype(g)>::second); G(s, s) -= g.get(); Mat J(NL), R(NL); J(f, s) = std::sqrt(2 * g.get()); R(s, s) = 2 * g.get(); js.push_back({J, R}); });
  int diff = int(r.i(0, 2)); std::vector<double> gp(NL, 0.); typename MultiLevelBase<NL>::Ptr m;
  if (diff == 0) m = makePumpedLossySch<NL>(deltas, etas, gammas, 0.);
  else if (diff == 1) { double g = r.u(.05, 1); gp.assign(NL, g); m = makePumpedLossySch<NL>(deltas, etas, gammas, g); }
  else { RealPerLevel<NL> g; for (int k = 0; k < NL; ++k) g(k) = gp[size_t(k)] = r.u(.05, 1); m = makePumpedLossySch<NL>(deltas, etas, gammas, g); }
  if (diff) for (size_t k = 0; k < NL; ++k) { Mat J = std::sqrt(2 * gp[k]) * id(NL); J(k, k) *= -1.; js.push_back({J, Mat()}); }
  Probe<1> p(m); std::string cfg = fmt("%s diffusion=%d", name, diff);
  elem::generator(r, p, G, "multilevel.generator", cfg, true); elem::jumps(r, p, js, "multilevel", cfg);
  elem::averages(r, p, "multilevel.averages", [&](const Mat& rho) { std::vector<double> e; for (size_t k = 0; k < NL; ++k) e.push_back(rho(k, k).real()); return e; });
  sig(cfg);
}
SCENARIO(multilevels, 90) {
  using namespace multilevel; using boost::fusion::make_vector;
  switch (r.i(0, 2)) {
    case 0: multi<2>(r, make_vector(Pump<0, 1>(0.)), make_vector(Decay<0, 1>(0.), Decay<1, 0>(0.)), "two-level"); break;
    case 1: multi<3>(r, make_vector(Pump<0, 2>(0.), Pump<1, 2>(0.)), make_vector(Decay<0, 2>(0.), Decay<1, 2>(0.)), "lambda"); break;
    default: multi<4>(r, make_vector(Pump<0, 1>(0.), Pump<1, 3>(0.), Pump<2, 3>(0.)), make_vector(Decay<0, 3>(0.), Decay<1, 3>(0.), Decay<2, 1>(0.)), "four-level"); }
}

// ---- the interface for user-defined elements: time arguments are delivered as documented for each level of time dependence
namespace user {
struct Times { mutable std::vector<double> v; };
template <structure::TimeDependence TD> struct Ham : structure::Free, structure::HamiltonianTimeDependenceDispatched<1, TD>, Times {
  Ham() : structure::Free(2) {}
  void addContribution_v(structure::time::Dispatcher_t<TD> t, const structure::StateVectorLow<1>& psi, structure::StateVectorLow<1>& d) const override {
    if constexpr (TD == structure::TimeDependence::TWO) v = {t.getT(), t.getT0()}; else if constexpr (TD == structure::TimeDependence::ONE) v = {double(t)}; else v = {}; d += psi; }
};
template <bool TWO> struct Ex : structure::Free, structure::ExactTimeDependenceDispatched<1, TWO>, Times {
  Ex() : structure::Free(2) {}
  bool applicableInMaster_v() const override { return true; }
  void actWithU_v(structure::time::DispatcherIsTwoTime_t<TWO> t, structure::StateVectorLow<1>& psi) const override { if constexpr (TWO) v = {t.getT(), t.getT0()}; else v = {double(t)}; psi *= 2.; }
};
template <bool TD> struct Li : structure::Free, structure::ElementLiouvillean<1, 3, TD>, structure::ElementAveraged<1, TD> {
  using T = structure::time::DispatcherIsTimeDependent_t<TD>;
  Li() : structure::Free(3), structure::ElementLiouvillean<1, 3, TD>("user", {"a", "b", "c"}), structure::ElementAveraged<1, TD>("user", {"x", "y"}) {}
  static double f(T t) { if constexpr (TD) return 1 + double(t) * double(t); else return 1.; }
  void doActWithJ(T t, structure::StateVectorLow<1>& psi, typename structure::lindblad::Base<3>::template LindbladNo<0>) const override { psi *= f(t); }
  void doActWithJ(T t, structure::StateVectorLow<1>& psi, typename structure::lindblad::Base<3>::template LindbladNo<1>) const override { psi(0) = f(t) * psi(1); psi(1) = psi(2) = 0.; }
  void doActWithJ(T t, structure::StateVectorLow<1>& psi, typename structure::lindblad::Base<3>::template LindbladNo<2>) const override { psi(1) = 2 * f(t) * psi(2); psi(0) = psi(2) = 0.; }
  double rate(T t, const quantumdata::LazyDensityOperator<1>& m, typename structure::lindblad::Base<3>::template LindbladNo<0>) const override { return f(t) * f(t) * m.trace(); }
  double rate(T t, const quantumdata::LazyDensityOperator<1>& m, typename structure::lindblad::Base<3>::template LindbladNo<1>) const override { return f(t) * f(t) * m(1); }
  double rate(T t, const quantumdata::LazyDensityOperator<1>& m, typename structure::lindblad::Base<3>::template LindbladNo<2>) const override { return 4 * f(t) * f(t) * m(2); }
  const structure::Averages average_v(T t, const quantumdata::LazyDensityOperator<1>& m) const override { auto a = this->initializedAverages(); a(0) = f(t) * m(0); a(1) = real(m(1)(2)); return a; }
};
} // user
SCENARIO(userElements, 40) {
  using structure::TimeDependence; double t = r.u(-3, 3), t0 = r.u(-3, 3); Vec v = randVec(r, 2);
  { auto h = std::make_shared<user::Ham<TimeDependence::TWO>>(); Probe<1> p(h); check(dist(p.H(t, t0, v), v) < 1e-15 && h->v == std::vector<double>{t, t0}, "dispatch.hamiltonian.two"); }
  { auto h = std::make_shared<user::Ham<TimeDependence::ONE>>(); Probe<1> p(h); check(dist(p.H(t, t0, v), v) < 1e-15 && h->v == std::vector<double>{t - t0}, "dispatch.hamiltonian.one"); }
  { auto h = std::make_shared<user::Ham<TimeDependence::NO>>(); Probe<1> p(h); check(dist(p.H(t, t0, v), v) < 1e-15, "dispatch.hamiltonian.no"); check(dist(p.U(t, t0, v), v) == 0 && p.nJ() == 0 && p.nA() == 0 && p.avg(t, qd::sv<1>(v, {2})).empty(), "dispatch.absent-parts"); }
  { auto h = std::make_shared<user::Ex<true>>(); Probe<1> p(h); check(dist(p.U(t, t0, v), scal(2., v)) < 1e-15 && h->v == std::vector<double>{t, t0}, "dispatch.exact.two"); check(dist(p.H(t, t0, v), Vec(2, 0.)) == 0, "dispatch.absent-hamiltonian"); }
  { auto h = std::make_shared<user::Ex<false>>(); Probe<1> p(h); check(dist(p.U(t, t0, v), scal(2., v)) < 1e-15 && h->v == std::vector<double>{t - t0}, "dispatch.exact.one"); }
  auto li = [&](auto tag, double f) { using L = typename decltype(tag)::type; Probe<1> p(std::make_shared<L>()); Vec w = randVec(r, 3); Mat rho = randRho(r, 3);
    Mat J0 = f * id(3), J1(3), J2(3); J1(0, 1) = f; J2(1, 2) = 2 * f; Mat J[] = {J0, J1, J2};
    auto rt = p.rates(t, qd::sv<1>(w, {3})); check(p.nJ() == 3 && rt.size() == 3, "dispatch.liouvillean.number"); for (size_t k = 0; k < 3; ++k) { check(dist(p.J(t, k), J[k]) < 1e-13 * f, "dispatch.liouvillean.jump"); close(rt[k], nrm2(J[k] * w), 1e-12, "dispatch.liouvillean.rate"); }
    Mat S; check(!p.S(t, 1, rho, S), "dispatch.liouvillean.missing-superoperator"); check(throws([&] { p.J(t, 3); }), "dispatch.liouvillean.range");
    auto a = p.avg(t, qd::dop<1>(rho, {3})); check(a.size() == 2, "dispatch.averaged.number"); close(a[0], f * rho(0, 0).real(), 1e-12, "dispatch.averaged.time"); close(a[1], rho(1, 2).real(), 1e-12, "dispatch.averaged"); };
  li(elem::tag<user::Li<true>>{}, 1 + t * t); li(elem::tag<user::Li<false>>{}, 1.);
  sig(fmt("%g", std::round(t * 4)));
}
