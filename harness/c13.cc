// C13: every interaction acts as its documented coupling, in the interaction picture of the elements it couples; correlation observables
#include "elem.h"
#include "fourier.h"
#include "JaynesCummings.h"
#include "CoupledModes.h"
#include "GeneralDicke.h"
#include "ParticleCavity.h"
#include "ParticleTwoModes_.h"
#include "ModeCorrelations.h"
#include "QbitModeCorrelations.h"
#include "IdenticalParticles.h"
#include "MLJC.h"
using namespace dense; using namespace vf; using probe::Probe; using namespace four;

static QM_Picture pict(Rng& r) { return r.pick(std::vector<QM_Picture>{QMP_IP, QMP_UIP, QMP_SCH}); }
static mode::Ptr someMode(Rng& r, size_t N, std::string& cfg) {
  parameters::Table pt; mode::ParsPumpedLossy pp(pt); pp.cutoff = N; pp.delta = r.b(.15) ? 0. : r.u(-6, 6); pp.omegaKerr = r.b(.7) ? 0. : r.u(-1, 1); pp.omegaKerrAlter = r.b(.7) ? 0. : r.u(-1, 1); pp.kappa = r.b(.3) ? 0. : r.u(.05, 2); pp.nTh = r.b(.6) ? 0. : r.u(.1, 2); pp.eta = r.b(.3) ? cplx(0) : r.c(3);
  auto q = pict(r); cfg += fmt("[mode N=%zu pict=%d kappa=%g delta=%g kerr=%g,%g]", N, int(q), pp.kappa, pp.delta, pp.omegaKerr, pp.omegaKerrAlter);
  switch (r.i(0, 3)) { case 0: return mode::make(static_cast<const mode::Pars&>(pp), q); case 1: return mode::make(static_cast<const mode::ParsLossy&>(pp), q); case 2: return mode::make(static_cast<const mode::ParsPumped&>(pp), q); default: return mode::make(pp, q); }
}
static qbit::Ptr someQbit(Rng& r, std::string& cfg) {
  parameters::Table pt; qbit::ParsPumpedLossyPhaseNoise pp(pt); pp.delta = r.b(.15) ? 0. : r.u(-6, 6); pp.gamma = r.b(.3) ? 0. : r.u(.05, 2); pp.eta = r.b(.3) ? cplx(0) : r.c(3); pp.gamma_parallel = r.b() ? 0. : r.u(.1, 1);
  auto q = pict(r); cfg += fmt("[qbit pict=%d gamma=%g delta=%g]", int(q), pp.gamma, pp.delta);
  return r.b() ? qbit::make(pp, q) : qbit::make(static_cast<const qbit::ParsPumpedLossy&>(pp), q);
}
struct SpinOps { Mat sp, sm, sx, sz; double s; size_t N; };
static spin::Ptr someSpin(Rng& r, SpinOps& o, std::string& cfg) {
  parameters::Table pt; spin::Pars pp(pt); size_t twoS = size_t(r.i(1, 6)); pp.twoS = twoS; pp.dim = r.b(.7) ? 0 : size_t(r.i(2, long(twoS) + 3)); pp.omega = r.u(-4, 4); pp.gamma = r.b(.4) ? 0. : r.u(.05, 1); pp.theta = r.u(0, 3); pp.phi = r.u(-3, 3);
  size_t N = o.N = pp.dim && pp.dim < twoS + 1 ? pp.dim : twoS + 1; o.s = twoS / 2.; o.sp = Mat(N); o.sz = Mat(N);
  for (size_t k = 0; k + 1 < N; ++k) o.sp(k + 1, k) = std::sqrt(double((twoS - k) * (k + 1))); for (size_t k = 0; k < N; ++k) o.sz(k, k) = double(k) - o.s; o.sm = dag(o.sp); o.sx = .5 * (o.sp + o.sm);
  bool sch = r.b(), lossy = r.b(); cfg += fmt("[spin 2S=%zu N=%zu sch=%d lossy=%d]", twoS, N, sch, lossy);
  if (sch) { if (lossy) return std::make_shared<LossySpinSch>(pp); return std::make_shared<SpinSch>(pp); } if (lossy) return std::make_shared<LossySpin>(pp); return std::make_shared<Spin>(pp);
}

template <int R> static void coupling(Rng& r, std::shared_ptr<const structure::Interaction<R>> ia, std::vector<structure::QuantumSystemPtr<1>> frees, const Mat& H, const std::string& key, const std::string& cfg, const std::vector<char>& inside = {}) {
  structure::QuantumSystemWrapper<R> w(ia); qd::Dims d; std::vector<Probe<1>> ps; double rate = .5; for (auto& f : frees) { ps.emplace_back(f); d.push_back(ps.back().N); rate = std::max(rate, ps.back().rateOfU(0.)); }
  size_t N = qd::total(d); if (!check(qd::dimsOf<R>(*ia) == d, key + ".dimensions", cfg)) return;
  check(!w.getLi() && !w.getEx(), key + ".interfaces", cfg);
  double mid = r.u(-4, 4);
  for (int k = 0; k < 3; ++k) {
    double t0 = k == 2 ? 0. : mid, t = t0 + (k == 0 && r.b() ? 0. : r.u(-1, 1) * std::min(3., 1.5 / rate));
    Mat u = id(1); for (auto& p : ps) u = kron(u, p.U(t, t0));
    Vec base = randVec(r, N, false); Mat h(N); // the contribution is added to whatever is there
    for (size_t j = 0; j < N; ++j) { Vec e(N, 0.); e[j] = 1.; auto a = qd::arr<R>(e, d), o = qd::arr<R>(base, d); w.addContribution(t, a, o, t0); Vec c = sub(qd::vec<R>(o), base); for (size_t i = 0; i < N; ++i) h(i, j) = c[i]; if (j == N / 2) check(dist(qd::vec<R>(a), e) == 0, key + ".input-changed", cfg); }
    Mat ui = inv(u), g = u * h * ui, e = (-I) * H, D = g - e; double cond = 1 + maxabs(u) * maxabs(ui), s = 1 + maxabs(H);
    if (inside.size()) for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (!inside[i] || !inside[j]) D(i, j) = 0.;
    if (!check(maxabs(D) <= 1e-10 * s * cond, key, cfg + fmt(" t=%g t0=%g deviation %g of %g", t, t0, maxabs(D), maxabs(H)))) return;
    // linearity on superpositions
    Vec v = randVec(r, N, false); auto a = qd::arr<R>(v, d), o = qd::arr<R>(base, d); w.addContribution(t, a, o, t0); check(dist(sub(qd::vec<R>(o), base), h * v) <= 1e-10 * s * cond * (1 + nrm(v)), key + ".superposition", cfg);
    count("couplings.observed");
  }
}

SCENARIO(jcOnQbits, 70) {
  std::string cfg; size_t N = size_t(r.i(2, 8)); auto m = someMode(r, N, cfg); auto q = someQbit(r, cfg); cplx g = r.b(.1) ? 0. : r.c(4); Mat a = lower(N), s = lower(2);
  Mat X = std::conj(g) * kron(s, dag(a)), H = I * (X - dag(X)); int k = int(r.i(0, 2)); jaynescummings::Ptr ia = k == 0 ? jaynescummings::make(q, m, g) : k == 1 ? jaynescummings::Ptr(std::make_shared<JaynesCummings<>>(q, m, g)) : jaynescummings::make<QbitModeCorrelations>(q, m, g);
  coupling<2>(r, ia, {q, m}, H, "jc.qbit", cfg + fmt(" g=%g,%g", g.real(), g.imag())); sig(fmt("%zu%d", N, k) + cfg.substr(0, 24)); sample(cfg);
}
SCENARIO(jcOnSpins, 60) {
  std::string cfg; size_t N = size_t(r.i(2, 6)); auto m = someMode(r, N, cfg); SpinOps o; auto q = someSpin(r, o, cfg); cplx g = r.c(4); Mat a = lower(N);
  Mat X = std::conj(g) * kron(o.sm, dag(a)), H = I * (X - dag(X)); coupling<2>(r, jaynescummings::make(q, m, g), {q, m}, H, "jc.spin", cfg + fmt(" g=%g,%g", g.real(), g.imag())); sig(cfg.substr(0, 16) + cfg.substr(cfg.find("[spin"))); sample(cfg);
}
SCENARIO(dickes, 60) {
  std::string cfg; size_t N = size_t(r.i(2, 6)); auto m = someMode(r, N, cfg); SpinOps o; auto q = someSpin(r, o, cfg); double u = r.b(.2) ? 0. : r.u(-3, 3), y = r.b(.2) ? 0. : r.u(-3, 3); Mat a = lower(N);
  Mat H = u * kron(number(N), o.sz + o.s * id(o.N)) + y * kron(a + dag(a), o.sx); coupling<2>(r, std::make_shared<GeneralDicke<>>(m, q, cplx(u), cplx(y)), {m, q}, H, "dicke", cfg + fmt(" u=%g y=%g", u, y)); sig(cfg.substr(0, 16) + cfg.substr(cfg.find("[spin"))); sample(cfg);
}
SCENARIO(coupledModePairs, 90) {
  std::string cfg; size_t N = size_t(r.i(2, 6)), M = size_t(r.i(2, 6)); auto m = someMode(r, N, cfg), n = someMode(r, M, cfg); cplx u = r.b(.1) ? 0. : r.c(3); Mat a = lower(N), b = lower(M), x = (1 / std::sqrt(2.)) * (a + dag(a)), y = (1 / std::sqrt(2.)) * (b + dag(b)); Mat H; coupledmodes::Ptr ia;
  using namespace coupledmodes; int k = int(r.i(0, 2)); bool corr = r.b(.3);
  switch (k) {
    case 0: H = u.real() * kron(number(N), y); ia = corr ? make<CM_NX, ModeCorrelations>(m, n, u) : make<CM_NX>(m, n, u); break;
    case 1: H = u.real() * kron(x, y); ia = corr ? make<CM_XX, ModeCorrelations>(m, n, u) : make<CM_XX>(m, n, u); break;
    default: { Mat X = std::conj(u) * kron(a, dag(b)); H = I * (X - dag(X)); ia = corr ? make<CM_XX_RWA, ModeCorrelations>(m, n, u) : make<CM_XX_RWA>(m, n, u); } }
  coupling<2>(r, ia, {m, n}, H, k == 0 ? "modes.nx" : k == 1 ? "modes.xx" : "modes.xx-rwa", cfg + fmt(" u=%g,%g", u.real(), u.imag())); check(corr == bool(std::dynamic_pointer_cast<const structure::Averaged<2>>(ia)), "modes.correlations-present"); sig(fmt("%zux%zu/%d", N, M, k) + cfg.substr(0, 22)); sample(cfg);
}

static particle::PtrPumped somePumped(Rng& r, size_t fin, std::string& cfg, double v, ModeFunctionType& mf, long& K) {
  parameters::Table pt; particle::ParsPumped pp(pt); pp.fin = fin; pp.omrec = r.u(.01, 1.); pp.vClass = v; pp.kPart = size_t(r.i(1, long(std::max<size_t>(1, (size_t(1) << fin) / 4)))); pp.modePart = r.pick(std::vector<ModeFunctionType>{MFT_SIN, MFT_COS, MFT_PLUS, MFT_MINUS}); mf = pp.modePart; K = long(pp.kPart);
  auto q = pict(r); cfg += fmt("[particle fin=%zu pict=%d mf=%d K=%ld v=%g]", fin, int(q), int(mf), K, v); return particle::makePumped(pp, q);
}
static particle::Ptr somePlain(Rng& r, size_t fin, std::string& cfg) { parameters::Table pt; particle::Pars pp(pt); pp.fin = fin; pp.omrec = r.u(.01, 1.); auto q = pict(r); cfg += fmt("[particle fin=%zu pict=%d]", fin, int(q)); return particle::make(pp, q); }
// basis states from which no intermediate state of a product of mode functions leaves the truncated momentum range
static std::vector<char> insideOf(size_t pre, size_t N, long K) { std::vector<char> in; for (size_t i = 0; i < pre; ++i) for (long n = 0; n < long(N); ++n) in.push_back(n >= K && n + K < long(N)); return in; }

SCENARIO(particleInCavity, 160) {
  std::string cfg; size_t N = size_t(r.i(2, 5)), fin = size_t(r.i(2, 4)), D = size_t(1) << fin; auto m = someMode(r, N, cfg); Mat a = lower(N), n = number(N); ModeFunctionType mf; long K;
  double U = (r.b() ? 1 : -1) * (r.b(.1) ? 0. : r.u(.1, 3)), v = (U > 0 ? 1 : U < 0 ? -1 : (r.b() ? 1 : -1)) * (r.b(.15) ? 0. : r.u(.1, 5)); auto part = somePumped(r, fin, cfg, v, mf, K);
  parameters::Table pt; particlecavity::ParsAlongGenericPump pp(pt); pp.uNot = U; pp.etaeff = r.b(.15) ? 0. : r.u(-3, 3); pp.kCav = size_t(r.b(.4) ? K : r.i(1, std::max(1L, long(D) / 4))); pp.modeCav = r.pick(std::vector<ModeFunctionType>{MFT_SIN, MFT_COS, MFT_PLUS, MFT_MINUS});
  long k = long(pp.kCav); ModeFunctionType c = pp.modeCav; double eta = (U > 0 ? 1. : -1.) * std::sqrt(U * v); if (U == 0) eta = 0;
  cfg += fmt(" U=%g etaeff=%g cav=%d,%ld", U, pp.etaeff, int(c), k);
  auto disp = [&] { Mat H(N * D); if (c == MFT_SIN || c == MFT_COS) H = U * kron(n, mat(prod(series(c, k), series(c, k)), D) - .5 * id(D)); return H; };
  auto scatter = [&](double e, const Mat& f) { Mat X = kron(dag(a), f); return e * (X + dag(X)); };
  int kind = int(r.i(0, 6)); Mat H; std::shared_ptr<const structure::Interaction<2>> ia; std::vector<char> in; structure::QuantumSystemPtr<1> p = part; std::string key;
  switch (kind) {
    case 0: key = "orthogonal"; ia = std::make_shared<ParticleOrthogonalToCavity>(m, part, static_cast<const particlecavity::ParsOrthogonal&>(pp)); H = scatter(eta, mat(series(mf, K), D)); break;
    case 1: { key = "orthogonal.generic-pump"; parameters::Table pt2; particlecavity::ParsOrthogonalGenericPump po(pt2); po.uNot = U; po.etaeff = pp.etaeff; ia = std::make_shared<ParticleOrthogonalToCavity>(m, part, po); H = scatter(po.etaeff, mat(series(mf, K), D)); break; }
    case 2: { key = "along.pump-orthogonal"; auto q = somePlain(r, fin, cfg); p = q; ia = std::make_shared<ParticleAlongCavity>(m, q, static_cast<const particlecavity::ParsAlong&>(pp), v); H = disp() + scatter(eta, dag(mat(series(c, k), D))); break; }
    case 3: { key = "along.no-pump"; auto q = somePlain(r, fin, cfg); p = q; ia = std::make_shared<ParticleAlongCavity>(m, q, static_cast<const particlecavity::ParsAlong&>(pp)); H = disp(); break; }
    case 4: { key = "along.generic-pump"; auto q = somePlain(r, fin, cfg); p = q; ia = std::make_shared<ParticleAlongCavity>(m, q, pp); H = disp() + scatter(pp.etaeff, dag(mat(series(c, k), D))); break; }
    case 5: key = "along.pump-along"; ia = std::make_shared<ParticleAlongCavity>(m, part, static_cast<const particlecavity::ParsAlong&>(pp)); H = disp() + scatter(eta, mat(prod(series(c, k), series(mf, K)), D)); in = insideOf(N, D, std::max(k, K)); break;
    default: key = "along.pump-along.generic"; ia = std::make_shared<ParticleAlongCavity>(m, part, pp); H = disp() + scatter(pp.etaeff, mat(prod(series(c, k), series(mf, K)), D)); in = insideOf(N, D, std::max(k, K)); break;
  }
  coupling<2>(r, ia, {m, p}, H, key, cfg, in); sig(fmt("%d/%zu/%zu/%d,%ld/%d,%ld", kind, N, fin, int(mf), K, int(c), k)); sample(cfg);
  if (U) { particlecavity::ParsAlong& pa = pp; std::string c2; ModeFunctionType f2; long K2; auto bad = somePumped(r, fin, c2, -U, f2, K2); check(throws([&] { ParticleAlongCavity x(m, bad, pa); }) && throws([&] { ParticleOrthogonalToCavity x(m, bad, pa); }), "particlecavity.sign-discrepancy-refused", cfg); }
}

SCENARIO(particleTwoModesRing, 70) {
  std::string cfg; size_t N = size_t(r.i(2, 3)), M = size_t(r.i(2, 3)), fin = size_t(r.i(2, 3)), D = size_t(1) << fin; auto m0 = someMode(r, N, cfg), m1 = someMode(r, M, cfg); auto p = somePlain(r, fin, cfg);
  parameters::Table pt; particlecavity::ParsAlong p0(pt, "0"), p1(pt, "1"); double s = r.b() ? 1 : -1; p0.uNot = s * r.u(.1, 3); p1.uNot = s * r.u(.1, 3); auto mfs = std::vector<ModeFunctionType>{MFT_SIN, MFT_COS, MFT_PLUS, MFT_MINUS}; p0.modeCav = r.pick(mfs); p1.modeCav = r.pick(mfs);
  p0.kCav = size_t(r.i(1, long(D) / 2 - 1)); p1.kCav = r.b() ? size_t(p0.kCav) : size_t(r.i(1, long(D) / 2 - 1)); double phi = r.b(.3) ? 0. : r.u(-3, 3);
  cfg += fmt(" U=%g,%g f=%d,%zu g=%d,%zu phi=%g", p0.uNot, p1.uNot, int(p0.modeCav), p0.kCav, int(p1.modeCav), p1.kCav, phi);
  Mat X = s * std::sqrt(p0.uNot * p1.uNot) * std::exp(I * phi) * kron(kron(dag(lower(N)), lower(M)), mat(prod(series(p0.modeCav, long(p0.kCav)), series(p1.modeCav, long(p1.kCav))), D));
  auto ia = r.b(.5) && !phi ? std::make_shared<ParticleTwoModes>(m0, m1, p, p0, p1) : std::make_shared<ParticleTwoModes>(m0, m1, p, p0, p1, phi);
  coupling<3>(r, ia, {m0, m1, p}, X + dag(X), p0.kCav == p1.kCav ? "two-modes.equal-wavenumbers" : "two-modes", cfg, insideOf(N * M, D, long(std::max(p0.kCav, p1.kCav)))); sig(fmt("%zu/%zu/%zu/%d,%zu/%d,%zu", N, M, fin, int(p0.modeCav), p0.kCav, int(p1.modeCav), p1.kCav)); sample(cfg);
  p0.uNot = -p0.uNot; check(throws([&] { ParticleTwoModes x(m0, m1, p, p0, p1); }), "two-modes.sign-discrepancy-refused", cfg);
}

template <int NL, typename VC> static void ml(Rng& r, VC gs, const char* name) {
  using namespace multilevel; using boost::fusion::make_vector; std::string cfg = name; size_t N = size_t(r.i(2, 5)); auto m = someMode(r, N, cfg); Mat a = lower(N), H(NL * N);
  RealPerLevel<NL> deltas; for (int k = 0; k < NL; ++k) deltas(k) = r.u(-4, 4);
  auto q = makePumpedLossySch<NL>(deltas, make_vector(Pump<0, 1>(r.c(1))), make_vector(Decay<0, 1>(r.u(.1, 1)), Decay<1, 0>(r.u(.1, 1))), 0.);
  boost::fusion::for_each(gs, [&](auto& g) { using G = std::decay_t<decltype(g)>; g = G(r.b(.15) ? cplx(0) : r.c(3)); Mat s(NL); s(size_t(G::first), size_t(G::second)) = 1.; Mat X = std::conj(g.get()) * kron(s, dag(a)); H = H + I * (X - dag(X)); });
  parameters::Table pt; mljc::Pars<VC> pp(pt); pp.gs = gs;
  coupling<2>(r, std::make_shared<MLJC<NL, VC>>(q, m, pp), {q, m}, H, "mljc", cfg); sig(cfg.substr(0, 20)); sample(cfg);
}
SCENARIO(multiLevelCouplings, 50) {
  using boost::fusion::make_vector;
  switch (r.i(0, 2)) { case 0: ml<2>(r, make_vector(Coupling<0, 1>(0.)), "two-level "); break; case 1: ml<3>(r, make_vector(Coupling<0, 2>(0.), Coupling<1, 2>(0.)), "lambda "); break; default: ml<4>(r, make_vector(Coupling<0, 3>(0.), Coupling<1, 2>(0.), Coupling<3, 2>(0.)), "four-level "); }
}

SCENARIO(correlations, 60) {
  std::string cfg; size_t N = size_t(r.i(2, 6)), M = size_t(r.i(2, 6)); auto m0 = someMode(r, N, cfg), m1 = someMode(r, M, cfg); auto q = someQbit(r, cfg); using probe::ex;
  auto run = [&](const structure::Averaged<2>& av, const qd::Dims& d, auto expected, const std::string& key, double floor) {
    for (int k = 0; k < 3; ++k) {
      size_t T = qd::total(d); Mat rho; structure::Averages got;
      if (k < 2) { Vec v = randVec(r, T); rho = dyad(v, v); got.reference(av.average(r.u(-2, 2), qd::sv<2>(v, d)).copy()); } else { rho = randRho(r, T, size_t(r.i(1, long(T)))); got.reference(av.average(r.u(-2, 2), qd::dop<2>(rho, d)).copy()); }
      av.process(got); auto e = expected(rho); if (!check(size_t(got.size()) == e.size() && av.nAvr() == e.size(), key + ".number")) return;
      for (size_t c = 0; c < e.size(); ++c) close(got(int(c)), e[c], 1e-11, key, fmt("column %zu %s %s", c, qd::str(d).c_str(), k < 2 ? "pure" : "mixed"), 1e-11);
      count("correlations.observed", long(e.size()));
    } (void)floor; };
  ModeCorrelations mc; QbitModeCorrelations qc;
  run(mc, {N, M}, [&](const Mat& rho) { std::vector<double> e; double rt2 = std::sqrt(2.);
    Mat a = kron(lower(N), id(M)), b = kron(id(N), lower(M)), na = kron(number(N), id(M)), nb = kron(id(N), number(M)); double x[2], y[2]; int w = 0;
    for (auto [A, n] : {std::pair{a, na}, std::pair{b, nb}}) { double m = ex(rho, n).real(), t = tr(rho).real(); cplx z = ex(rho, A), a2 = ex(rho, A * A); x[w] = rt2 * z.real(); y[w] = rt2 * z.imag(); for (double v : {m, ex(rho, n * n).real() - m * m, z.real(), z.imag(), m + .5 * t + a2.real() - x[w] * x[w], m + .5 * t - a2.real() - y[w] * y[w], a2.imag() - x[w] * y[w]}) e.push_back(v); ++w; }
    Mat X = (1 / rt2) * (a + dag(a)), Y = (-I / rt2) * (a - dag(a)), Q = (1 / rt2) * (b + dag(b)), P = (-I / rt2) * (b - dag(b));
    e.push_back(ex(rho, X * Q).real() - x[0] * x[1]); e.push_back(ex(rho, X * P).real() - x[0] * y[1]); e.push_back(ex(rho, Y * Q).real() - y[0] * x[1]); e.push_back(ex(rho, Y * P).real() - y[0] * y[1]); return e; }, "mode-correlations", 0);
  run(qc, {2, M}, [&](const Mat& rho) { std::vector<double> e; Mat s = kron(lower(2), id(M)), b = kron(id(2), lower(M)), z = kron(number(2) - .5 * id(2), id(M)); for (cplx c : {ex(rho, s * dag(b)), ex(rho, s * b), ex(rho, z * b)}) { e.push_back(c.real()); e.push_back(c.imag()); } return e; }, "qbit-mode-correlations", 0);
  sig(fmt("%zux%zu", N, M));
}
