// C12 (modes, qbits, two-level atom, matrix Hamiltonian): documented Hamiltonian, jumps, rates, damping, observables and initial states
#include "probe.h"
#include "elem.h"
#include "Mode.h"
#include "BichromaticMode.h"
#include "HomodynedMode.h"
#include "Qbit.h"
#include "PumpedTwoLevelAtom.h"
#include "TimeIndependentMatrixHamiltonian.h"
#include "AveragingUtils.h"
using namespace dense; using namespace vf; using probe::Probe;
static const cplx I(0, 1);

static void modeAverages(Rng& r, const Probe<1>& p, const std::string& key, int kind) {
  size_t N = p.N; Mat a = lower(N), n = number(N), ad = dag(a);
  Mat X = (1 / std::sqrt(2.)) * (a + ad), Y = (-I / std::sqrt(2.)) * (a - ad);
  elem::averages(r, p, key, [&](const Mat& rho) {
    using probe::ex; std::vector<double> e;
    double m = ex(rho, n).real(); e.push_back(m); e.push_back(ex(rho, n * n).real() - m * m); cplx A = ex(rho, a); e.push_back(A.real()); e.push_back(A.imag());
    if (kind & 1) { // truncation-free second moments: X^2=(a^2+a+^2+2n+1)/2
      double tr_ = tr(rho).real(); cplx a2 = ex(rho, a * a);
      double x = std::sqrt(2.) * A.real(), y = std::sqrt(2.) * A.imag();
      e.push_back(m + .5 * tr_ + a2.real() - x * x); e.push_back(m + .5 * tr_ - a2.real() - y * y); e.push_back(a2.imag() - x * y);
    }
    if (kind & 2) e.push_back(rho(N - 1, N - 1).real());
    return e; });
}

// all factories x pictures
SCENARIO(modes, 260) {
  parameters::Table pt; mode::ParsPumpedLossy pp(pt);
  size_t N = size_t(r.b(.2) ? r.i(1, 3) : r.i(3, 10)); if (N < 2) N = 2;
  pp.cutoff = N; pp.delta = r.b(.15) ? 0. : r.u(-6, 6); pp.omegaKerr = r.b(.6) ? 0. : r.u(-1, 1); pp.omegaKerrAlter = r.b(.7) ? 0. : r.u(-1, 1);
  pp.kappa = r.b(.2) ? 0. : r.u(.05, 3); pp.nTh = r.b(.5) ? 0. : r.u(.1, 2); pp.eta = r.b(.3) ? cplx(0) : r.c(3);
  QM_Picture qmp = r.pick(std::vector<QM_Picture>{QMP_IP, QMP_UIP, QMP_SCH});
  int kind = int(r.i(0, 3)), which = int(r.i(0, 3));
  bool lossy = which == 1 || which == 3, pumped = which >= 2;
  auto mk = [&](auto tag) -> mode::Ptr { using A = typename decltype(tag)::type;
    switch (which) { case 0: return mode::make<A>(static_cast<const mode::Pars&>(pp), qmp); case 1: return mode::make<A>(static_cast<const mode::ParsLossy&>(pp), qmp);
                     case 2: return mode::make<A>(static_cast<const mode::ParsPumped&>(pp), qmp); default: return mode::make<A>(pp, qmp); } };
  mode::Ptr m;
  switch (kind) { case 0: m = mk(elem::tag<mode::Averaged>{}); break; case 1: m = mk(elem::tag<mode::AveragedQuadratures>{}); break;
                  case 2: m = mk(elem::tag<mode::AveragedMonitorCutoff<>>{}); break; default: m = mk(elem::tag<mode::AveragedMonitorCutoff<mode::AveragedQuadratures>>{}); }
  Probe<1> p(m);
  double kappa = lossy ? pp.kappa : 0., nTh = lossy ? pp.nTh : 0.; cplx eta = pumped ? cplx(pp.eta) : 0.; double K = pp.omegaKerr + pp.omegaKerrAlter;
  std::string cfg = fmt("N=%zu delta=%g kappa=%g nTh=%g eta=%g,%g kerr=%g+%g pict=%d fam=%d", N, pp.delta, kappa, nTh, eta.real(), eta.imag(), pp.omegaKerr, pp.omegaKerrAlter, int(qmp), which);
  Mat n = number(N), a = lower(N);
  Mat G = -1. * (cplx(kappa * (2 * nTh + 1), -pp.delta) * n) + eta * dag(a) - std::conj(eta) * a - I * K * (n * n - n);
  elem::generator(r, p, G, "mode.generator", cfg, true);
  elem::Jumps js; if (kappa) { js.push_back({std::sqrt(2 * kappa * (nTh + 1)) * a, 2 * kappa * (nTh + 1) * n}); if (nTh) js.push_back({std::sqrt(2 * kappa * nTh) * dag(a), 2 * kappa * nTh * (n + id(N))}); }
  elem::jumps(r, p, js, "mode", cfg);
  modeAverages(r, p, "mode.averages", kind);
  // ladder and number operators offered to interactions follow the mode's own picture
  double t0 = r.u(-2, 2), t = t0 + r.u(-.3, .3);
  elem::tridiag(p, mode::aop(m), a, t, t0, "mode.aop", cfg); elem::tridiag(p, mode::nop(m), n, t, t0, "mode.nop", cfg);
  elem::tridiag(p, mode::xop(m), (1 / std::sqrt(2.)) * (a + dag(a)), t, t0, "mode.xop", cfg);
  check(p.q.applicableInMaster() == !(kappa && qmp == QMP_IP), "mode.applicableInMaster", cfg);
  sig(fmt("%zu/%d/%d/%d/%d%d%d%d", N, kind, which, int(qmp), kappa != 0, nTh != 0, eta != 0., pp.omegaKerr != 0) + (pp.omegaKerrAlter != 0 ? "a" : "")); sample(cfg);
}

SCENARIO(modeVariants, 60) {
  size_t N = size_t(r.i(2, 9)); bool T = r.b(); Mat n = number(N), a = lower(N);
  { parameters::Table pt; mode::ParsPumpedLossy pp(pt); pp.cutoff = N; pp.delta = r.u(-4, 4); pp.kappa = r.u(.1, 2); pp.nTh = T ? r.u(.1, 1.5) : 0.; pp.eta = r.c(2); pp.omegaKerr = r.b() ? 0. : r.u(-1, 1); pp.omegaKerrAlter = 0;
    structure::QuantumSystemPtr<1> m; if (T) m = std::make_shared<PumpedLossyModeAlternative<true>>(pp); else m = std::make_shared<PumpedLossyModeAlternative<false>>(pp);
    Probe<1> p(m); cplx eta = pp.eta;
    Mat G = -1. * (cplx(pp.kappa * (2 * pp.nTh + 1), -pp.delta) * n) + eta * dag(a) - std::conj(eta) * a - I * pp.omegaKerr * (n * n - n);
    elem::generator(r, p, G, "mode.alternative.generator", fmt("N=%zu nTh=%g", N, pp.nTh), true);
    elem::Jumps js{{std::sqrt(2 * pp.kappa * (pp.nTh + 1)) * a, Mat()}}; if (T) js.push_back({std::sqrt(2 * pp.kappa * pp.nTh) * dag(a), Mat()});
    elem::jumps(r, p, js, "mode.alternative", ""); }
  { parameters::Table pt; mode::ParsHomodyned<mode::ParsPumpedLossy> pp(pt); pp.cutoff = N; pp.delta = r.u(-4, 4); pp.kappa = r.u(.1, 2); pp.nTh = T ? r.u(.1, 1.5) : 0.; pp.eta = r.b(.3) ? cplx(0) : r.c(2); pp.homodyneAmplitude = r.c(3); pp.omegaKerr = r.b() ? 0. : r.u(-1, 1); pp.omegaKerrAlter = r.b() ? 0. : r.u(-1, 1);
    Probe<1> p(mode::make<mode::Averaged>(pp)); cplx eta = pp.eta, b = pp.homodyneAmplitude; double t = r.u(-2, 2);
    std::string cfg = fmt("homodyne N=%zu nTh=%g b=%g,%g", N, pp.nTh, b.real(), b.imag());
    // documented: jumps A+sqrt(2kappa(nTh+1))a and A*+sqrt(2kappa nTh)a+, same Liouvillean as the lossy mode (below the truncation edge)
    check(p.nJ() == 2, "mode.homodyne.njumps", cfg);
    Mat J0 = b * id(N) + std::sqrt(2 * pp.kappa * (pp.nTh + 1)) * a, J1 = std::conj(b) * id(N) + std::sqrt(2 * pp.kappa * pp.nTh) * dag(a);
    check(dist(p.J(t, 0), J0) < 1e-11, "mode.homodyne.jump0", cfg); check(dist(p.J(t, 1), J1) < 1e-11, "mode.homodyne.jump1", cfg);
    Mat A0 = -1. * (cplx(pp.kappa * (2 * pp.nTh + 1), -pp.delta) * n) + eta * dag(a) - std::conj(eta) * a - I * (pp.omegaKerr + pp.omegaKerrAlter) * (n * n - n);
    Mat L0 = std::sqrt(2 * pp.kappa * (pp.nTh + 1)) * a, L1 = std::sqrt(2 * pp.kappa * pp.nTh) * dag(a);
    Mat A = p.gen(t, t, 50.); Mat rho = randRho(r, N);
    auto lind = [&](const Mat& A, const Mat& x, const Mat& y) { return A * rho + rho * dag(A) + x * rho * dag(x) + y * rho * dag(y); };
    Mat D = lind(A, J0, J1) - lind(A0, L0, L1); cplx c = tr(D) / tr(rho); D = D - c * rho;   // constants dropped from the non-Hermitian Hamiltonian only rescale
    check(maxabs(D) < 1e-9, "mode.homodyne.liouvillean", cfg + fmt(" deviation %g", maxabs(D))); }
  { parameters::Table pt; mode::ParsBichromatic pp(pt); pp.cutoff = N; pp.delta = r.u(-4, 4); pp.deltaOther = r.u(-4, 4); pp.kappa = r.u(.1, 1); pp.nTh = T ? r.u(.1, 1) : 0.; pp.eta = r.c(2); pp.etaOther = r.c(2); pp.omegaKerr = r.b() ? 0. : r.u(-.5, .5); pp.omegaKerrAlter = 0;
    Probe<1> p(mode::make<mode::Averaged>(pp, QMP_IP)); cplx eta = pp.eta, eo = pp.etaOther;
    auto G = [&](double t) { cplx e = eta + eo * std::exp(-I * (pp.deltaOther - pp.delta) * t) ;
      return -1. * (cplx(pp.kappa * (2 * pp.nTh + 1), -pp.delta) * n) + e * dag(a) - std::conj(e) * a - I * pp.omegaKerr * (n * n - n); };
    double t = r.u(-1, 1), scale = (5 + 6 * std::abs(pp.omegaKerr) * N) * N;
    Mat g = p.gen(t, 0, scale), g2 = G(t);
    check(dist(g, g2) < 1e-6 * scale, "mode.bichromatic.generator", fmt("N=%zu t=%g dist=%g", N, t, dist(g, g2)));
    double t0 = t + r.u(.2, .5) * (r.b() ? 1 : -1);
    Mat g3 = p.gen(t, t0, scale); check(std::min(dist(g3, G(t)), dist(g3, G(t - t0))) < 1e-6 * scale, "mode.bichromatic.generator-with-t0", fmt("t=%g t0=%g", t, t0));
    check(dist(g3, G(t)) < 1e-6 * scale, "mode.bichromatic.second-pump-phase-restarts-with-t0", fmt("t=%g t0=%g", t, t0));
    elem::Jumps js{{std::sqrt(2 * pp.kappa * (pp.nTh + 1)) * a, 2 * pp.kappa * (pp.nTh + 1) * n}}; if (pp.nTh) js.push_back({std::sqrt(2 * pp.kappa * pp.nTh) * dag(a), 2 * pp.kappa * pp.nTh * (n + id(N))}); elem::jumps(r, p, js, "mode.bichromatic", ""); }
  sig(fmt("%zu%d", N, T));
}

SCENARIO(modeStates, 60) {
  size_t N = size_t(r.i(1, 40)); size_t k = size_t(r.i(0, long(N) + 2)); double ph = r.u(-3, 3);
  if (k < N) { auto v = qd::vec<1>(mode::fock(k, N, ph)); Vec e(N, 0.); e[k] = std::exp(I * ph); check(dist(v, e) < 1e-15, "mode.fock"); }
  else check(throws([&] { mode::fock(k, N, ph); }), "mode.fock.refused", fmt("n=%zu dim=%zu", k, N));
  cplx al = r.c(1.5); size_t M = 45; auto c = qd::vec<1>(mode::coherent(al, M)); Mat rho = dyad(c, c);
  close(nrm(c), 1., 1e-10, "mode.coherent.norm"); close(probe::ex(rho, lower(M)), al, 1e-9, "mode.coherent.amplitude"); close(probe::ex(rho, number(M)).real(), std::norm(al), 1e-9, "mode.coherent.number");
  { // coefficients alpha^n/sqrt(n!) e^{-|alpha|^2/2} also for truncated or large fields
    cplx b = r.c(r.b(.3) ? 12. : 3.); size_t D = size_t(r.i(1, 120)); auto v = qd::vec<1>(mode::coherent(b, D)); 
    for (size_t n = 0; n < D; ++n) { cplx x = b == 0. ? cplx(n == 0) : std::exp(double(n) * std::log(b) - .5 * std::lgamma(n + 1.) - std::norm(b) / 2); close(v[n], x, 1e-12, "mode.coherent.element", fmt("n=%zu alpha=%g,%g", n, b.real(), b.imag()), 1e-9); } }
  parameters::Table pt; mode::Pars pp(pt); pp.cutoff = N; pp.minit = al; pp.minitFock = size_t(r.i(0, long(N) - 1));
  if (r.b(.3)) { double a = r.u(10, 50); size_t D = size_t(a * a + 14 * a); cplx be = std::polar(a, r.b() ? 0. : r.u(-M_PI, M_PI)); auto w = qd::vec<1>(mode::coherent(be, D)); double n2 = 0, mean = 0, sq = 0; for (size_t n = 0; n < D; ++n) { double q = std::norm(w[n]); n2 += q; mean += double(n) * q; sq += double(n) * double(n) * q; } std::string wh = fmt("alpha=%g,%g cutoff=%zu", be.real(), be.imag(), D); close(n2, 1., 1e-9, "mode.coherent.large.norm", wh); close(mean / (a * a), 1., 1e-9, "mode.coherent.large.number", wh); close((sq - mean * mean) / (a * a), 1., 1e-5, "mode.coherent.large.variance", wh); }
  auto v = qd::vec<1>(mode::init(pp)), e = pp.minitFock ? qd::vec<1>(mode::fock(pp.minitFock, N)) : qd::vec<1>(mode::coherent(al, N)); check(dist(v, e) < 1e-15, "mode.init");
  { Vec w = randVec(r, N); Mat R = randRho(r, N); close(mode::photonNumber(qd::arr<1>(w, {N})), probe::ex(dyad(w, w), number(N)).real(), 1e-11, "mode.photonNumber.low"); close(mode::photonNumber(qd::dop<1>(R, {N})), probe::ex(R, number(N)).real(), 1e-11, "mode.photonNumber.rho"); }
  cplx p1 = r.c(.7); auto q = qd::vec<1>(qbit::init(p1)); close(nrm(q), 1., 1e-14, "qbit.init.norm"); close(q[1], p1, 1e-15, "qbit.init.excited");
  check(dist(qd::vec<1>(qbit::state0()), Vec{1., 0.}) == 0 && dist(qd::vec<1>(qbit::state1()), Vec{0., 1.}) == 0, "qbit.states");
  sig(fmt("%zu,%zu", N, k));
}

SCENARIO(qbits, 200) {
  parameters::Table pt; qbit::ParsPumpedLossyPhaseNoise pp(pt);
  pp.delta = r.b(.15) ? 0. : r.u(-6, 6); pp.gamma = r.b(.2) ? 0. : r.u(.05, 3); pp.eta = r.b(.3) ? cplx(0) : r.c(3); pp.gamma_parallel = r.b(.5) ? 0. : r.u(.05, 2);
  QM_Picture qmp = r.pick(std::vector<QM_Picture>{QMP_IP, QMP_UIP, QMP_SCH});
  bool pn = r.b() && pp.gamma_parallel; auto m = pn || r.b() ? qbit::make(pp, qmp) : qbit::make(static_cast<const qbit::ParsPumpedLossy&>(pp), qmp);
  Probe<1> p(m); bool two = pp.gamma_parallel && p.nJ() == 2; (void)two;
  std::string cfg = fmt("delta=%g gamma=%g par=%g eta=%g,%g pict=%d", pp.delta, pp.gamma, pp.gamma_parallel, pp.eta.real(), pp.eta.imag(), int(qmp));
  Mat s = lower(2), n = number(2), sz = id(2) - 2. * n; cplx eta = pp.eta;
  Mat G = -1. * (cplx(pp.gamma, -pp.delta) * n) + std::conj(eta) * s - eta * dag(s);
  elem::generator(r, p, G, "qbit.generator", cfg, true);
  elem::Jumps js; if (pn) { js.push_back({std::sqrt(2 * pp.gamma) * s, Mat()}); js.push_back({std::sqrt(2 * pp.gamma_parallel) * sz, Mat()}); }
  else if (pp.gamma && !(p.nJ() == 2)) js.push_back({std::sqrt(2 * pp.gamma) * s, 2 * pp.gamma * n});
  else if (p.nJ() == 2) { js.push_back({std::sqrt(2 * pp.gamma) * s, Mat()}); js.push_back({std::sqrt(2 * pp.gamma_parallel) * sz, Mat()}); }
  elem::jumps(r, p, js, "qbit", cfg);
  elem::averages(r, p, "qbit.averages", [&](const Mat& rho) { cplx x = probe::ex(rho, s); return std::vector<double>{rho(0, 0).real(), rho(1, 1).real(), x.real(), x.imag()}; });
  double t0 = r.u(-2, 2), t = t0 + r.u(-.5, .5);
  elem::tridiag(p, qbit::sigmaop(m), s, t, t0, "qbit.sigmaop", cfg); elem::tridiag(p, qbit::sigmadagsigmaop(), n, t, t0, "qbit.sigmadagsigmaop", cfg);
  { qbit::ParsPumpedLossy& q = pp; Probe<1> p2(structure::QuantumSystemPtr<1>(std::make_shared<PumpedTwoLevelAtomSch>(q)));
    elem::generator(r, p2, G, "ptla.generator", cfg, true); elem::jumps(r, p2, {{std::sqrt(2 * pp.gamma) * s, 2 * pp.gamma * n}}, "ptla", cfg);
    elem::averages(r, p2, "ptla.averages", [&](const Mat& rho) { cplx x = probe::ex(rho, s); return std::vector<double>{rho(0, 0).real(), rho(1, 1).real(), x.real(), x.imag()}; }); }
  { size_t N = size_t(r.i(1, 6)); Mat A = randMat(r, N); linalg::CMatrix c{int(N), int(N)}; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) c(int(i), int(j)) = A(i, j);
    auto q = std::make_shared<TimeIndependentMatrixHamiltonian>(c); c = 0.; Probe<1> p3(q); elem::generator(r, p3, A, "matrix.generator", "", true); long n = r.i(1, 5), m = r.i(1, 5); if (n != m) { linalg::CMatrix bad{int(n), int(m)}; bad = 1.; check(throws([&] { TimeIndependentMatrixHamiltonian h(bad); }), "matrix.not-square", fmt("%ldx%ld", n, m)); } }
  sig(fmt("%d%d%d%d%d", int(qmp), pp.delta != 0, pp.gamma != 0, pn, eta != 0.)); sample(cfg);
}

// averaging helpers: collection of several averaging strategies, reduced density operator, negativity
SCENARIO(averagingHelpers, 60) {
  size_t N = size_t(r.i(2, 6)); bool off = r.b();
  averagingUtils::Collecting<1>::Collection col; std::vector<std::pair<int, size_t>> kinds; int k = int(r.i(1, 4));
  for (int i = 0; i < k; ++i) switch (int w = int(r.i(0, 2))) { case 0: col.push_back(new mode::Averaged()); kinds.push_back({w, 4}); break; case 1: col.push_back(new mode::AveragedQuadratures()); kinds.push_back({w, 7}); break;
    default: col.push_back(new ReducedDensityOperator<1>("", N, off)); kinds.push_back({w, off ? N * N : N}); }
  parameters::Table pt; mode::ParsPumpedLossy pp(pt); pp.cutoff = N; Probe<1> p(mode::make<averagingUtils::Collecting<1>>(pp, QMP_SCH, col));
  Mat rho = randRho(r, N), a = lower(N), n = number(N); std::vector<double> e; using probe::ex;
  for (auto& q : kinds) {
    if (q.first < 2) { double m = ex(rho, n).real(); cplx A = ex(rho, a); e.insert(e.end(), {m, ex(rho, n * n).real() - m * m, A.real(), A.imag()});
      if (q.first == 1) { cplx a2 = ex(rho, a * a); double x = std::sqrt(2.) * A.real(), y = std::sqrt(2.) * A.imag(); e.insert(e.end(), {m + .5 + a2.real() - x * x, m + .5 - a2.real() - y * y, a2.imag() - x * y}); } }
    else { for (size_t i = 0; i < N; ++i) e.push_back(rho(i, i).real()); if (off) for (size_t i = 0; i < N; ++i) for (size_t j = i + 1; j < N; ++j) { e.push_back(rho(i, j).real()); e.push_back(rho(i, j).imag()); } }
  }
  auto g = p.avg(0., qd::dop<1>(rho, {N})); if (check(g.size() == e.size() && p.nA() == e.size(), "averaging.collecting.size", fmt("%zu %zu", g.size(), e.size()))) for (size_t i = 0; i < e.size(); ++i) close(g[i], e[i], 1e-11, "averaging.collecting", fmt("col %zu", i));
  // negativity display on two subsystems
  qd::Dims d{size_t(r.i(1, 3)), size_t(r.i(2, 3))}; Mat R = randRho(r, qd::total(d), size_t(r.i(1, 3))); size_t M = R.r;
  ReducedDensityOperatorNegativity<2, tmptools::Vector<0>> rn("x", qd::tiny<2>(d)); const structure::Averaged<2>& av = rn;
  auto raw = av.average(0., qd::dop<2>(R, d)); structure::Averages w(raw.copy()); av.process(w);
  Mat pt0(M); for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < M; ++j) { size_t i0 = i / d[1], i1 = i % d[1], j0 = j / d[1], j1 = j % d[1]; pt0(j0 * d[1] + i1, i0 * d[1] + j1) = R(i, j); }
  double neg = 0; for (double x : eigh(pt0)) if (x < 0) neg -= x;
  if (check(w.size() == M * M + 1 && av.nAvr() == M * M + 1, "averaging.negativity.size", fmt("%d %zu", int(w.size()), av.nAvr()))) {
    size_t q = 0; for (size_t i = 0; i < M; ++i) close(w(int(q++)), R(i, i).real(), 1e-12, "averaging.negativity.diagonal");
    for (size_t i = 0; i < M; ++i) for (size_t j = i + 1; j < M; ++j) { close(w(int(q)), R(i, j).real(), 1e-12, "averaging.negativity.re"); close(w(int(q + 1)), R(i, j).imag(), 1e-12, "averaging.negativity.im"); q += 2; }
    close(w(int(q)), neg, 1e-9, "averaging.negativity.value"); }
  sig(fmt("%zu%d%d", N, k, off));
}
