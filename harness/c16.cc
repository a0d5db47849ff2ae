// C16: the same physical system built in different pictures: one generator, one set of jumps and averages, one evolution.
#include "elem.h"
#include "script_engine.h"
#include "real.h"
#include "Mode.h"
#include "Qbit.h"
#include "Spin.h"
#include "Particle.h"
#include "JaynesCummings.h"
#include "CoupledModes.h"
#include "ParticleCavity.h"
#include "GeneralDicke.h"
#include "BinarySystem.h"
#include "Composite.tcc"
#include "Master.h"
#include "MCWF_Trajectory.h"
#include "EvolutionMethod.h"
#include "Evolution_.h"
#include "QM_Picture.h"
using namespace dense; using namespace vf; using probe::Probe; using qd::Dims;
using quantumdata::StateVector; using quantumdata::DensityOperator;
namespace {
struct Pars { parameters::Table t; quantumtrajectory::master::Pars p{t}; Pars(double e) { p.epsRel = p.epsAbs = e; } };
template <int R> using Ptr = structure::QuantumSystemPtr<R>;
template <int R> struct Pic { Ptr<R> s; std::string name; };
template <int R, typename M> Mat stateOf(M& m) { std::ostringstream os; { cppqedutils::oarchive oa(os); m.stateIO(oa); } std::istringstream is(os.str()); cppqedutils::iarchive ia(is); CArray<2 * R> a; ia & a; return qd::mat<R>(a); }

template <int R> void same(Rng& r, const std::vector<Pic<R>>& v, const std::string& key, const std::string& cfg) {
  Probe<R> p0(v[0].s); size_t N = p0.N; Dims d = p0.d; double scale = .1;
  double t = r.u(-3, 3); Vec psi = randVec(r, N); Mat rho = randRho(r, N, 2); auto dop = qd::dop<R>(rho, d);
  // instantaneous: generator, jumps, rates, averages
  Mat g0; std::vector<double> a0, l0; std::vector<Mat> j0; double size = 1;
  for (size_t k = 0; k < v.size(); ++k) {
    Probe<R> p(v[k].s); if (!check(p.d == d, key + ".dimensions", cfg)) return; double sc = std::max(.1, p.rateOfU(0.)), t0 = t - r.u(0, .5) / sc; Mat g = p.gen(t, t0, sc); std::vector<double> a = p.avg(t, dop), l; std::vector<Mat> j; for (size_t m = 0; m < p.nJ(); ++m) j.push_back(p.J(t, m)); if (p.nJ()) l = p.rates(t, dop);
    if (!k) { g0 = g; a0 = a; l0 = l; j0 = j; size = std::max(maxabs(g), sc); for (auto& x : j) size = std::max(size, maxabs(x)); scale = size; continue; }
    check(distUpToId(g, g0) <= 2e-7 * std::max(size, sc), key + ".generator", cfg + " " + v[k].name + fmt(" deviation %g of %g", distUpToId(g, g0), size));
    if (check(a.size() == a0.size() && j.size() == j0.size() && l.size() == l0.size(), key + ".numbers", cfg + " " + v[k].name)) { for (size_t m = 0; m < a.size(); ++m) close(a[m], a0[m], 1e-10, key + ".averages", cfg + " " + v[k].name, 1e-10); for (size_t m = 0; m < j.size(); ++m) { check(dist(j[m], j0[m]) <= 1e-10 * size, key + ".jumps", cfg + " " + v[k].name); close(l[m], l0[m], 1e-10, key + ".rates", cfg + " " + v[k].name, 1e-9); } }
    count("instantaneous-comparisons");
  }
  // evolution without jumps, then a dictated jump, then again without
  double T1 = r.u(.2, 1.5) / std::max(1., scale / 4), T2 = T1 + r.u(.1, .7) / std::max(1., scale / 4); using OE = cppqedutils::ODE_EngineBoost<quantumdata::StateVectorLow<R>>; double eps = 1e-10; size_t channel = j0.empty() ? 0 : size_t(r.i(0, long(j0.size()) - 1)); bool jump = !j0.empty() && r.b(.8);
  Mat r1, r2; bool possible = true;
  for (size_t k = 0; k < v.size() && possible; ++k) {
    tape() = Tape(); quantumtrajectory::MCWF_Trajectory<R, OE, ScriptEngine> m(v[k].s, qd::sv<R>(psi, d), OE{quantumtrajectory::initialTimeStep(v[k].s), 0, eps, eps}, {1ul, 1ul}, .05, 10., 0); std::ostringstream log; size_t steps = 0;
    auto go = [&](double T) { while (double dt = T - m.getTime()) { tape().next.push_back(1 - 1e-9); m.step(dt, log); tape().next.clear(); if (++steps > 300000) return false; } return true; };
    if (!check(go(T1), key + ".progress", cfg)) return; Vec x = qd::vec<R>(m.getStateVector()); Mat y = dyad(x, x);
    if (!k) r1 = y; else { double D = dist(y, r1); check(D <= 3e-7, key + ".evolution", cfg + " " + v[k].name + fmt(" T=%g deviation %g", T1, D)); }
    if (jump) { double before = 0, rate = 0; auto ra = Probe<R>(v[k].s).rates(m.getTime(), m.getStateVector()); /* (at the truncation edge they differ from the norm of the jumped state) */ for (size_t q = 0; q <= channel; ++q) { rate = ra[q] < 0 ? nrm2(j0[q] * x) : ra[q]; if (q < channel) before += rate; } if (rate < 1e-3) { possible = false; break; }
      double h = 1e-7; double tB = m.getTime(); tape().next.push_back((before + .5 * rate) * h); m.step(h, log); tape().next.clear(); if (std::abs(m.getTime() - tB - h) > 1e-9 * h * 1e3) { possible = false; break; } auto& tr = m.getLogger().getTrajectory(); if (!check(tr.size() == 1 && tr.back().second == channel, key + ".jump-occurs", cfg + " " + v[k].name + fmt(" %zu jumps, channel %zu for %zu of %zu, before %g rate %g dt %g", tr.size(), tr.empty() ? 99 : tr.back().second, channel, j0.size(), before, rate, m.getDtDid()))) return; }
    if (!check(go(T2), key + ".progress", cfg)) return; x = qd::vec<R>(m.getStateVector()); y = dyad(x, x); if (!k) r2 = y; else { double D = dist(y, r2); check(D <= (jump ? 3e-5 : 6e-7), key + ".evolution-after-jump", cfg + " " + v[k].name + fmt(" T=%g jump %d channel %zu deviation %g", T2, jump, channel, D)); count(jump ? "evolutions-with-jump" : "evolutions-without-jump"); }
    count("steps", long(steps));
  }
  // master equation in the pictures that allow it
  Mat m0; bool have = false; using ME = cppqedutils::ODE_EngineBoost<quantumdata::DensityOperatorLow<R>>;
  if (N <= 12) for (auto& x : v) if (Probe<R>(x.s).q.applicableInMaster()) { Pars p(1e-8); auto m = quantumtrajectory::master::make<ME, tmptools::V_Empty>(x.s, qd::dop<R>(rho, d), p.p, quantumtrajectory::EntanglementMeasuresSwitch{}); cppqedutils::advance(m, T1); Mat y = stateOf<R>(m); if (!have) { m0 = y; have = true; } else { double D = dist(y, m0); check(D <= 1e-5, key + ".master", cfg + " " + x.name + fmt(" T=%g deviation %g", T1, D)); count("master-comparisons"); } }
  sig(key + cfg.substr(0, 40)); sample(cfg);
}
using real::all; using real::nm; using real::ModeP; using real::QbitP; using real::SpinP;
} // namespace
SCENARIO(modePictures, 40) { ModeP m(r, size_t(r.i(2, 8))); std::vector<Pic<1>> v; for (int k = 0; k < 3; ++k) v.push_back({m.make(all[size_t(k)]), nm[k]}); r.shuffle(v); same<1>(r, v, "mode", m.cfg); }
SCENARIO(qbitPictures, 40) { QbitP q(r); std::vector<Pic<1>> v; for (int k = 0; k < 3; ++k) v.push_back({q.make(all[size_t(k)]), nm[k]}); r.shuffle(v); same<1>(r, v, "qbit", q.cfg); }
SCENARIO(spinPictures, 30) { SpinP q(r); std::vector<Pic<1>> v{{q.make(false), "IP"}, {q.make(true), "Sch"}}; r.shuffle(v); same<1>(r, v, "spin", q.cfg); }
SCENARIO(particlePictures, 20) { parameters::Table t; particle::ParsPumped pp(t); pp.fin = size_t(r.i(2, 4)); pp.omrec = r.u(.02, .3); pp.vClass = r.b(.2) ? 0. : r.u(-3, 3); pp.kPart = size_t(r.i(1, 2)); pp.modePart = r.pick(std::vector<ModeFunctionType>{MFT_SIN, MFT_COS, MFT_PLUS, MFT_MINUS}); bool pumped = r.b(.7);
  std::vector<Pic<1>> v; for (int k = 0; k < 3; ++k) v.push_back({pumped ? Ptr<1>(particle::makePumped(pp, all[size_t(k)])) : Ptr<1>(particle::make(pp, all[size_t(k)])), nm[k]}); r.shuffle(v); same<1>(r, v, "particle", fmt("[particle fin=%zu pumped=%d v=%g]", size_t(pp.fin), pumped, double(pp.vClass))); }
SCENARIO(jaynesCummingsPictures, 24) { ModeP m(r, size_t(r.i(2, 5))); QbitP q(r); cplx g = r.c(2); std::vector<Pic<2>> v; for (int k = 0; k < 4; ++k) { auto a = r.pick(all), b = r.pick(all); if (k < 3) a = b = all[size_t(k)]; v.push_back({binary::make(jaynescummings::make(q.make(a), m.make(b), g)), fmt("%s-%s", nm[a], nm[b])}); } r.shuffle(v); same<2>(r, v, "jc", q.cfg + m.cfg); }
SCENARIO(dickePictures, 16) { ModeP m(r, size_t(r.i(2, 4))); SpinP s(r); s.lossy = false; double u = r.u(-1, 1), y = r.u(-1, 1); std::vector<Pic<2>> v; for (int k = 0; k < 4; ++k) { auto a = r.pick(all); bool sch = r.b(); v.push_back({binary::make(std::make_shared<GeneralDicke<>>(m.make(a), s.make(sch), cplx(u), cplx(y))), fmt("%s-sch%d", nm[a], sch)}); } same<2>(r, v, "dicke", s.cfg + m.cfg); }
SCENARIO(particleCavityPictures, 14) { ModeP m(r, size_t(r.i(2, 3))); parameters::Table t; particle::Pars pp(t); pp.fin = size_t(r.i(2, 3)); pp.omrec = r.u(.02, .3); parameters::Table tc; particlecavity::ParsAlong pc(tc); pc.uNot = r.u(-1, 1); pc.kCav = 1; pc.modeCav = r.pick(std::vector<ModeFunctionType>{MFT_SIN, MFT_COS, MFT_PLUS}); double vc = r.b(.4) ? 0. : (pc.uNot > 0 ? 1 : -1) * r.u(.1, 1);
  std::vector<Pic<2>> v; for (int k = 0; k < 3; ++k) { auto a = r.pick(all), b = r.pick(all); v.push_back({binary::make(std::make_shared<ParticleAlongCavity>(m.make(a), particle::make(pp, b), pc, vc)), fmt("%s-%s", nm[a], nm[b])}); } same<2>(r, v, "particlecavity", fmt("[U=%g mf=%d]", double(pc.uNot), int(pc.modeCav)) + m.cfg); }
SCENARIO(compositePictures, 10) { ModeP m(r, 2), n(r, size_t(r.i(2, 3))); QbitP q(r); cplx g = r.c(1.5), u = r.c(1.5); std::vector<Pic<3>> v; for (int k = 0; k < 3; ++k) { auto a = r.pick(all), b = r.pick(all), c = r.pick(all); auto M = m.make(a), L = n.make(b); auto Q = q.make(c); v.push_back({composite::make(Act<0, 1>(jaynescummings::make(Q, M, g)), Act<1, 2>(coupledmodes::make<coupledmodes::CM_XX_RWA>(M, L, u))), fmt("%s-%s-%s", nm[c], nm[a], nm[b])}); } same<3>(r, v, "composite", q.cfg + m.cfg + n.cfg); }
SCENARIO(pictureRequests, 60) { // what cannot be had with a master equation is replaced by the unitary interaction picture; every other request is honoured
  parameters::Table t; bool ev = r.b(.85); std::unique_ptr<evolution::Pars<>> p; if (ev) p = std::make_unique<evolution::Pars<>>(t); QM_Picture q = QMP_IP; evolution::Method m = evolution::SINGLE; std::vector<std::string> cl{"prog"};
  if (ev && r.b(.85)) { m = r.pick(std::vector<evolution::Method>{evolution::SINGLE, evolution::ENSEMBLE, evolution::MASTER}); cl.insert(cl.end(), {"--evol", m == evolution::SINGLE ? "single" : m == evolution::ENSEMBLE ? "ensemble" : "master"}); }
  if (r.b(.8)) { size_t k = size_t(r.i(0, 2)); q = all[k]; auto pos = r.b() ? cl.end() : cl.begin() + 1; cl.insert(pos, {"--picture", nm[k]}); }
  std::vector<std::string> copy = cl; std::vector<char*> av; for (auto& s : copy) av.push_back(s.data()); av.push_back(nullptr); QM_Picture got = picture::updateWithPicture(t, int(copy.size()), av.data(), "--"); std::string cfg; for (auto& s : cl) cfg += s + " ";
  check(got == (m == evolution::MASTER && q == QMP_IP ? QMP_UIP : q), "request.picture", cfg + fmt("gave %s", nm[got]));
  ModeP a(r, size_t(r.i(2, 4))); QbitP b(r); bool applicable = Probe<1>(a.make(got)).q.applicableInMaster() && Probe<1>(b.make(got)).q.applicableInMaster(); if (m == evolution::MASTER && q == QMP_IP) check(applicable, "request.usable", cfg + a.cfg + b.cfg); sig(cfg); count("picture-requests"); sample(cfg);
}
