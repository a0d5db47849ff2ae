// Random real elements: the same parameters built in any picture.
#pragma once
#include "Mode.h"
#include "Qbit.h"
#include "Spin.h"
#include "vf.h"
namespace real {
using namespace vf;
inline const std::vector<QM_Picture> all{QMP_IP, QMP_UIP, QMP_SCH}; inline const char* nm[] = {"IP", "UIP", "Sch"};
struct ModeP { parameters::Table t; mode::ParsPumpedLossy p{t}; int which; std::string cfg;
  ModeP(Rng& r, size_t N, const char* mod = "") { p.cutoff = N; p.delta = r.b(.15) ? 0. : r.u(-5, 5); p.omegaKerr = r.b(.7) ? 0. : r.u(-.5, .5); p.omegaKerrAlter = r.b(.8) ? 0. : r.u(-.5, .5); p.kappa = r.b(.25) ? 0. : r.u(.05, 1.5); p.nTh = r.b(.6) ? 0. : r.u(.1, 1); p.eta = r.b(.3) ? cplx(0) : r.c(2); which = int(r.i(0, 3)); cfg = fmt("[mode N=%zu kind=%d loss=%d nTh=%d eta=%d kerr=%d,%d delta=%g kappa=%g]", N, which, p.kappa != 0, p.nTh != 0, p.eta != 0., p.omegaKerr != 0, p.omegaKerrAlter != 0, p.delta, p.kappa); }
  mode::Ptr make(QM_Picture q) const { switch (which) { case 0: return mode::make(static_cast<const mode::Pars&>(p), q); case 1: return mode::make(static_cast<const mode::ParsLossy&>(p), q); case 2: return mode::make(static_cast<const mode::ParsPumped&>(p), q); default: return mode::make(p, q); } } };
struct QbitP { parameters::Table t; qbit::ParsPumpedLossyPhaseNoise p{t}; bool noise; std::string cfg;
  QbitP(Rng& r) { p.delta = r.b(.15) ? 0. : r.u(-5, 5); p.gamma = r.b(.3) ? 0. : r.u(.05, 1.5); p.eta = r.b(.3) ? cplx(0) : r.c(2); p.gamma_parallel = r.u(.1, 1); noise = r.b(); cfg = fmt("[qbit loss=%d pump=%d noise=%d delta=%g]", p.gamma != 0, p.eta != 0., noise, p.delta); }
  qbit::Ptr make(QM_Picture q) const { return noise ? qbit::make(p, q) : qbit::make(static_cast<const qbit::ParsPumpedLossy&>(p), q); } };
struct SpinP { parameters::Table t; spin::Pars p{t}; bool lossy; std::string cfg;
  SpinP(Rng& r, bool half = false) { p.twoS = half ? 1 : size_t(r.i(1, 5)); p.dim = 0; p.omega = r.u(-4, 4); p.gamma = r.u(.05, 1); p.theta = 0.; p.phi = 0.; lossy = r.b(); cfg = fmt("[spin 2S=%zu lossy=%d]", size_t(p.twoS), lossy); }
  spin::Ptr make(bool sch) const { if (sch) { if (lossy) return std::make_shared<LossySpinSch>(p); return std::make_shared<SpinSch>(p); } if (lossy) return std::make_shared<LossySpin>(p); return std::make_shared<Spin>(p); } };
} // real
