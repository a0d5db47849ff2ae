// C04: what is given on the command line is what the simulation is parametrised with; anything not understood stops the program.
#include "vf.h"
#include "Evolution_.h"
#include "QM_Picture.h"
#include "ParsMode.h"
#include "BichromaticMode.h"
#include "HomodynedMode.h"
#include "ParsQbit.h"
#include "ParsParticle.h"
#include "Spin.h"
#include "MultiLevel.h"
#include "ParsMultiLevel.h"
#include "ParsMLJC.h"
#include "ParsParticleCavity.h"
#include "JaynesCummings_.h"
#include "DistributionFunctions.h"
#include <sys/wait.h>
#include <iostream>
using namespace vf; namespace cu = cppqedutils;
namespace {
std::string d2s(double x) { return fmt("%.17g", x); }
double anyD(Rng& r) { return r.b(.1) ? 0. : r.b(.1) ? double(r.i(-50, 50)) : r.b(.2) ? r.logu(1e-200, 1e200) * (r.b() ? 1 : -1) : r.u(-10, 10); }
// a value, what to write for it on the command line (false: one which cannot be understood)
void gen(Rng& r, double& v, std::string& s) { v = anyD(r); s = d2s(v); }
void gen(Rng& r, int& v, std::string& s) { v = int(r.b(.2) ? r.i(-2147483647, 2147483647) : r.i(-20, 20)); s = std::to_string(v); }
void gen(Rng& r, long& v, std::string& s) { v = r.b(.2) ? long(r.next() >> 1) : r.i(-20, 20); s = std::to_string(v); }
void gen(Rng& r, unsigned& v, std::string& s) { v = unsigned(r.b(.2) ? r.next() >> 32 : r.i(0, 20)); s = std::to_string(v); }
void gen(Rng& r, unsigned long& v, std::string& s) { v = r.b(.2) ? r.next() : (unsigned long)(r.i(0, 50)); s = std::to_string(v); }
void gen(Rng& r, std::string& v, std::string& s) { v = ""; const std::string a = "abcXYZ019_-./[](),#"; for (long n = r.i(1, 12); n; --n) v += a[size_t(r.i(0, long(a.size()) - 1))]; s = v; }
void gen(Rng& r, dcomp& v, std::string& s) { double x = anyD(r), y = anyD(r); if (r.b(.2)) { v = x; s = r.b() ? d2s(x) : "(" + d2s(x) + ")"; } else { v = dcomp(x, y); s = "(" + d2s(x) + "," + d2s(y) + ")"; } }
void gen(Rng& r, evolution::Method& v, std::string& s) { int k = int(r.i(0, 2)); v = k == 0 ? evolution::SINGLE : k == 1 ? evolution::ENSEMBLE : evolution::MASTER; s = k == 0 ? "single" : k == 1 ? "ensemble" : "master"; }
void gen(Rng& r, QM_Picture& v, std::string& s) { int k = int(r.i(0, 2)); v = k == 0 ? QMP_IP : k == 1 ? QMP_UIP : QMP_SCH; s = k == 0 ? "IP" : k == 1 ? "UIP" : "Sch"; }
void gen(Rng& r, ModeFunctionType& v, std::string& s) { int k = int(r.i(0, 3)); v = k == 0 ? MFT_SIN : k == 1 ? MFT_COS : k == 2 ? MFT_PLUS : MFT_MINUS; s = k == 0 ? "Sin" : k == 1 ? "Cos" : k == 2 ? "Plus" : "Minus"; }
void gen(Rng& r, quantumtrajectory::EntanglementMeasuresSwitch& v, std::string& s) { v = (unsigned long)r.i(0, 7); s = v.to_string(); }
void gen(Rng& r, formdouble::Zero& v, std::string& s) { int p = int(r.i(0, 20)); v = formdouble::Zero(p); s = std::to_string(p); }
void gen(Rng& r, particle::InitialCondition& v, std::string& s) { double a = anyD(r), b = anyD(r), c = anyD(r); bool k = r.b(); new (&v) particle::InitialCondition(a, b, c, k); const char* sp = r.b(.3) ? " " : ""; s = "(" + d2s(a) + sp + "," + d2s(b) + "," + sp + d2s(c) + "," + sp + (k ? "1" : "0") + sp + ")"; }
template <int N> void gen(Rng& r, blitz::TinyVector<double, N>& v, std::string& s) { s = "["; for (int i = 0; i < N; ++i) { v[i] = anyD(r); s += (i ? "," : "") + d2s(v[i]); } s += "]"; }

using Pumps = multilevel::result_of::make_vector<multilevel::Pump<0, 2>, multilevel::Pump<1, 2>>::type; using Decays = multilevel::result_of::make_vector<multilevel::Decay<0, 2>, multilevel::Decay<1, 2>>::type; using OnePump = multilevel::result_of::make_vector<multilevel::Pump<0, 1>>::type;
void gen(Rng& r, Pumps& v, std::string& s) { dcomp a, b; std::string x, y; gen(r, a, x); gen(r, b, y); boost::fusion::at_c<0>(v) = multilevel::Pump<0, 2>(a); boost::fusion::at_c<1>(v) = multilevel::Pump<1, 2>(b); s = "[" + x + "," + y + "]"; }
void gen(Rng& r, Decays& v, std::string& s) { double a = anyD(r), b = anyD(r); boost::fusion::at_c<0>(v) = multilevel::Decay<0, 2>(a); boost::fusion::at_c<1>(v) = multilevel::Decay<1, 2>(b); s = "[" + d2s(a) + "," + d2s(b) + "]"; }
void gen(Rng& r, OnePump& v, std::string& s) { dcomp a; std::string x; gen(r, a, x); boost::fusion::at_c<0>(v) = multilevel::Pump<0, 1>(a); s = "[" + x + "]"; }
template <typename T> bool same(const T& a, const T& b) { return a == b; }
bool same(const Pumps& a, const Pumps& b) { using boost::fusion::at_c; return at_c<0>(a).get() == at_c<0>(b).get() && at_c<1>(a).get() == at_c<1>(b).get(); }
bool same(const Decays& a, const Decays& b) { using boost::fusion::at_c; return at_c<0>(a).get() == at_c<0>(b).get() && at_c<1>(a).get() == at_c<1>(b).get(); }
bool same(const OnePump& a, const OnePump& b) { using boost::fusion::at_c; return at_c<0>(a).get() == at_c<0>(b).get(); }
bool same(const formdouble::Zero& a, const formdouble::Zero& b) { return int(a) == int(b); }
bool same(const particle::InitialCondition& a, const particle::InitialCondition& b) { return a.get() == b.get(); }
template <int N> bool same(const blitz::TinyVector<double, N>& a, const blitz::TinyVector<double, N>& b) { for (int i = 0; i < N; ++i) if (a[i] != b[i]) return false; return true; }
template <typename T> std::vector<std::string> wrongFor() {
  if constexpr (std::is_floating_point_v<T>) return {"x", "--", "", "1e99999", "1.5q", "i"};
  else if constexpr (std::is_integral_v<T>) return {"x", "", "1.5", "99999999999999999999999", "3x", "(1,2)"};
  else if constexpr (std::is_same_v<T, dcomp>) return {"x", "", "(1;2)", "(1,2", "(1,y)", "1,2"};
  else if constexpr (std::is_same_v<T, std::string>) return {""};
  else if constexpr (std::is_same_v<T, evolution::Method>) return {"", "Single", "masters", "x", "0", "master_fast"};
  else if constexpr (std::is_same_v<T, QM_Picture>) return {"", "sch", "ip", "IPP", "0"};
  else if constexpr (std::is_same_v<T, ModeFunctionType>) return {"", "sin", "Tan", "0", "Plus2"};
  else if constexpr (std::is_same_v<T, particle::InitialCondition>) return {"", "(1,2,3)", "1,2,3,0", "(1,2,3,0", "(1;2,3,0)", "[1,2,3,0]", "(1,x,3,0)", "(1,2,3,0,5)", "(1,2,3,7)"};
  else if constexpr (std::is_same_v<T, formdouble::Zero>) return {"", "x", "1.5"};
  else if constexpr (std::is_same_v<T, quantumtrajectory::EntanglementMeasuresSwitch>) return {"", "x", "2", "1012"};
  else if constexpr (std::is_same_v<T, Pumps> || std::is_same_v<T, Decays>) return {"", "[1]", "[1,x]", "1,2", "{1,2}", "[1;2]", "[1,2", "[1,2,3]"};
  else if constexpr (std::is_same_v<T, OnePump>) return {"", "[]", "[x]", "1", "[1,2]", "[(1,2)"};
  else return {"", "[1]", "[1,2,x]", "1,2,3", "x", "{1,2,3}", "[1;2;3]", "[1 2 3 4 5]", "[1,2,3)", "[1,2,3,4]"}; // TinyVector
}

struct Slot { std::string name; std::function<std::string(Rng&)> give; std::function<bool()> ok; std::function<std::string()> shown; std::vector<std::string> wrong; bool isSwitch = false; bool* sw = nullptr; bool swExpected = false; };
struct Bed { // a table with bundles registered on it and the model of what every field should be
  parameters::Table t; std::vector<std::shared_ptr<void>> keep; std::vector<Slot> slots;
  template <typename T> void f(const std::string& name, T& ref, std::type_identity_t<T> def) {
    auto e = std::make_shared<T>(def); T* p = &ref;
    slots.push_back({name, [e](Rng& r) { std::string s; gen(r, *e, s); return s; }, [e, p] { return same(*e, *p); }, [p] { std::ostringstream o; if constexpr (std::is_same_v<T, formdouble::Zero>) o << int(*p); else IO_Manipulator::_(o) << *p; return o.str(); }, wrongFor<T>()}); }
  void sw(const std::string& name, bool& ref, bool def) { Slot s; s.name = name; s.isSwitch = true; s.sw = &ref; s.swExpected = def; slots.push_back(s); }
  template <typename P> P& make(const std::string& mod) { auto p = std::make_shared<P>(t, mod); keep.push_back(p); return *p; }
};
template <typename P> void odeP(Bed& b, P& p, const std::string& m) { b.f("eps" + m, p.epsRel, 1e-6); b.f("epsAbs" + m, p.epsAbs, 1e-12); b.f("logLevel" + m, p.logLevel, 0); }
template <typename P> void trajP(Bed& b, P& p, const std::string& m) { b.f("T" + m, p.T, 1.); b.f("dc" + m, p.dc, 10); b.f("Dt" + m, p.Dt, .1); b.f("NDt" + m, p.NDt, 0L); b.f("o" + m, p.ofn, ""); b.f("initialFileName" + m, p.initialFileName, ""); b.f("precision" + m, p.precision, formdouble::Zero(6)); b.sw("streamInfo" + m, p.streamInfo, true); b.sw("firstStateStream" + m, p.firstStateStream, true);
  b.f("sdf" + m, p.sdf, 0u); b.f("autoStopEpsilon" + m, p.autoStopEpsilon, 1e-6); b.f("autoStopEpsilonAbs" + m, p.autoStopEpsilonAbs, 1e-12); b.f("autoStopRepetition" + m, p.autoStopRepetition, 0u); }
template <typename P> void stochP(Bed& b, P& p, const std::string& m) { b.f("seed" + m, p.seed, 1001ul); b.f("prngStream" + m, p.prngStream, 1ul); b.sw("noise" + m, p.noise, true); b.f("nTraj" + m, p.nTraj, 500ul); }
template <typename P> void mcwfP(Bed& b, P& p, const std::string& m) { b.f("dpLimit" + m, p.dpLimit, .01); b.f("overshootTolerance" + m, p.overshootTolerance, 10.); b.f("nBins" + m, p.nBins, 0ul); b.f("nJumpsPerBin" + m, p.nJumpsPerBin, 50ul); }
void modeP(Bed& b, mode::Pars& p, const std::string& m) { b.f("cutoff" + m, p.cutoff, 10ul); b.f("minitFock" + m, p.minitFock, 0ul); b.f("minit" + m, p.minit, dcomp(0)); b.f("modeStreamLevel" + m, p.streamLevel, 0ul); b.f("deltaC" + m, p.delta, -10.); b.f("omegaKerr" + m, p.omegaKerr, 0.); b.f("omegaKerrAlter" + m, p.omegaKerrAlter, 0.); }
template <typename P> void qbitP(Bed& b, P& p, const std::string& m) { b.f("qbitInit" + m, p.qbitInit, dcomp(0)); b.f("deltaA" + m, p.delta, -10.); }
void partP(Bed& b, particle::Pars& p, const std::string& m) { b.f("omrec" + m, p.omrec, 1.); b.f("fin" + m, p.fin, 6ul); b.f("pinit" + m, p.init, particle::InitialCondition(-.5, 0, .1)); b.f("HOinitn" + m, p.hoInitn, -1); }
using V3 = blitz::TinyVector<double, 3>;

const int nBundles = 17;
void bundle(Bed& b, int k, const std::string& m) {
  switch (k) {
  case 0: { auto& p = b.make<cu::ode_engine::Pars<>>(m); odeP(b, p, m); break; }
  case 1: { auto& p = b.make<cu::trajectory::Pars<>>(m); odeP(b, p, m); trajP(b, p, m); break; }
  case 2: { auto& p = b.make<cu::trajectory::ParsStochastic<pcg64>>(m); odeP(b, p, m); stochP(b, p, m); break; }
  case 3: { auto& p = b.make<quantumtrajectory::mcwf::Pars<pcg64>>(m); odeP(b, p, m); stochP(b, p, m); mcwfP(b, p, m); break; }
  case 4: { auto& p = b.make<evolution::Pars<>>(m); odeP(b, p, m); stochP(b, p, m); mcwfP(b, p, m); trajP(b, p, m); b.f("evol" + m, p.evol, evolution::SINGLE); b.f("ems" + m, p.ems, 0); break; }
  case 5: { auto& p = b.make<mode::Pars>(m); modeP(b, p, m); break; }
  case 6: { auto& p = b.make<mode::ParsPumped>(m); modeP(b, p, m); b.f("eta" + m, p.eta, dcomp(0)); break; }
  case 7: { auto& p = b.make<mode::ParsLossy>(m); modeP(b, p, m); b.f("kappa" + m, p.kappa, 10.); b.f("nTh" + m, p.nTh, 0.); break; }
  case 8: { auto& p = b.make<mode::ParsPumpedLossy>(m); modeP(b, p, m); b.f("eta" + m, p.eta, dcomp(0)); b.f("kappa" + m, p.kappa, 10.); b.f("nTh" + m, p.nTh, 0.); break; }
  case 9: { auto& p = b.make<mode::ParsBichromatic>(m); modeP(b, p, m); b.f("eta" + m, p.eta, dcomp(0)); b.f("kappa" + m, p.kappa, 10.); b.f("nTh" + m, p.nTh, 0.); b.f("deltaC_Other" + m, p.deltaOther, 0.); b.f("etaOther" + m, p.etaOther, dcomp(0)); break; }
  case 10: { auto& p = b.make<mode::ParsHomodyned<mode::ParsPumpedLossy>>(m); modeP(b, p, m); b.f("eta" + m, p.eta, dcomp(0)); b.f("kappa" + m, p.kappa, 10.); b.f("nTh" + m, p.nTh, 0.); b.f("homodyneAmplitude" + m, p.homodyneAmplitude, dcomp(0)); break; }
  case 11: { auto& p = b.make<qbit::ParsPumpedLossyPhaseNoise>(m); qbitP(b, p, m); b.f("etat" + m, p.eta, dcomp(0)); b.f("gamma" + m, p.gamma, 10.); b.f("gamma_parallel" + m, p.gamma_parallel, 0.); break; }
  case 12: { auto& p = b.make<spin::Pars>(m); b.f("twoS" + m, p.twoS, 1ul); b.f("spinDim" + m, p.dim, 0ul); b.f("theta" + m, p.theta, 0.); b.f("phi" + m, p.phi, 0.); b.f("omega" + m, p.omega, 1.); b.f("gamma" + m, p.gamma, 1.); break; }
  case 13: { auto& p = b.make<particle::ParsPumped>(m); partP(b, p, m); b.f("vClass" + m, p.vClass, -10.); b.f("kPart" + m, p.kPart, 1ul); b.f("modePart" + m, p.modePart, MFT_SIN); break; }
  case 14: { auto& p = b.make<particlecavity::ParsAlongGenericPump>(m); b.f("Unot" + m, p.uNot, -1.); b.f("kCav" + m, p.kCav, 1ul); b.f("modeCav" + m, p.modeCav, MFT_SIN); b.f("etaeff" + m, p.etaeff, 0.); auto& q = b.make<jaynescummings::Pars>(m); b.f("g" + m, q.g, dcomp(1)); break; }
  case 15: { auto& p = b.make<quantumdata::ParsFunctionScan>(m); b.f("fLimitXUL" + m, p.fLimitXUL, 2.); b.f("fLimitYUL" + m, p.fLimitYUL, 2.); b.f("fLimitXL" + m, p.fLimitXL, -2.); b.f("fLimitXU" + m, p.fLimitXU, 2.); b.f("fLimitYL" + m, p.fLimitYL, -2.); b.f("fLimitYU" + m, p.fLimitYU, 2.); b.f("fStep" + m, p.fStep, .1); b.f("fCutoff" + m, p.fCutoff, 100); break; }
  case 16: { using P = multilevel::ParsPumpedLossy<3, Pumps, Decays>; auto& p = b.make<P>(m); b.f("deltas" + m, p.deltas, V3(0., 0., 0.)); b.f("etas" + m, p.etas, Pumps()); b.f("gammas" + m, p.gammas, Decays()); auto& q = b.make<mljc::Pars<OnePump>>(m); b.f("gs" + m, q.gs, OnePump()); b.f("gamma_parallel" + m, p.gamma_parallel, 0.); b.f("gamma_parallel_vector" + m, p.gamma_parallel_vector, V3(0., 0., 0.)); break; }
  }
}
struct Argv { std::vector<std::string> s; std::vector<char*> p; Argv(std::vector<std::string> v) : s(std::move(v)) { for (auto& x : s) p.push_back(x.data()); p.push_back(nullptr); } int c() { return int(s.size()); } char** v() { return p.data(); } };
Slot& pickSlot(Rng& r, Bed& b) { return b.slots[size_t(r.i(0, long(b.slots.size()) - 1))]; }
std::string joined(const std::vector<std::string>& v) { std::string o; for (auto& x : v) o += (o.empty() ? "" : " ") + x; return o; }
// several bundles, never two with a common parameter: everything gets its own modifier
std::string setup(Rng& r, Bed& b) { std::string what; std::vector<int> ks; for (int k = 0; k < nBundles; ++k) ks.push_back(k); r.shuffle(ks); long n = r.i(1, 4); for (long i = 0; i < n; ++i) { int k = ks[size_t(r.b(.3) ? 0 : i)]; std::string m = i == 0 && r.b() ? "" : fmt("%c%ld", "_xM"[r.i(0, 2)], i); bundle(b, k, m); what += fmt(" %d%s", k, m.c_str()); } return what; }
void allOk(Bed& b, const std::string& key, const std::string& where) { for (auto& s : b.slots) { if (s.isSwitch) check(*s.sw == s.swExpected, key + "switch", where + " switch " + s.name); else check(s.ok(), key + s.name.substr(0, s.name.find_first_of("_xM", 2)), where + " parameter " + s.name + " is " + s.shown()); } }

// runs f in a child; returns its wait status; what it wrote in out, err
int inChild(const std::function<void()>& f, std::string& out, std::string& err) {
  std::string po = scratch() + "/co", pe = scratch() + "/ce"; fflush(nullptr); std::cout.flush(); pid_t p = fork();
  if (!p) { int o = open(po.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), e = open(pe.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(o, 1); dup2(e, 2); signal(SIGABRT, SIG_DFL); try { f(); } catch (...) { std::cout.flush(); _exit(78); } std::cout.flush(); _exit(77); }
  int st = -1; waitpid(p, &st, 0); auto rd = [](const std::string& n) { std::string s; if (FILE* h = fopen(n.c_str(), "r")) { char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, h)) > 0) s.append(b, k); fclose(h); } return s; }; out = rd(po); err = rd(pe); return st;
}
}
SCENARIO(values, 300) {
  Bed b; std::string what = setup(r, b); allOk(b, "default.", what); std::vector<std::string> cl{"./program"}; std::string prefix = r.b(.8) ? "--" : r.pick(std::vector<std::string>{"-", "++", "par:"}); long given = 0;
  FormDouble::overallPrecision = 3; int precision = 3;
  for (long n = r.i(0, 25); n; --n) { auto& s = pickSlot(r, b); if (s.isSwitch) { bool v = r.b(); cl.push_back(prefix + (v ? "" : "no_") + s.name); s.swExpected = v; count("switches"); } else { std::string x = s.give(r); if (s.name.rfind("precision", 0) == 0) precision = atoi(x.c_str()); cl.push_back(prefix + s.name); cl.push_back(x); } ++given; }
  Argv a(cl); if (prefix == "--" && r.b()) parameters::update(b.t, a.c(), a.v()); else parameters::update(b.t, a.c(), a.v(), prefix);
  std::string line = joined(cl); allOk(b, "value.", what + " : " + line); check(*b.t.getParsedCommandLine() == line, "command-line.kept", *b.t.getParsedCommandLine() + " instead of " + line); check(FormDouble::overallPrecision == precision, "precision.overall", line); FormDouble::overallPrecision = 3;
  for (auto& s : b.slots) { bool found = !throws([&] { (void)b.t[s.name]; }); check(found, "table.lookup", s.name); }
  if (r.b(.3)) { auto& s = pickSlot(r, b); check(throws([&] { b.t.add(s.name, "again", 1.); }), "table.recreated", s.name); if (s.isSwitch) check(throws([&] { b.t.add("no_" + s.name, "again", 1.); }), "table.recreated-negation", s.name); check(throws([&] { (void)b.t[s.name + "Q"]; }), "table.unknown", s.name); }
  allOk(b, "value-again.", what + " : " + line); count("parameters-given", given); sig(what + fmt(" %ld", given));
}
SCENARIO(successive, 60) { // a second command line only changes what it names
  Bed b; std::string what = setup(r, b); for (int k = 0; k < 3; ++k) { std::vector<std::string> cl{"prog"}; for (long n = r.i(0, 4); n; --n) { auto& s = pickSlot(r, b); if (s.isSwitch) continue; cl.push_back("--" + s.name); cl.push_back(s.give(r)); } Argv a(cl); parameters::update(b.t, a.c(), a.v(), "--"); allOk(b, "successive.", what + joined(cl)); check(*b.t.getParsedCommandLine() == joined(cl), "command-line.kept", joined(cl)); } FormDouble::overallPrecision = 3; sig(what);
}
SCENARIO(refused, 120) {
  Bed b; std::string what = setup(r, b);
  for (int k = 0; k < 6; ++k) {
    std::vector<std::string> cl{"prog"}; auto good = [&](long n) { for (; n; --n) { auto& s = pickSlot(r, b); if (s.isSwitch) cl.push_back("--" + s.name); else { cl.push_back("--" + s.name); cl.push_back(s.give(r)); } } }; good(r.i(0, 3)); auto& s = pickSlot(r, b); std::string kind; bool more = true;
    switch (r.i(0, 5)) {
    case 0: cl.push_back("--" + s.name + "Q"); kind = "unknown"; break;
    case 1: cl.push_back(r.b() ? "-" + s.name : s.name); cl.push_back("1"); kind = "prefix"; break;
    case 2: if (s.isSwitch) { cl.push_back("--" + s.name); cl.push_back(r.b() ? "1" : "true"); kind = "switch-with-value"; break; } [[fallthrough]];
    case 3: case 4: if (!s.isSwitch) { cl.push_back("--" + s.name); std::string w = s.wrong[size_t(r.i(0, long(s.wrong.size()) - 1))]; if (w.empty()) more = false; else cl.push_back(w); kind = "value"; break; } [[fallthrough]];
    default: cl.push_back("--No_" + s.name); kind = "unknown"; }
    size_t upto = cl.size(); if (more) good(r.i(0, 2)); Argv a(cl); std::string out, err; int st = inChild([&] { parameters::update(b.t, a.c(), a.v(), "--"); }, out, err); std::string line = joined(cl);
    bool stopped = WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 77); check(stopped, "refused.accepted." + kind, what + " : " + line); check(!stopped || !err.empty(), "refused.no-message", line); count("refused-" + kind); (void)upto; }
  sig(what);
}
SCENARIO(help, 60) {
  Bed b; std::string what = setup(r, b); std::vector<std::string> cl{"prog"}; std::map<std::string, int> g; for (long n = r.i(0, 4); n; --n) { auto& s = pickSlot(r, b); if (s.isSwitch) { cl.push_back("--no_" + s.name); s.swExpected = false; } else { cl.push_back("--" + s.name); cl.push_back(s.give(r)); } }
  Argv a0(cl); parameters::update(b.t, a0.c(), a0.v(), "--"); FormDouble::overallPrecision = 3; cl = {"prog", "--help"}; Argv a(cl); std::string out, err; int st = inChild([&] { parameters::update(b.t, a.c(), a.v(), "--"); }, out, err); check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "help.exit", what);
  std::istringstream is(out); std::string l; std::map<std::string, std::string> lines; while (std::getline(is, l)) { std::string n = l.substr(0, l.find_first_of(" \t")); if (!n.empty() && n != "***") { check(!lines.count(n), "help.twice", n); lines[n] = l; } }
  for (auto& s : b.slots) { if (!check(lines.count(s.name) > 0, "help.missing", what + " " + s.name)) continue; std::string val = s.isSwitch ? (*s.sw ? "1" : "0") : s.shown(); auto& L = lines[s.name]; check(L.size() >= val.size() && L.substr(L.size() - val.size()) == val, "help.value", L + " should end with " + val); if (s.isSwitch) check(lines.count("no_" + s.name) > 0 && lines["no_" + s.name].back() == (*s.sw ? '0' : '1'), "help.negation", lines["no_" + s.name]); }
  cl = {"prog", "--version"}; Argv v(cl); st = inChild([&] { parameters::update(b.t, v.c(), v.v(), "--"); }, out, err); check(WIFEXITED(st) && WEXITSTATUS(st) == 0 && !(out + err).empty(), "version.exit", what); count("help-lines", long(lines.size())); sig(what);
}
SCENARIO(pictures, 60) { // IP is not possible with the Master equation
  parameters::Table t; std::unique_ptr<evolution::Pars<>> p; bool ev = r.b(.8); if (ev) p = std::make_unique<evolution::Pars<>>(t); std::vector<std::string> cl{"prog"}; QM_Picture q = QMP_IP; evolution::Method m = evolution::SINGLE; std::string s; if (r.b(.8)) { gen(r, q, s); cl.push_back("--picture"); cl.push_back(s); } if (ev && r.b(.8)) { gen(r, m, s); cl.insert(cl.begin() + 1, {"--evol", s}); }
  Argv a(cl); QM_Picture& got = picture::updateWithPicture(t, a.c(), a.v(), "--"); check(got == (m == evolution::MASTER && q == QMP_IP ? QMP_UIP : q), "picture.value", joined(cl)); check(!ev || p->evol == m, "picture.method", joined(cl)); sig(joined(cl));
}
SCENARIO(enumerations, 40) { // written and read back
  auto rt = [&](auto v) { auto w = v; std::string s; gen(r, w, s); std::ostringstream o; o << w; check(o.str() == s, "enumeration.written", o.str() + " instead of " + s); auto u = v; std::istringstream i(s + " rest"); i >> u; check(bool(i) && u == w, "enumeration.read", s); auto k = w; std::istringstream bad(s + "z"); bad >> k; check(!bad && k == w, "enumeration.wrong-read", s); }; rt(QMP_IP); rt(MFT_SIN); { evolution::Method e = evolution::SINGLE; rt(e); }
  bool x = r.b(); cu::BooleanNegatedProxy n(x), c(n); check(bool(n) == !x && bool(c) == !x, "negation.value"); bool v = r.b(); n = v; check(x == !v && bool(c) == v, "negation.assigned"); bool y = r.b(); cu::BooleanNegatedProxy o(y); o = n; check(y == x, "negation.copied"); std::istringstream is(v ? "0" : "1"); is >> n; check(x == v, "negation.read"); sig(fmt("%d%d%d", x, v, y));
}
