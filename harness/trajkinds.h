// Trajectories of every kind made reproducibly, their output and state files as a user meets them.
#pragma once
#include "lind.h"
#include "MCWF_Trajectory.h"
#include "Master.h"
#include "ODE_GSL.h"
#include "Simulated.h"
#include <filesystem>
#include <fstream>
#include <iterator>
#include <sstream>
namespace tk {
using namespace vf; using namespace qd; using lind::Lind; namespace cu = cppqedutils; namespace fs = std::filesystem;
using quantumtrajectory::EntanglementMeasuresSwitch;

inline std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); return {std::istreambuf_iterator<char>(i), {}}; }
inline void spit(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary); o.write(s.data(), std::streamsize(s.size())); }
inline std::string raw(const std::string& f) { auto s = cu::trajectory::openStateFileReading(f); std::ostringstream o; char b[4096]; while (s->read(b, sizeof b), s->gcount()) o.write(b, s->gcount()); return o.str(); }
// state files are a sequence of <size in decimal digits><that many bytes>, every record beginning with the archive's signature (preceded by its length in binary)
inline bool records(const std::string& s, std::vector<std::string>& out) {
  size_t p = 0; out.clear();
  while (p < s.size()) { size_t q = p, n = 0; while (q < s.size() && isdigit((unsigned char)s[q])) n = n * 10 + size_t(s[q++] - '0'); if (q == p || n == 0 || q + n > s.size()) return false; out.push_back(s.substr(q, n)); p = q + n; }
  return true; }
inline std::string framed(const std::vector<std::string>& r, size_t n) { std::string o; for (size_t k = 0; k < n && k < r.size(); ++k) o += std::to_string(r[k].size()) + r[k]; return o; }
inline void lines(const std::string& text, std::vector<std::string>& data, std::vector<std::string>& comments) { data.clear(); comments.clear(); std::istringstream is(text); std::string l; while (std::getline(is, l)) (l.empty() || l[0] == '#' ? comments : data).push_back(l); }
template <typename T> std::string record(T& t) { auto o = std::make_shared<std::ostringstream>(std::ios::binary); cu::trajectory::writeViaSStream(t, o); std::vector<std::string> r; records(o->str(), r); return r.size() == 1 ? r[0] : ""; }
template <typename T> void load(T& t, const std::string& rec) { cu::trajectory::readViaSStream(t, std::make_shared<std::istringstream>(std::to_string(rec.size()) + rec, std::ios::binary)); }
struct Dir { std::string p; Dir() { static int n = 0; p = scratch() + "/t" + std::to_string(n++); fs::create_directories(p); } ~Dir() { std::error_code e; fs::remove_all(p, e); } std::string operator()(const std::string& f) const { return p + "/" + f; } };

struct Setting { int mode = 0; double T = 1, Dt = .1; int dc = 5; long N = 5; unsigned sdf = 1; bool first = true, info = false; int precision = 10;
  std::string str() const { return fmt("mode %d T %g Dt %g dc %d N %ld sdf %u first %d info %d", mode, T, Dt, dc, N, sdf, first, info); } };
template <typename S> void go(S& s, const Setting& c, const std::string& ofn, const std::string& init = "", long remaining = -1, double T = -1) {
  auto& A = cu::trajectory::autostopHandlerNoOp; if (T < 0) T = c.T;
  using SS = std::decay_t<S>; constexpr bool stepping = requires(SS& x, std::ostream& o) { x.step(.1, o); };
  if constexpr (stepping) { if (c.mode == 1) { cu::trajectory::run(s, T, c.dc, c.sdf, ofn, init, c.precision, c.info, c.first, "cmd", false, false, A); return; } }
  if (c.mode == 2) cu::trajectory::run(s, remaining < 0 ? c.N : remaining, c.Dt, c.sdf, ofn, init, c.precision, c.info, c.first, "cmd", false, false, A);
  else cu::trajectory::run(s, T, c.Dt, c.sdf, ofn, init, c.precision, c.info, c.first, "cmd", false, false, A);
}
inline Setting randomSetting(Rng& r, bool dc) { Setting c; c.mode = dc ? int(r.i(0, 2)) : (r.b() ? 0 : 2); c.T = r.u(.3, 1.5); c.Dt = c.T / r.u(2, 9); c.dc = int(r.i(1, 6)); c.N = r.i(1, 8); c.sdf = unsigned(r.i(0, 3)); c.first = r.b(); c.info = r.b(.3); c.precision = r.b(.3) ? 0 : int(r.i(3, 16)); return c; }

// makers: variant 0; variant 1: other initial state, other seed; variant 2: the initial state of 1 with the seed of 0
template <typename A, template <typename> class Engine> struct Sim {
  static constexpr int rank = cu::Rank_v<A>; static constexpr bool dc = true; static constexpr const char* name = "Simulated";
  std::vector<cplx> y0, y1, M; long n; double dt, er, ea; int log; blitz::TinyVector<int, rank> ext; std::string what;
  explicit Sim(Rng& r, long fixedTotal = 0) { n = 1; for (int k = 0; k < rank; ++k) { ext(k) = int(r.i(1, rank == 1 ? 6 : 3)); n *= ext(k); } if (fixedTotal) { ext = 1; ext(0) = int(fixedTotal); n = fixedTotal; } for (long k = 0; k < n; ++k) { y0.push_back(r.c(2)); y1.push_back(r.c(2)); } for (long k = 0; k < n * n; ++k) M.push_back(r.c(1.5)); dt = r.logu(.01, 1); er = r.logu(1e-9, 1e-4); ea = r.logu(1e-12, 1e-6); log = int(r.i(0, 4)); what = fmt("Simulated of %ld (rank %d, %s) ", n, rank, std::is_same_v<typename A::T_numtype, double> ? "real" : "complex"); }
  A arr(const std::vector<cplx>& y) const { A a(ext); long k = 0; for (auto& x : a) { if constexpr (std::is_same_v<typename A::T_numtype, double>) x = y[size_t(k)].real(); else x = y[size_t(k)]; ++k; } return a; }
  auto operator()(int v) const { auto m = M; long N = n; auto f = [m, N](const A& y, A& d, double t) { long i = 0; for (auto it = d.begin(); it != d.end(); ++it, ++i) { cplx s = 0; long j = 0; for (auto x = y.begin(); x != y.end(); ++x, ++j) s += m[size_t(i * N + j)] * std::sin(t + double(j)) * cplx(*x); s -= cplx(d.size() ? 1. : 0.) * cplx(0.); if constexpr (std::is_same_v<typename A::T_numtype, double>) *it = s.real(); else *it = s; } };
    using E = Engine<A>; return cu::simulated::make<E>(arr(v ? y1 : y0), f, {}, dt, log, er, ea); }
  void arrayOnly(cu::oarchive& o) const { cu::trajectory::SerializationMetadata sm{std::is_same_v<typename A::T_numtype, double> ? "DArray" : "CArray", cu::trajectory::SerializationMetadata::ARRAY_ONLY, rank}; A a(arr(y1)); o & sm & a; }
};
template <int R, template <typename> class Engine> struct Mas {
  static constexpr bool dc = true; static constexpr const char* name = "Master"; Lind l; structure::QuantumSystemPtr<R> sys; Mat m0, m1; double er, ea; int log; std::string what;
  explicit Mas(Rng& r, Dims d = {}) { if (d.empty()) { d = randDims(r, R, 4, 4); if (total(d) < 2) d[0] = 2; } lind::Opt o; l = lind::random(r, d, o); sys = lind::makeSystem<R>(l.spec, l.freq); m0 = dense::randRho(r, l.N); m1 = dense::randRho(r, l.N); er = r.logu(1e-8, 1e-4); ea = r.logu(1e-12, 1e-6); log = int(r.i(0, 4)); what = "Master " + l.what + " "; }
  auto operator()(int v) const { using E = Engine<quantumdata::DensityOperatorLow<R>>; return quantumtrajectory::Master<R, E>(sys, dop<R>(v ? m1 : m0, l.d), E(.1 / l.freq, log, er, ea), EntanglementMeasuresSwitch{}); }
  void arrayOnly(cu::oarchive& o) const { cu::trajectory::SerializationMetadata sm{"CArray", cu::trajectory::SerializationMetadata::ARRAY_ONLY, 2 * R}; auto a = arrM<R>(m1, l.d); o & sm & a; }
};
template <int R, template <typename> class Engine> struct Mcw {
  static constexpr bool dc = true; static constexpr const char* name = "MCWF"; Lind l; structure::QuantumSystemPtr<R> sys; Vec v0, v1; double er, ea, dp, ot; int log; unsigned long seed; std::string what;
  explicit Mcw(Rng& r, Dims d = {}) { if (d.empty()) { d = randDims(r, R, 6, 6); if (total(d) < 2) d[0] = 2; } lind::Opt o; o.forMaster = false; o.strength = r.logu(.5, 10); l = lind::random(r, d, o); sys = lind::makeSystem<R>(l.spec, l.freq); v0 = dense::randVec(r, l.N); v1 = dense::randVec(r, l.N); er = r.logu(1e-8, 1e-4); ea = r.logu(1e-12, 1e-6); log = int(r.i(0, 4)); dp = r.logu(3e-3, .1); ot = r.u(1.1, 5); seed = (unsigned long)r.i(1, 1000); what = "MCWF " + l.what + " "; }
  auto operator()(int v) const { using E = Engine<quantumdata::StateVectorLow<R>>; return quantumtrajectory::MCWF_Trajectory<R, E, pcg64>(sys, sv<R>(v ? v1 : v0, l.d), E(.1 / l.freq, log, er, ea), {v == 1 ? seed + 7 : seed, 1ul}, dp, ot, log); }
  void arrayOnly(cu::oarchive& o) const { cu::trajectory::SerializationMetadata sm{"CArray", cu::trajectory::SerializationMetadata::ARRAY_ONLY, R}; auto a = arr<R>(v1, l.d); o & sm & a; }
};
template <int R, template <typename> class Engine> struct Ens {
  static constexpr bool dc = false; static constexpr const char* name = "Ensemble"; Mcw<R, Engine> m; size_t n; std::string what;
  struct P { parameters::Table t; quantumtrajectory::mcwf::Pars<pcg64> p{t}; };
  explicit Ens(Rng& r, Dims d = {}, size_t nTraj = 0) : m(r, d), n(nTraj ? nTraj : size_t(r.i(1, 4))) { what = fmt("Ensemble of %zu ", n) + m.l.what + " "; }
  auto operator()(int v) const { using E = Engine<quantumdata::StateVectorLow<R>>; P q; auto& p = q.p; p.nTraj = n; p.seed = v == 1 ? m.seed + 7 : m.seed; p.epsRel = m.er; p.epsAbs = m.ea; p.dpLimit = m.dp; p.overshootTolerance = m.ot; p.logLevel = m.log; return quantumtrajectory::mcwf::makeEnsemble<E, pcg64, tmptools::V_Empty>(m.sys, sv<R>(v ? m.v1 : m.v0, m.l.d), p, EntanglementMeasuresSwitch{}); }
};
} // tk
