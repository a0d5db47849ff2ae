// C23: a simulation program run from its command line computes the physics it names, by whichever method; the driver behind it runs what is asked for.
// The programs are the ones of CPPQEDscripts, compiled as they are (their main renamed), run in child processes; their tables are compared with an independent dense solution of the equation of motion.
#include "lind.h"
#include "real.h"
#include "table.h"
#include "trajkinds.h"
#include "EvolutionBinary.h"
#include "JaynesCummings.h"
#include <sys/wait.h>
#include <fcntl.h>
using namespace dense; using namespace vf; using lind::Lind; using lind::I;
extern "C" { int script_mode(int, char**); int script_modeEvolved(int, char**); int script_ptla(int, char**); int script_ptlaEvolved(int, char**); int script_ptlaEvolvedHL(int, char**); int script_qbit(int, char**); int script_jc(int, char**); int script_jcMatrix(int, char**); int script_jcEvolved(int, char**); int script_spin(int, char**); int script_raman(int, char**); int script_opto(int, char**); int script_fourModes(int, char**); int script_particle(int, char**); int script_particleMode(int, char**); int script_homodyned(int, char**); int script_tutorialMode(int, char**); }
namespace {
using Args = std::vector<std::string>; using Main = int (*)(int, char**);
std::string S(double x) { return fmt("%.17g", x); }
std::string S(cplx x) { return fmt("(%.17g,%.17g)", x.real(), x.imag()); }
std::string S(size_t x) { return fmt("%zu", x); }
void opt(Args& a, const std::string& k, const std::string& v) { a.push_back("--" + k); a.push_back(v); }
struct Result { int rc = -1; std::string out, err, file; };
Result launch(Main m, Args a, const tk::Dir& d, const std::string& file) {
  std::string o = d("stdout"), e = d("stderr"); std::cout.flush(); fflush(nullptr); a.insert(a.begin(), "script");
  pid_t p = fork();
  if (!p) { int fo = open(o.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), fe = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fo, 1); dup2(fe, 2); watch(60); std::vector<char*> v; for (auto& s : a) v.push_back(s.data()); v.push_back(nullptr); int rc = 97; try { rc = m(int(a.size()), v.data()); } catch (const std::exception& x) { std::cerr << "exception: " << x.what() << std::endl; rc = 98; } std::cout.flush(); std::cerr.flush(); fflush(nullptr); _exit(rc); }
  int st = 0; waitpid(p, &st, 0); Result r; r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); r.out = tk::slurp(o); r.err = tk::slurp(e); if (file.size() && vf::exists(file)) r.file = tk::slurp(file); return r; }
std::string joined(const Args& a) { std::string s; for (auto& x : a) s += x + " "; return s; }

// the documented operators
struct Model { Lind l; Vec psi; std::vector<std::function<double(const Mat&)>> cols; std::string cfg; };
void finish(Model& m, const Mat& G, std::vector<Mat> J) { m.l.N = G.r; m.l.A = [G](double) { return G; }; for (auto& j : J) if (maxabs(j) > 0) m.l.J.push_back([j](double) { return j; }); m.l.E = Mat(G.r); }
struct ModeM { size_t N; double delta, kappa, kerr, kerrAlter; cplx eta, init; size_t fock; 
  explicit ModeM(Rng& r, size_t n, bool lossy = true, bool pumped = true) : N(n) { delta = r.b(.1) ? 0. : r.u(-4, 4); kappa = !lossy || r.b(.2) ? 0. : r.u(.1, 2); kerr = r.b(.7) ? 0. : r.u(-.4, .4); kerrAlter = r.b(.8) ? 0. : r.u(-.4, .4); eta = !pumped || r.b(.2) ? cplx(0) : r.c(1.2); fock = r.b(.3) ? size_t(r.i(1, long(n) - 1)) : 0; init = r.b(.2) ? cplx(0) : r.c(.7); }
  Mat G() const { Mat n = number(N), a = lower(N); return -1. * (cplx(kappa, -delta) * n) + eta * dag(a) - std::conj(eta) * a - I * (kerr + kerrAlter) * (n * n - n); }
  Mat J() const { return std::sqrt(2 * kappa) * lower(N); }
  Vec psi() const { Vec v(N, 0.); if (fock) v[fock] = 1.; else { cplx c = std::exp(-std::norm(init) / 2); for (size_t n = 0; n < N; ++n) { v[n] = c; c *= init / std::sqrt(double(n + 1)); } } return v; } // as the truncation leaves it: only normalised by the first step
  void args(Args& a, const std::string& m, bool lossy = true, bool pumped = true) const { opt(a, "cutoff" + m, S(N)); opt(a, "deltaC" + m, S(delta)); if (lossy) opt(a, "kappa" + m, S(kappa)); if (kerr) opt(a, "omegaKerr" + m, S(kerr)); if (kerrAlter) opt(a, "omegaKerrAlter" + m, S(kerrAlter)); if (pumped) opt(a, "eta" + m, S(eta)); if (fock) opt(a, "minitFock" + m, S(fock)); opt(a, "minit" + m, S(init)); } };
struct QbitM { double delta, gamma, par = 0; cplx eta, init; 
  explicit QbitM(Rng& r, bool noise = false) { delta = r.b(.1) ? 0. : r.u(-4, 4); gamma = r.b(.2) ? 0. : r.u(.1, 2); par = noise && r.b(.4) ? r.u(.1, 1) : 0.; eta = r.b(.2) ? cplx(0) : r.c(1.2); init = r.b(.3) ? cplx(0) : r.b(.2) ? cplx(1) : r.c(.6); }
  Mat G() const { Mat s = lower(2); return -1. * (cplx(gamma, -delta) * number(2)) + std::conj(eta) * s - eta * dag(s) - par * id(2); }
  std::vector<Mat> J() const { return {std::sqrt(2 * gamma) * lower(2), std::sqrt(2 * par) * (id(2) - 2. * number(2))}; }
  Vec psi() const { return {std::sqrt(std::max(0., 1 - std::norm(init))), init}; }
  void args(Args& a, bool noise) const { opt(a, "deltaA", S(delta)); opt(a, "gamma", S(gamma)); opt(a, "etat", S(eta)); opt(a, "qbitInit", S(init)); if (noise) opt(a, "gamma_parallel", S(par)); } };
double ex(const Mat& rho, const Mat& o) { return tr(rho * o).real(); }
void modeCols(Model& m, const std::vector<size_t>& dims, size_t ax, bool quad = false) { size_t N = dims[ax]; Mat n = embed(number(N), dims, {ax}), a = embed(lower(N), dims, {ax}), n2 = n * n, a2 = a * a; auto& c = m.cols;
  c.push_back([=](const Mat& R) { return ex(R, n); }); c.push_back([=](const Mat& R) { double x = ex(R, n); return ex(R, n2) - x * x; }); c.push_back([=](const Mat& R) { return tr(R * a).real(); }); c.push_back([=](const Mat& R) { return tr(R * a).imag(); });
  if (quad) { c.push_back([=](const Mat& R) { double x = std::sqrt(2.) * tr(R * a).real(); return ex(R, n) + .5 + tr(R * a2).real() - x * x; }); c.push_back([=](const Mat& R) { double y = std::sqrt(2.) * tr(R * a).imag(); return ex(R, n) + .5 - tr(R * a2).real() - y * y; }); c.push_back([=](const Mat& R) { cplx z = tr(R * a); return tr(R * a2).imag() - 2 * z.real() * z.imag(); }); } }
void qbitCols(Model& m, const std::vector<size_t>& dims, size_t ax) { Mat e = embed(number(2), dims, {ax}), s = embed(lower(2), dims, {ax}), g = id(e.r) - e; auto& c = m.cols; c.push_back([=](const Mat& R) { return ex(R, g); }); c.push_back([=](const Mat& R) { return ex(R, e); }); c.push_back([=](const Mat& R) { return tr(R * s).real(); }); c.push_back([=](const Mat& R) { return tr(R * s).imag(); }); }
double logNegativity(const Mat& rho, size_t d0, size_t d1) { Mat t(rho.r); for (size_t a = 0; a < d0; ++a) for (size_t b = 0; b < d1; ++b) for (size_t c = 0; c < d0; ++c) for (size_t d = 0; d < d1; ++d) t(c * d1 + b, a * d1 + d) = rho(a * d1 + b, c * d1 + d); double s = 0; for (double x : eigh(t)) if (x < 0) s -= x; return s; }
double entropy(const Mat& m) { double s = 0; for (double x : eigh(m)) if (x > 1e-14) s -= x * std::log(x); return s; }

// how to run it
struct How { int method; bool noise; std::string picture; double T, Dt; int dc; long NDt; bool file; double T1 = 0; size_t nTraj; int precision = 12; bool ems = false; };
How how(Rng& r, bool pictures, bool noiseless) { How h; h.method = int(r.i(0, 2)); h.noise = noiseless && r.b(.5); h.picture = pictures ? std::vector<std::string>{"IP", "UIP", "Sch", ""}[size_t(r.i(0, 3))] : ""; h.T = r.u(.2, 1.2); h.Dt = h.T / r.u(2, 6); h.dc = r.b(.4) && h.method != 1 ? int(r.i(1, 6)) : 0; h.NDt = !h.dc && r.b(.25) ? r.i(1, 5) : 0; h.file = r.b(.7); if (h.file && !h.NDt && r.b(.4)) h.T1 = h.T * r.u(.2, .8); h.nTraj = size_t(r.i(1, 3)); return h; }
Args drive(const How& h, double T, const std::string& f) { Args a; opt(a, "evol", std::vector<std::string>{"single", "ensemble", "master"}[size_t(h.method)]); if (!h.noise && h.method != 2) a.push_back("--no_noise"); if (h.method == 1) opt(a, "nTraj", S(h.nTraj)); if (h.picture.size()) opt(a, "picture", h.picture); opt(a, "T", S(T)); opt(a, "dc", S(size_t(h.dc))); opt(a, "Dt", S(h.Dt)); if (h.NDt) opt(a, "NDt", S(size_t(h.NDt))); opt(a, "eps", "1e-9"); opt(a, "epsAbs", "1e-9"); opt(a, "precision", S(size_t(h.precision))); if (f.size()) opt(a, "o", f); if (h.ems) opt(a, "ems", "111"); return a; }

void judgeTable(const Model& m, const How& h, const Table& t, double T, const std::string& key, const std::string& cfg, double tol = 2e-6, bool skipFirst = false) {
  skipFirst |= std::abs(nrm(m.psi) - 1) > 1e-9; if (!check(t.clean && t.rows.size() >= 1, key + ".table", cfg + " " + t.dirty)) return;
  bool mixed = h.method == 2; Mat rho = dyad(m.psi, m.psi); Vec psi = m.psi; double now = 0;
  for (size_t k = 0; k < t.rows.size(); ++k) {
    auto& row = t.rows[k]; if (!check(row.size() >= 2 + m.cols.size(), key + ".columns", cfg + fmt(" row %zu has %zu numbers", k, row.size()))) return; double at = row[0];
    if (!check(k ? at >= now : at == 0., key + ".times", cfg + fmt(" row %zu at %g after %g", k, at, now))) return;
    if (at > now) { if (mixed) { rho = lind::master(m.l, rho, now, at); rho = (1. / tr(rho)) * rho; } else { psi = lind::noJump(m.l, psi, now, at); psi = scal(1 / nrm(psi), psi); rho = dyad(psi, psi); } now = at; }
    if (k || !skipFirst) for (size_t c = 0; c < m.cols.size(); ++c) { double e = m.cols[c](rho), g = row[2 + c]; if (!check(std::abs(g - e) <= tol * (1 + std::abs(e)) * (1 + now), key + ".value", fmt("at t=%g column %zu: %.10g instead of %.10g: ", at, c + 3, g, e) + cfg)) return; count("numbers-compared"); }
    count("rows"); }
  double end = h.NDt ? h.Dt * double(h.NDt) : T; check(std::abs(now - end) <= 1e-9 * (1 + end), key + ".end", cfg + fmt(" ended at %.12g instead of %.12g", now, end));
}
// whole runs, also stopped and resumed
void runAndJudge(Rng& r, const Model& m, Main prog, const Args& phys, const How& h, const std::string& key) {
  tk::Dir d; std::string f = h.file ? d("out") : ""; Args a = phys; Args first = drive(h, h.T1 ? h.T1 : h.T, f); if (r.b()) a.insert(a.end(), first.begin(), first.end()); else a.insert(a.begin(), first.begin(), first.end());
  std::string cfg = joined(a) + (h.T1 ? fmt("then to T=%g", h.T) : ""); auto R = launch(prog, a, d, f); if (!check(R.rc == 0, key + ".exit", cfg + fmt(" exit %d ", R.rc) + R.err.substr(0, 300))) return;
  if (h.T1) { Args b = phys, dr = drive(h, h.T, f); b.insert(b.end(), dr.begin(), dr.end()); R = launch(prog, b, d, f); if (!check(R.rc == 0, key + ".exit", cfg + fmt(" exit %d on resuming ", R.rc) + R.err.substr(0, 300))) return; }
  if (h.file) check(R.out.find_first_not_of(" \n") == R.out.npos, key + ".output-elsewhere", cfg + R.out.substr(0, 200));
  judgeTable(m, h, parseTable(h.file ? R.file : R.out), h.T, key, cfg); sig(key + fmt("/%d%d%s/%d%d%d%d", h.method, h.noise, h.picture.c_str(), h.dc != 0, h.NDt != 0, h.file, h.T1 != 0)); sample(cfg); count("program-runs", h.T1 ? 2 : 1);
}
bool lossless(const Model& m) { return m.l.J.empty(); }
How choose(Rng& r, const Model& m, bool pictures) { return how(r, pictures, lossless(m)); }
} // namespace

SCENARIO(modes, 14) { ModeM p(r, size_t(r.i(3, 8))); Model m; finish(m, p.G(), {p.J()}); m.psi = p.psi(); modeCols(m, {p.N}, 0, true); Args a; p.args(a, ""); if (r.b(.5)) { a.push_back("--doStream"); bool off = r.b(); if (off) a.push_back("--doOffDiag"); size_t N = p.N; for (size_t n = 0; n < N; ++n) m.cols.push_back([n](const Mat& R) { return R(n, n).real(); }); if (off) for (size_t i = 0; i < N; ++i) for (size_t j = i + 1; j < N; ++j) { m.cols.push_back([i, j](const Mat& R) { return R(i, j).real(); }); m.cols.push_back([i, j](const Mat& R) { return R(i, j).imag(); }); } }
  runAndJudge(r, m, script_mode, a, choose(r, m, true), "mode"); }
SCENARIO(tutorialMode, 4) { ModeM p(r, size_t(r.i(3, 8))); Model m; finish(m, p.G(), {p.J()}); m.psi = p.psi(); modeCols(m, {p.N}, 0); Args a; p.args(a, ""); runAndJudge(r, m, script_tutorialMode, a, choose(r, m, false), "tutorial-mode"); }
SCENARIO(thermalModes, 5) { ModeM p(r, 10); p.eta = 0; p.fock = 0; p.init *= .5; p.kappa = r.u(.2, 1.5); p.kerr = p.kerrAlter = 0; double nTh = r.u(.01, .04); Mat n = number(p.N), a_ = lower(p.N); Model m; finish(m, -1. * (cplx(p.kappa * (2 * nTh + 1), -p.delta) * n) - p.kappa * nTh * id(p.N), {std::sqrt(2 * p.kappa * (nTh + 1)) * a_, std::sqrt(2 * p.kappa * nTh) * dag(a_)}); m.psi = p.psi(); modeCols(m, {p.N}, 0, true); Args a; p.args(a, ""); opt(a, "nTh", S(nTh)); How h = choose(r, m, true); runAndJudge(r, m, script_mode, a, h, "mode.thermal"); }
SCENARIO(atoms, 10) { QbitM q(r, true); bool full = r.b(); QbitM e = q; if (!full) e.par = 0; Model m; finish(m, e.G(), e.J()); m.psi = q.psi(); qbitCols(m, {2}, 0); Args a; q.args(a, true); if (full) a.push_back("--fullImpl"); How h = choose(r, m, true); if (full && q.par > 0 && h.method == 2 && h.picture == "Sch") h.picture = "IP"; /* the phase-noisy qbit has no Schroedinger-picture version, which the master equation refuses */ runAndJudge(r, m, script_ptla, a, h, full ? "atom.qbit" : "atom"); }
SCENARIO(qbits, 8) { QbitM q(r); Model m; finish(m, q.G(), q.J()); m.psi = q.psi(); qbitCols(m, {2}, 0); Args a; q.args(a, false); runAndJudge(r, m, script_qbit, a, choose(r, m, true), "qbit"); }
static Model jc(Rng& r, QbitM& q, ModeM& p, cplx g, bool normalised = false) { std::vector<size_t> d{2, p.N}; Model m; Mat X = std::conj(g) * kron(lower(2), dag(lower(p.N))); Mat G = embed(q.G(), d, {0}) + embed(p.G(), d, {1}) + X - dag(X); std::vector<Mat> J; for (auto& j : q.J()) J.push_back(embed(j, d, {0})); J.push_back(embed(p.J(), d, {1})); finish(m, G, J); Vec a = q.psi(), b = p.psi(); for (auto& x : a) for (auto& y : b) m.psi.push_back(x * y); if (normalised) m.psi = scal(1 / nrm(m.psi), m.psi); qbitCols(m, d, 0); modeCols(m, d, 1); return m; }
SCENARIO(jaynesCummings, 8) { QbitM q(r, true); ModeM p(r, size_t(r.i(2, 4))); cplx g = r.c(1.5); auto m = jc(r, q, p, g); Args a; q.args(a, true); p.args(a, ""); opt(a, "g", S(g)); How h = choose(r, m, true); if (q.par > 0 && h.method == 2 && h.picture == "Sch") h.picture = "UIP";
  if (h.method && r.b(.7)) { h.ems = true; size_t N = p.N; m.cols.push_back([N](const Mat& R) { return logNegativity(R, 2, N); }); m.cols.push_back([N](const Mat& R) { return entropy(ptrace(R, {2, N}, {0})) + entropy(ptrace(R, {2, N}, {1})) - entropy(R); }); m.cols.push_back([N](const Mat& R) { Mat x = ptrace(R, {2, N}, {0}); return ex(x, x); }); }
  runAndJudge(r, m, script_jc, a, h, "jc"); }
SCENARIO(jaynesCummingsMatrix, 5) { QbitM q(r); ModeM p(r, size_t(r.i(2, 4))); cplx g = r.c(1.5); auto m = jc(r, q, p, g, true); How h = how(r, false, false); h.method = 0; h.noise = true; /* the program itself switches it off */ Args a; q.args(a, false); p.args(a, ""); opt(a, "g", S(g)); runAndJudge(r, m, script_jcMatrix, a, h, "jc.matrix"); }
SCENARIO(spins, 5) { double w = r.u(-3, 3), ga = r.b(.2) ? 0. : r.u(.1, 1.5); Mat sp(2); sp(1, 0) = 1.; Mat sz(2); sz(0, 0) = -.5; sz(1, 1) = .5; Model m; finish(m, -1. * (cplx(ga, w) * sz) - .5 * ga * id(2), {std::sqrt(2 * ga) * dag(sp)}); m.psi = {0., 1.}; m.cols = {[=](const Mat& R) { return ex(R, sz); }, [=](const Mat& R) { double z = ex(R, sz); return .25 - z * z; }, [=](const Mat& R) { return tr(R * sp).real(); }, [=](const Mat& R) { return tr(R * sp).imag(); }, [](const Mat& R) { return R(1, 1).real(); }}; Args a; opt(a, "twoS", "1"); opt(a, "omega", S(w)); opt(a, "gamma", S(ga)); runAndJudge(r, m, script_spin, a, choose(r, m, false), "spin"); }
SCENARIO(lambdaAtoms, 6) { cplx e0 = r.c(1.5), e1 = r.c(1.5); double g0 = r.u(.1, 1.5), g1 = r.u(.1, 1.5), d0 = r.u(-3, 3), d1 = r.u(-3, 3), d2 = r.u(-3, 3); Mat G(3); G(0, 0) = I * d0; G(1, 1) = I * d1; G(2, 2) = I * d2 - g0 - g1; G(0, 2) = std::conj(e0); G(2, 0) = -e0; G(1, 2) = std::conj(e1); G(2, 1) = -e1; Mat j0(3), j1(3); j0(0, 2) = std::sqrt(2 * g0); j1(1, 2) = std::sqrt(2 * g1); Model m; finish(m, G, {j0, j1}); m.psi = {std::sqrt(.5), std::sqrt(.5), 0.};
  for (size_t k = 0; k < 3; ++k) m.cols.push_back([k](const Mat& R) { return R(k, k).real(); }); for (size_t i = 0; i < 3; ++i) for (size_t j = i + 1; j < 3; ++j) { m.cols.push_back([i, j](const Mat& R) { return R(i, j).real(); }); m.cols.push_back([i, j](const Mat& R) { return R(i, j).imag(); }); }
  Args a; opt(a, "etas", "[" + S(e0) + "," + S(e1) + "]"); opt(a, "gammas", "[" + S(g0) + "," + S(g1) + "]"); opt(a, "deltas", "[" + S(d0) + "," + S(d1) + "," + S(d2) + "]"); runAndJudge(r, m, script_raman, a, choose(r, m, false), "lambda-atom"); }
SCENARIO(fourModes, 4) { // no coupling: each of the four is the mode it would be alone
  std::vector<ModeM> p; std::vector<Model> ms; Args a; for (int k = 0; k < 4; ++k) { p.emplace_back(r, size_t(r.i(2, 3))); p.back().kerr = p.back().kerrAlter = 0; p.back().args(a, std::to_string(k)); Model m; finish(m, p.back().G(), {p.back().J()}); m.psi = p.back().psi(); modeCols(m, {p.back().N}, 0); ms.push_back(m); }
  How h = how(r, false, false); h.method = 0; h.T1 = 0; tk::Dir d; std::string f = d("out"); h.file = true; Args b = drive(h, h.T, f); b.insert(b.end(), a.begin(), a.end()); auto R = launch(script_fourModes, b, d, f); if (!check(R.rc == 0, "four-modes.exit", joined(b) + R.err.substr(0, 300))) return; Table t = parseTable(R.file);
  for (size_t k = 0; k < 4; ++k) { Table u = t; for (auto& row : u.rows) if (row.size() >= 18) { std::vector<double> x{row[0], row[1]}; x.insert(x.end(), row.begin() + 2 + long(4 * k), row.begin() + 6 + long(4 * k)); row = x; } judgeTable(ms[k], h, u, h.T, "four-modes", joined(b) + fmt(" mode %zu", k), 2e-6, true); } sig(joined(b)); count("program-runs"); }
// amplitude equations against the same physics
SCENARIO(amplitudes, 8) { ModeM p(r, 3); p.kerr = p.kerrAlter = 0; double w = r.u(-3, 3); cplx e2 = r.b(.4) ? cplx(0) : r.c(1.5); Args a; p.args(a, ""); opt(a, "etaOther", S(e2)); opt(a, "deltaC_Other", S(w)); How h = how(r, false, true); h.method = 0; h.noise = true; h.picture = ""; tk::Dir d; std::string f = h.file ? d("out") : ""; Args b = drive(h, h.T, f); b.insert(b.end(), a.begin(), a.end()); auto R = launch(script_modeEvolved, b, d, f); std::string cfg = joined(b); if (!check(R.rc == 0, "amplitude.exit", cfg + R.err.substr(0, 300))) return; Table t = parseTable(h.file ? R.file : R.out); if (!check(t.rows.size() >= 2, "amplitude.table", cfg)) return;
  cplx z(-p.kappa, p.delta), al = p.init; double nu = w + p.delta, now = 0; auto f1 = [&](double tt, cplx y) { return z * y + p.eta + e2 * std::exp(I * nu * tt); };
  for (auto& row : t.rows) { if (!check(row.size() == 4, "amplitude.columns", cfg)) return; al = lind::rk4([&](double tt, const cplx& y) { return f1(tt, y); }, al, now, row[0], .005, 10.); now = row[0]; check(std::abs(cplx(row[2], row[3]) - al) < 1e-6 * (1 + std::abs(al)), "amplitude.value", cfg + fmt(" t=%g got (%g,%g)", now, row[2], row[3])); count("numbers-compared", 2); } sig(joined(a)); count("program-runs"); }
SCENARIO(blochEquations, 6) { QbitM q(r); bool hl = r.b(.3), cm = !hl && r.b(.4); Args a; q.args(a, false); ModeM p(r, 3); p.fock = 0; p.kerr = p.kerrAlter = 0; cplx g = r.c(1.5); if (cm) { p.args(a, ""); opt(a, "g", S(g)); } How h = how(r, false, true); h.method = 0; h.noise = true; h.picture = ""; tk::Dir d; std::string f = h.file ? d("out") : ""; Args b = drive(h, h.T, f); b.insert(b.end(), a.begin(), a.end()); auto R = launch(hl ? script_ptlaEvolvedHL : cm ? script_jcEvolved : script_ptlaEvolved, b, d, f); std::string cfg = joined(b), key = hl ? "bloch.linear" : cm ? "coupled-amplitudes" : "bloch"; if (!check(R.rc == 0, key + ".exit", cfg + R.err.substr(0, 300))) return; Table t = parseTable(h.file ? R.file : R.out); if (!check(t.rows.size() >= 2, key + ".table", cfg)) return;
  if (!hl && !cm) { Model m; finish(m, q.G(), q.J()); m.psi = q.psi(); m.cols = {[](const Mat& R_) { return 2 * R_(0, 0).real() - 1; }, [](const Mat& R_) { return 2 * R_(0, 1).real(); }, [](const Mat& R_) { return -2 * R_(0, 1).imag(); }}; How g2 = h; g2.method = 2; judgeTable(m, g2, t, h.T, key, cfg); }
  else { double now = 0; Mat y(2, 1); y(0, 0) = cm ? p.init : (dyad(q.psi(), q.psi()))(1, 0); y(1, 0) = cm ? q.init : cplx(0); cplx zq(-q.gamma, q.delta), zm(-p.kappa, p.delta); for (auto& row : t.rows) { y = lind::rk4([&](double, const Mat& x) { Mat o(2, 1); if (cm) { o(0, 0) = zm * x(0, 0) + g * x(1, 0) + p.eta; o(1, 0) = zq * x(1, 0) - g * x(0, 0) - q.eta; } else o(0, 0) = zq * x(0, 0) - q.eta; return o; }, y, now, row[0], .005, 10.); now = row[0]; if (!check(row.size() == (cm ? 6u : 4u), key + ".columns", cfg)) return; for (size_t k = 0; k < (cm ? 2u : 1u); ++k) check(std::abs(cplx(row[2 + 2 * k], row[3 + 2 * k]) - y(k, 0)) < 1e-6 * (1 + std::abs(y(k, 0))), key + ".value", cfg + fmt(" t=%g", now)); count("numbers-compared", 2); } }
  sig(joined(a)); count("program-runs"); }
// programs without a dense reference: the same numbers in any picture, by any method, however the run is divided
static void agree(Rng& r, Main prog, const Args& phys, const std::string& key, bool pictures, bool lossy, double tol = 5e-6) {
  double T = r.u(.1, .5), Dt = T / double(r.i(2, 4)); bool master = r.b(.5); std::vector<Table> ts; std::vector<std::string> cfgs; tk::Dir d;
  std::vector<std::string> pics = pictures ? std::vector<std::string>{"IP", "UIP", "Sch"} : std::vector<std::string>{"", ""};
  for (size_t k = 0; k < pics.size(); ++k) { How h; h.method = master ? 2 : r.b() ? 0 : 1; h.noise = !lossy && r.b(); h.picture = pics[k]; h.T = T; h.Dt = Dt; h.dc = 0; h.NDt = 0; h.file = true; h.nTraj = 2; std::string f = d(("o" + std::to_string(k)).c_str()); Args b = drive(h, T, f); b.insert(b.end(), phys.begin(), phys.end()); if (r.b(.4)) { Args c = drive(h, Dt, f); c.insert(c.end(), phys.begin(), phys.end()); auto R = launch(prog, c, d, f); if (!check(R.rc == 0, key + ".exit", joined(c) + R.err.substr(0, 300))) return; } auto R = launch(prog, b, d, f); if (!check(R.rc == 0, key + ".exit", joined(b) + R.err.substr(0, 300))) return; ts.push_back(parseTable(R.file)); { auto& v = ts.back().rows; for (size_t i = 1; i < v.size();) if (v[i].size() && v[i - 1].size() && std::abs(v[i][0] - v[i - 1][0]) < 1e-9) v.erase(v.begin() + long(i)); else ++i; } /* the sum of the intervals may miss the end by rounding */ cfgs.push_back(joined(b)); count("program-runs"); }
  for (size_t k = 1; k < ts.size(); ++k) { std::string w = cfgs[k] + " versus " + cfgs[0]; if (!check(ts[k].rows.size() == ts[0].rows.size() && ts[0].rows.size() == size_t(std::lround(T / Dt)) + 1, key + ".rows", w + fmt(" %zu %zu", ts[k].rows.size(), ts[0].rows.size()))) return; for (size_t i = 0; i < ts[0].rows.size(); ++i) { auto &x = ts[0].rows[i], &y = ts[k].rows[i]; if (!check(x.size() == y.size() && x.size() > 2, key + ".columns", w)) return; for (size_t c = 0; c < x.size(); ++c) if (c != 1 && !check(std::abs(x[c] - y[c]) <= tol * (1 + std::abs(x[c])), key + ".value", w + fmt(" row %zu column %zu: %.10g versus %.10g", i, c + 1, y[c], x[c]))) return; count("numbers-compared", long(x.size())); } }
  sig(cfgs[0]); sample(cfgs[0]);
}
SCENARIO(optomechanics, 4) { Args a; ModeM p(r, size_t(r.i(2, 3))), q(r, size_t(r.i(2, 3)), true, false); p.args(a, "Opt"); q.args(a, "Mech", true, false); opt(a, "u", S(r.u(-1, 1))); agree(r, script_opto, a, "optomechanics", true, true); }
SCENARIO(particles, 4) { Args a; opt(a, "fin", S(size_t(r.i(3, 4)))); opt(a, "omrec", S(r.u(.05, .5))); opt(a, "vClass", S(r.u(-2, 2))); opt(a, "modePart", r.pick(std::vector<std::string>{"Sin", "Cos", "Plus", "Minus"})); opt(a, "pinit", fmt("(%g,%g,%g,0)", r.u(-.3, .3), double(r.i(-1, 1)), r.u(.1, .2))); agree(r, script_particle, a, "particle", true, false); }
SCENARIO(particleInCavity, 4) { Args a; ModeM p(r, size_t(r.i(2, 3))); p.kerr = p.kerrAlter = 0; p.args(a, ""); int conf = int(r.i(1, 4)); opt(a, "1p1mconf", S(size_t(conf))); opt(a, "fin", "3"); opt(a, "omrec", S(r.u(.05, .3))); double u = r.u(.1, .8) * (r.b() ? 1 : -1); opt(a, "Unot", S(u)); opt(a, "vClass", S((u > 0 ? 1 : -1) * r.u(.1, 1))); opt(a, "pinit", fmt("(%g,0,%g,0)", r.u(-.3, .3), r.u(.1, .2))); agree(r, script_particleMode, a, fmt("particle-mode.%d", conf), true, true); }
SCENARIO(homodyned, 4) { Args a; ModeM p(r, size_t(r.i(3, 5))); p.args(a, ""); opt(a, "homodyneAmplitude", S(r.c(1))); How h = how(r, false, false); Model m; finish(m, p.G(), {p.J()}); m.psi = p.psi(); modeCols(m, {p.N}, 0, true); h.method = 2; /* the average evolution does not depend on how the output is detected */ runAndJudge(r, m, script_homodyned, a, h, "homodyned"); }

// ---- the driver itself
namespace {
template <typename RES> bool sameArrays(const RES& a, const RES& b) { if (a.size() != b.size()) return false; auto i = a.begin(); auto j = b.begin(); for (; i != a.end(); ++i, ++j) { if (std::get<0>(*i) != std::get<0>(*j) || std::get<1>(*i) != std::get<1>(*j) || std::get<2>(*i).size() != std::get<2>(*j).size()) return false; auto x = std::get<2>(*i).begin(); for (auto y : std::get<2>(*j)) { if (!(*x == y || (std::isnan(*x) && std::isnan(y)))) return false; ++x; } } return true; }
}
SCENARIO(driver, 40) { // evolve() is the run of the trajectory that was named, with the parameters given, reporting on the partition named
  namespace qt = quantumtrajectory; namespace cu = cppqedutils; lind::Opt o; o.forMaster = true; std::vector<size_t> d{size_t(r.i(2, 3)), size_t(r.i(2, 3))}; Lind l = lind::random(r, d, o); auto sys = lind::makeSystem<2>(l.spec, l.freq); Vec v = randVec(r, l.N); Mat mixed = randRho(r, l.N);
  parameters::Table t; evolution::Pars<> p(t); int method = int(r.i(0, 2)); p.evol = method == 0 ? evolution::SINGLE : method == 1 ? evolution::ENSEMBLE : evolution::MASTER; p.seed = (unsigned long)r.i(1, 100000); p.prngStream = (unsigned long)r.i(1, 9); p.noise = r.b(.8); p.nTraj = (unsigned long)r.i(1, 4); p.T = r.u(.1, .6); p.dc = r.b() ? int(r.i(1, 4)) : 0; p.Dt = p.T / r.u(1, 5); if (r.b(.2)) p.NDt = r.i(1, 4); p.epsRel = r.logu(1e-9, 1e-4); p.epsAbs = r.logu(1e-12, 1e-6); p.dpLimit = r.u(.005, .1); p.ems = (unsigned long)r.i(0, 7); p.precision = int(r.i(3, 10)); p.streamInfo = r.b(); bool fromMixed = method == 2 && r.b(.5); // evolve() of a density operator cannot be instantiated, its master part is offered separately
 
  std::string cfg = fmt("method %d mixed %d seed %lu noise %d nTraj %lu T %g dc %d Dt %g NDt %ld ems %lu ", method, fromMixed, (unsigned long)p.seed, bool(p.noise), (unsigned long)p.nTraj, double(p.T), int(p.dc), double(p.Dt), long(p.NDt), p.ems.to_ulong()) + l.what; bool part = r.b(); unsigned long ordinal = p.prngStream;
  using SVE = cu::ODE_EngineBoost<quantumdata::StateVectorLow<2>>; using DOE = cu::ODE_EngineBoost<quantumdata::DensityOperatorLow<2>>;
  auto hand = [&](std::string& text) { p.prngStream = ordinal; CaptureCout c; evolution::TemporalStreamedArray res; auto go = [&](auto V) { using VV = decltype(V);
      if (method == 0) res = cu::run(qt::mcwf::make<SVE, pcg64>(sys, qd::sv<2>(v, d), p), p, true, true);
      else if (method == 1) { res = cu::run(qt::mcwf::makeEnsemble<SVE, pcg64, VV>(sys, qd::sv<2>(v, d), p, p.ems), p, true, true); }
      else { Mat m0 = fromMixed ? mixed : dyad(v, v); auto rho = fromMixed ? qd::dop<2>(m0, d) : quantumdata::DensityOperator<2>(qd::sv<2>(v, d)); res = cu::run(qt::master::make<DOE, VV>(sys, std::move(rho), p, p.ems), p, true, true); } };
    if (part) go(tmptools::Vector<0>{}); else go(tmptools::Vector<1>{}); text = c.s.str(); return res; };
  auto driven = [&](std::string& text, bool stream, bool ret) { p.prngStream = ordinal; CaptureCout c; evolution::TemporalStreamedArray res; if (fromMixed) { auto rho = qd::dop<2>(mixed, d); res = part ? evolveMaster<cu::ODE_EngineBoost, 0>(rho, sys, p, stream, ret) : evolveMaster<cu::ODE_EngineBoost, 1>(rho, sys, p, stream, ret); } else { auto psi = qd::sv<2>(v, d); res = part ? evolve<0>(psi, sys, p, stream, ret) : evolve<1>(psi, sys, p, stream, ret); } text = c.s.str(); return res; };
  std::string a, b; auto ra = hand(a), rb = driven(b, true, true); check(a == b, "driver.output", cfg + "\n" + b.substr(0, 400) + "\ninstead of\n" + a.substr(0, 400)); check(ra.size() && sameArrays(ra, rb), "driver.returned", cfg);
  bool stream = r.b(), ret = r.b(); std::string c; auto rc = driven(c, stream, ret); if (stream) check(c == a, "driver.output-again", cfg); else check(parseTable(c).rows.empty(), "driver.silent", cfg + c.substr(0, 200)); if (ret) check(sameArrays(ra, rc), "driver.returned-again", cfg); else check(rc.empty(), "driver.nothing-returned", cfg);
  sig(fmt("%d%d%d%d%d%d/%lu", method, fromMixed, bool(p.noise), p.dc != 0, p.NDt != 0, part, p.ems.to_ulong()) + l.what); sample(cfg); count("driver-runs", 3);
}
SCENARIO(evolvedState, 20) { // "the evolved state can always be accessed if the initial state is an lvalue"
  lind::Opt o; o.forMaster = true; std::vector<size_t> d{size_t(r.i(2, 3)), size_t(r.i(2, 3))}; Lind l = lind::random(r, d, o); auto sys = lind::makeSystem<2>(l.spec, l.freq); Vec v = randVec(r, l.N); v = scal(1 / nrm(v), v); Mat mixed = randRho(r, l.N); bool master = r.b();
  parameters::Table t; evolution::Pars<> p(t); p.evol = evolution::SINGLE; p.noise = false; p.dc = r.b() ? int(r.i(1, 4)) : 0; double T = r.u(.1, .8), T1 = r.b(.7) ? T * r.u(.2, .9) : 0.; p.Dt = T / r.u(1, 5); p.epsRel = p.epsAbs = 1e-10; tk::Dir dir; p.ofn = dir("out"); std::string cfg = fmt("master %d T %g T1 %g dc %d ", master, T, T1, int(p.dc)) + l.what;
  for (double end : {T1, T}) if (end > 0) { p.T = end; if (master) { auto rho = qd::dop<2>(mixed, d); evolveMaster<cppqedutils::ODE_EngineBoost, 0>(rho, sys, p); Mat e = lind::master(l, mixed, 0, end); e = (1. / tr(e)) * e; Mat g = qd::mat<2>(rho); check(maxabs(g - e) < 1e-5, "driver.evolved-state", cfg + fmt(" end %g differs by %g", end, maxabs(g - e))); }
    else { auto psi = qd::sv<2>(v, d); evolve<0>(psi, sys, p); Vec e = lind::noJump(l, v, 0, end), g = qd::vec<2>(psi); cplx ov = 0; for (size_t k = 0; k < l.N; ++k) ov += std::conj(e[k]) * g[k]; double dev = std::abs(nrm(g) - 1) + std::abs(1 - std::abs(ov) / nrm(e) / nrm(g)); check(dev < 1e-6, "driver.evolved-state", cfg + fmt(" end %g deviates by %g", end, dev)); } count("evolved-states-seen"); }
  sig(fmt("%d%d%d", master, T1 > 0, p.dc != 0) + l.what); sample(cfg); }
