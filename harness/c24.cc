// C24: the phase-space distribution functions are those of the state.
#include "qd.h"
#include "table.h"
#include "DistributionFunctions.h"
#include "Pars.h"
using namespace dense; using namespace vf;
namespace {
// <m|D(a)|n> by its ladder recursion, in long double
std::vector<std::complex<long double>> displacement(cplx al, size_t N) { using L = std::complex<long double>; L a(al.real(), al.imag()); std::vector<L> D(N * N); D[0] = std::exp(-std::norm(a) / 2); for (size_t m = 1; m < N; ++m) D[m * N] = D[(m - 1) * N] * a / std::sqrt((long double)m);
  for (size_t n = 0; n + 1 < N; ++n) for (size_t m = 0; m < N; ++m) D[m * N + n + 1] = ((m ? std::sqrt((long double)m) * D[(m - 1) * N + n] : L(0)) - std::conj(a) * D[m * N + n]) / std::sqrt((long double)(n + 1)); return D; }
double wigner(const Mat& rho, cplx al, size_t M) { auto D = displacement(2. * al, M); std::complex<long double> s = 0; for (size_t m = 0; m < M; ++m) for (size_t n = 0; n < M; ++n) s += std::complex<long double>(rho(n, m)) * D[m * M + n] * (n % 2 ? -1.L : 1.L); return double(s.real()) / M_PI; }
double husimi(const Mat& rho, cplx al) { size_t N = rho.r; Vec c(N); c[0] = std::exp(-std::norm(al) / 2); for (size_t n = 1; n < N; ++n) c[n] = c[n - 1] * al / std::sqrt(double(n)); cplx s = 0; for (size_t m = 0; m < N; ++m) for (size_t n = 0; n < N; ++n) s += std::conj(c[m]) * rho(m, n) * c[n]; return s.real(); }
struct Bare { const Mat& m; size_t getDimension(size_t) const { return m.r; } cplx operator()(size_t i, size_t j) const { return m(i, j); } };
struct Drawn { Mat rho; std::string what; Vec psi; bool pure; };
Drawn draw(Rng& r, size_t N) { Drawn s; s.pure = r.b(); if (s.pure) { switch (r.i(0, 3)) { case 0: s.psi = Vec(N, 0.); s.psi[size_t(r.i(0, long(N) - 1))] = 1.; s.what = "fock"; break; case 1: s.psi = Vec(N, 0.); { cplx a = r.c(1.2), c = 1; for (size_t n = 0; n < N; ++n) { s.psi[n] = c; c *= a / std::sqrt(double(n + 1)); } } s.what = "coherent"; break; case 2: { cplx a = r.c(1.2), c = 1; s.psi = Vec(N, 0.); bool odd = N > 1 && r.b(); for (size_t n = 0; n < N; ++n) { if ((n % 2) == odd) s.psi[n] = c; c *= a / std::sqrt(double(n + 1)); } } s.what = "cat"; break; default: s.psi = randVec(r, N); s.what = "random"; } double x = nrm(s.psi); s.psi = scal(1 / x, s.psi); s.rho = dyad(s.psi, s.psi); } else { s.rho = randRho(r, N); s.what = "mixed"; } s.what += fmt("/%zu", N); return s; }
cplx point(Rng& r) { switch (r.i(0, 5)) { case 0: return 0.; case 1: return r.u(-2, 2); case 2: return cplx(0, r.u(-2, 2)); case 3: return r.u(-1, 1) * 1e-8; default: return r.c(2.); } }
// calls f with the state as every kind of object it can be given as
template <typename F> void eachRepresentation(const Drawn& s, F f) { size_t N = s.rho.r; auto rho = qd::dop<1>(s.rho, {N}); f(rho, "density operator"); const quantumdata::LazyDensityOperator<1>& l = rho; f(l, "lazy density operator"); if (s.pure) { auto psi = qd::sv<1>(s.psi, {N}); const quantumdata::LazyDensityOperator<1>& lp = psi; f(lp, "state vector"); } }
}
SCENARIO(wigner, 40) { size_t N = size_t(r.i(1, 14)); Drawn s = draw(r, N); for (int k = 0; k < 4; ++k) { cplx a = point(r); size_t cut = r.b(.5) ? 0 : size_t(r.i(1, long(N) + 5)); size_t M = cut && cut < N ? cut : N; double e = wigner(s.rho, a, M); std::string cfg = s.what + fmt(" at (%g,%g) cutoff %zu", a.real(), a.imag(), cut);
    eachRepresentation(s, [&](const auto& x, const char* n) { double g = quantumdata::wignerFunction(x, a.real(), a.imag(), cut); check(std::abs(g - e) < 1e-9 * (1 + std::abs(e)), "wigner.value", cfg + fmt(" %s: %.12g instead of %.12g", n, g, e)); count("values-compared"); });
    double e2 = wigner(s.rho, -std::conj(a), M); /* the older version counts x in the opposite direction */ double old = quantumdata::wignerFunctionOld(Bare{s.rho}, a.real(), a.imag(), cut); check(std::abs(old - 2 * e2) < 1e-6, "wigner.older-version", cfg + fmt(": %.12g instead of %.12g", old, 2 * e2)); count("values-compared"); sig(s.what + fmt("/%zu/%d%d", cut, a.real() != 0, a.imag() != 0)); sample(cfg); } }
SCENARIO(known, 20) { // closed forms, whole-plane identities
  double nbar = r.u(0, .6); size_t N = 40; Mat th(N); double q = nbar / (1 + nbar), p = 1 - q; for (size_t n = 0; n < N; ++n) { th(n, n) = p; p *= q; } cplx a = point(r); double e = std::exp(-2 * std::norm(a) / (2 * nbar + 1)) / (2 * nbar + 1) / M_PI, g = quantumdata::wignerFunction(qd::dop<1>(th, {N}), a.real(), a.imag()); check(std::abs(e - g) < 1e-8, "wigner.thermal", fmt("nbar %g at (%g,%g): %.12g instead of %.12g", nbar, a.real(), a.imag(), g, e));
  Drawn s = draw(r, size_t(r.i(1, 5))); auto rho = qd::dop<1>(s.rho, {s.rho.r}); double h = .15, L = 4.5, sum = 0, marg = 0; for (double x = -L; x <= L; x += h) for (double y = -L; y <= L; y += h) { double w = quantumdata::wignerFunction(rho, x, y); sum += w * h * h; marg += x * w * h * h; check(std::abs(w) <= 1 / M_PI + 1e-10, "wigner.bound", s.what); }
  double X = tr(s.rho * lower(s.rho.r)).real(); check(std::abs(2 * sum - 1) < 1e-6, "wigner.integral", s.what + fmt(" %g", sum)); check(std::abs(2 * marg - X) < 1e-6, "wigner.first-moment", s.what + fmt(" %g instead of %g", 2 * marg, X)); count("values-compared", 3700); sig(s.what + fmt("%.2g", nbar)); }
SCENARIO(husimi, 40) { size_t N = size_t(r.i(1, 14)); Drawn s = draw(r, N); for (int k = 0; k < 4; ++k) { cplx a = point(r); double e = husimi(s.rho, a); std::string cfg = s.what + fmt(" at (%g,%g)", a.real(), a.imag()); eachRepresentation(s, [&](const auto& x, const char* n) { double g = quantumdata::qFunction(x, a.real(), a.imag(), size_t(r.i(0, 20))); check(std::abs(g - e) < 1e-10 && g > -1e-12, "q.value", cfg + fmt(" %s: %.12g instead of %.12g", n, g, e)); count("values-compared"); }); sig("q" + s.what); sample(cfg); } }
SCENARIO(map, 25) { size_t N = size_t(r.i(2, 6)); Drawn s = draw(r, N); auto rho = qd::dop<1>(s.rho, {N}); parameters::Table t; quantumdata::ParsFunctionScan p(t, r.b() ? "A" : ""); bool symX = r.b(), symY = r.b(); p.fLimitXUL = symX ? r.u(.3, 2) : 0.; p.fLimitYUL = symY ? r.u(.3, 2) : 0.; p.fLimitXL = r.u(-2, 0); p.fLimitXU = p.fLimitXL + r.u(.2, 2); p.fLimitYL = r.u(-2, 0); p.fLimitYU = p.fLimitYL + r.u(.2, 2); p.fStep = r.u(.1, .5); p.fCutoff = r.b() ? int(r.i(1, 20)) : 100; bool q = r.b();
  double xl = symX ? -p.fLimitXUL : double(p.fLimitXL), xu = symX ? double(p.fLimitXUL) : double(p.fLimitXU), yl = symY ? -p.fLimitYUL : double(p.fLimitYL), yu = symY ? double(p.fLimitYUL) : double(p.fLimitYU), st = p.fStep; size_t M = std::min(N, size_t(p.fCutoff)); std::string cfg = s.what + fmt(" x %g..%g y %g..%g step %g cutoff %d q %d", xl, xu, yl, yu, st, int(p.fCutoff), q);
  std::ostringstream os; os.precision(12); using D = quantumdata::DensityOperator<1>; if (q) quantumdata::scanFunction(quantumdata::qFunction<D>, rho, os, p); else quantumdata::scanFunction(quantumdata::wignerFunction<D>, rho, os, p);
  std::istringstream is(os.str()); std::string line; size_t lines = 0, blocks = 0; bool ok = true; std::map<long, std::map<long, double>> seen; double lastX = 0; size_t inBlock = 0;
  while (std::getline(is, line)) { if (line.find_first_not_of(" \t") == line.npos) { ++blocks; check(inBlock > 0, "map.empty-block", cfg); inBlock = 0; continue; } std::istringstream l(line); double x, y, v; if (!check(bool(l >> x >> y >> v) && (l >> std::ws).eof(), "map.line", cfg + ": " + line)) return; if (inBlock) ok &= x == lastX; lastX = x; ++inBlock; ++lines; double e = q ? husimi(s.rho, {x, y}) : wigner(s.rho, {x, y}, M); check(std::abs(e - v) < 1e-8, "map.value", cfg + fmt(" at (%g,%g): %.12g instead of %.12g", x, y, v, e)); double i = (x - xl) / st, j = (y - yl) / st; check(std::abs(i - std::round(i)) < 1e-7 && std::abs(j - std::round(j)) < 1e-7 && x < xu + 1e-9 && y < yu + 1e-9, "map.grid", cfg + fmt(" (%g,%g)", x, y)); check(!seen[std::lround(i)].count(std::lround(j)), "map.twice", cfg); seen[std::lround(i)][std::lround(j)] = v; count("values-compared"); }
  auto n = [&](double lo, double hi) { return (hi - lo) / st; }; auto fits = [](size_t k, double x) { return double(k) >= x - 1e-6 && double(k) <= x + 1 + 1e-6; }; check(ok && blocks == seen.size() && fits(blocks, n(xl, xu)), "map.blocks", cfg + fmt(" %zu", blocks)); check(blocks && lines % blocks == 0 && fits(lines / blocks, n(yl, yu)), "map.lines", cfg + fmt(" %zu", lines)); sig(fmt("%d%d%d%d", symX, symY, q, int(p.fCutoff) < int(N)) + s.what); sample(cfg); }
