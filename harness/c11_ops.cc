// C11: tridiagonal operators, projector-like operators and their products against the dense matrices they stand for.
#include "qd.h"
#include "Tridiagonal.tcc"
#include "Sigma.h"
using namespace vf; using namespace qd;
using quantumoperator::Tridiagonal; using quantumoperator::Sigma;
using dense::operator*; using dense::operator+; using dense::operator-;
namespace {
// reference: matrix at time zero plus the main diagonal w of the free part; the element (i,j) acquires exp((w_i-w_j)t)
template <int R> struct Node { Tridiagonal<R> T; Mat m; Vec w; Dims d, k; double t; bool freq, im; };
Mat at(const Mat& m, const Vec& w, double t) { Mat o = m; for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.c; ++j) o(i, j) *= std::exp((w[i] - w[j]) * t); return o; }

template <typename T, int R> Vec act(const T& op, const Vec& psi, const Vec& from, const Dims& d) {
  auto p = arr<R>(psi, d); auto o = arr<R>(from, d); op.apply(p, o); Vec res = dense::sub(vec<R>(o), from);
  return res;
}
template <int R> void judge(const Node<R>& n, Rng& r, const std::string& key, const std::string& where) {
  size_t N = total(n.d); Vec psi = dense::randVec(r, N), from = dense::randVec(r, N); Mat M = at(n.m, n.w, n.t); Vec want = M * psi;
  double s = 1; for (auto& x : M.a) s = std::max(s, std::abs(x));
  double dev = dense::dist(act<Tridiagonal<R>, R>(n.T, psi, from, n.d), want); check(dev <= 1e-11 * s * double(N), "tridiagonal." + key, where + fmt(" t=%g deviation %g", n.t, dev));
  { auto p = arr<R>(psi, n.d); auto o = arr<R>(from, n.d); quantumoperator::apply<R>(p, o, n.T); dev = dense::dist(dense::sub(vec<R>(o), from), want); check(dev <= 1e-11 * s * double(N), "tridiagonal.free-function", where + fmt(" t=%g deviation %g", n.t, dev)); }
  check(dimsOf<R>(n.T) == n.d, "tridiagonal.dimensions", where); close(n.T.getTime(), n.t, 0, "tridiagonal.time", where);
  count("applications");
}
CArray<1> a1(const Vec& v) { CArray<1> a(int(v.size())); for (size_t i = 0; i < v.size(); ++i) a(int(i)) = v[i]; return a; }
Vec rv(Rng& r, size_t n) { Vec v(n); for (auto& x : v) x = r.c(1.); return v; }
Vec rw(Rng& r, size_t n, bool im) { Vec v(n); for (auto& x : v) x = im ? cplx(0, r.u(-1, 1)) : cplx(r.u(-.5, .5), r.u(-1, 1)); return v; }

struct Axis { size_t n, k; bool freq; Vec w; };
// one unary operator on an axis; kind: bit0 main diagonal, bit1 minus, bit2 plus
Node<1> unary(Rng& r, const Axis& a, bool im, int kind, std::string& h) {
  size_t n = a.n, k = a.k; bool off = kind & 6; Vec z = kind & 1 ? rv(r, n) : Vec{}, mi = kind & 2 ? rv(r, n - k) : Vec{}, pl = kind & 4 ? rv(r, n - k) : Vec{};
  Mat m(n); for (size_t i = 0; i < z.size(); ++i) m(i, i) = z[i]; for (size_t i = 0; i < mi.size(); ++i) m(i + k, i) = mi[i]; for (size_t i = 0; i < pl.size(); ++i) m(i, i + k) = pl[i];
  bool freq = a.freq && (off || r.b()); Vec w(n, 0.); h += fmt("u%d%s", kind, freq ? "f" : "");
  if (freq) w = a.w; bool k0 = !off && r.b(); if (k0) h += "0";
  if (freq && !(kind & 1) && r.b()) { h += "q"; Node<1> N{Tridiagonal<1>(a1(dense::scal(-1., w)), k, a1(mi), a1(pl), true), m, w, {n}, {k}, 0., freq, im}; return N; }
  Tridiagonal<1> T(a1(z), k0 ? 0 : k, a1(mi), a1(pl));
  if (freq) { if (r.b()) T.furnishWithFreqs(a1(w)); else { auto Q = quantumoperator::furnishWithFreqs(T, a1(w)); return Node<1>{Q, m, w, {n}, {k}, 0., freq, im}; } }
  return Node<1>{T, m, w, {n}, {k}, 0., freq, im};
}
template <int R> Node<R> combine(const Node<R>& a, const Node<R>& b, bool minus) {
  Tridiagonal<R> T = minus ? a.T - b.T : a.T + b.T; bool f = a.freq; return Node<R>{T, minus ? a.m - b.m : a.m + b.m, f ? a.w : b.w, a.d, a.k, a.t, a.freq || b.freq, a.im};
}
template <int R> void mutate(Node<R>& n, Rng& r, std::string& h, const std::string& where) {
  switch (r.i(0, 8)) {
    case 0: { cplx c = r.c(2); n.T *= c; n.m = c * n.m; h += "*c"; } break;
    case 1: { double c = r.u(.5, 2); n.T /= c; n.m = (1 / c) * n.m; h += "/d"; } break;
    case 2: { cplx c = r.c(2); n.T = Tridiagonal<R>(c * n.T); n.m = c * n.m; h += "c*"; } break;
    case 3: { auto q = -n.T; Node<R> o{q, -1. * n.m, n.w, n.d, n.k, n.t, n.freq, n.im}; judge<R>(o, r, "negated", where + h); judge<R>(n, r, "operand-of-negation", where + h); n.T *= -1.; n.m = -1. * n.m; h += "-"; } break;
    case 4: if (n.im || n.t == 0) { auto q = r.b() ? n.T.dagger() : n.T.hermitianConjugate(); Node<R> o{q, dense::dag(n.m), n.w, n.d, n.k, n.t, n.freq, n.im}; judge<R>(o, r, "conjugated", where + h); judge<R>(n, r, "operand-of-conjugation", where + h);
          double t2 = r.u(-1, 1); auto q2 = q; q2.propagate(t2); o.T.propagate(t2); o.t = t2; judge<R>(o, r, "conjugated-propagated", where + h); judge<R>(n, r, "operand-of-conjugation", where + h); count("conjugations"); h += "+"; } break;
    case 5: if (n.im || n.t == 0) {
          Mat D = dense::dag(n.m); auto x = tridiagMinusHC(n.T), y = tridiagPlusHC(n.T), z = tridiagPlusHC_overI(n.T);
          Node<R> o{x, n.m - D, n.w, n.d, n.k, n.t, n.freq, n.im}; judge<R>(o, r, "minusHC", where + h); o.T.propagate(.7); o.t = .7; judge<R>(o, r, "minusHC-propagated", where + h);
          judge<R>(Node<R>{y, n.m + D, n.w, n.d, n.k, n.t, n.freq, n.im}, r, "plusHC", where + h); judge<R>(Node<R>{z, cplx(0, -1) * (n.m + D), n.w, n.d, n.k, n.t, n.freq, n.im}, r, "plusHC_overI", where + h); count("hermitian-combinations"); } break;
    default: { double t = r.b(.3) ? 0 : r.u(-1.5, 1.5); n.T.propagate(t); n.t = t; h += "t"; count("propagations"); } break;
  }
  judge<R>(n, r, "history", where + h);
}
template <int R> Node<R> build(Rng& r, const std::vector<Axis>& ax, size_t from, bool im, std::string& h, double t0) {
  auto leaf = [&] { if constexpr (R == 1) { int kind = int(r.i(1, 7)); auto n = unary(r, ax[from], im, kind, h); if (t0) { n.T.propagate(t0); n.t = t0; } return n; }
    else { auto prod = [&](auto&& a, auto&& b) { Dims d = a.d, k = a.k; d.insert(d.end(), b.d.begin(), b.d.end()); k.insert(k.end(), b.k.begin(), b.k.end()); Vec w; for (auto& x : a.w) for (auto& y : b.w) w.push_back(x + y); h += "x"; count("products"); return Node<R>{a.T * b.T, dense::kron(a.m, b.m), w, d, k, t0, a.freq || b.freq, im}; };
      if (R == 2 || r.b()) return prod(build<1>(r, ax, from, im, h, t0), build<R - 1>(r, ax, from + 1, im, h, t0)); return prod(build<R - 1>(r, ax, from, im, h, t0), build<1>(r, ax, from + R - 1, im, h, t0)); } };
  auto n = leaf();
  // sums: only with operators sharing the frequencies (or without off-diagonals at all)
  if (R == 1 && r.b(.4)) { auto m = leaf(); bool minus = r.b(); h += minus ? "(-)" : "(+)"; count("sums"); return combine<R>(n, m, minus); }
  return n;
}
template <int R> void tree(Rng& r) {
  std::vector<Axis> ax; bool im = r.b(); std::string where = fmt("R%d ", R);
  for (int k = 0; k < R; ++k) { Axis a; a.n = size_t(r.i(2, R == 1 ? 9 : R == 2 ? 6 : 4)); a.k = size_t(r.i(1, long(a.n) - 1)); a.freq = r.b(.7); a.w = rw(r, a.n, im); ax.push_back(a); where += fmt("%zu/%zu%s ", a.n, a.k, a.freq ? "f" : ""); }
  double t0 = r.b(.3) ? r.u(-1, 1) : 0; std::string h;
  auto n = build<R>(r, ax, 0, im, h, t0); sample(where + h); judge<R>(n, r, "constructed", where + h);
  { auto c = n; for (int k = int(r.i(1, 6)); k; --k) mutate<R>(c, r, h, where); judge<R>(n, r, "copy-is-independent", where + h); Node<R> d{n.T, n.m, n.w, n.d, n.k, n.t, n.freq, n.im}; d.T.propagate(1.); d.T *= cplx(2., 1.); judge<R>(n, r, "copy-is-independent", where + h); }
  // the whole-sum of two trees of the same axes
  if (r.b(.5)) { auto m = build<R>(r, ax, 0, im, h, t0); bool compat = true; for (size_t i = 0; i < n.w.size(); ++i) compat &= std::abs(n.w[i] - m.w[i]) < 1e-300; if (compat && n.freq == m.freq) { auto s = combine<R>(n, m, true); judge<R>(s, r, "subtraction", where + h); Node<R> p{n.T, n.m + m.m, n.w, n.d, n.k, t0, n.freq, im}; p.T += m.T; judge<R>(p, r, "sum", where + h); p.T.propagate(.9); p.t = .9; judge<R>(p, r, "sum-propagated", where + h); judge<R>(m, r, "addend-untouched", where + h); p.T.propagate(t0); p.t = t0; p.T -= n.T; p.m = p.m - n.m; judge<R>(p, r, "difference", where + h); count("sums"); } }
  sig(where + h);
}
} // anon
SCENARIO(trees1, 400) { tree<1>(r); }
SCENARIO(trees2, 300) { tree<2>(r); }
SCENARIO(trees3, 120) { tree<3>(r); }
SCENARIO(refusals, 200) {
  size_t n = size_t(r.i(3, 8)), k = size_t(r.i(1, long(n) - 2)); auto D = [&](size_t m) { return a1(rv(r, m)); };
  auto bad = [&](const std::string& what, auto f) { std::string e; check(throws(f, &e), "tridiagonal.not-refused." + what, fmt("n=%zu k=%zu", n, k)); count("refusals"); };
  bad("minus-size", [&] { Tridiagonal<1> x(D(n), k, D(n - k + 1), D(0)); });
  bad("plus-size", [&] { Tridiagonal<1> x(D(n), k, D(0), D(n - k - 1)); });
  bad("minus-plus", [&] { Tridiagonal<1> x(D(0), k, D(n - k), D(n - k + 1)); });
  bad("offdiagonal-without-offset", [&] { Tridiagonal<1> x(D(n), 0, D(n), D(0)); });
  bad("offset", [&] { Tridiagonal<1> x(D(0), k, D(n - k), D(0)), y(D(0), k + 1, D(n - k - 1), D(0)); x += y; });
  bad("time", [&] { Tridiagonal<1> x(D(n)), y(D(n)); x.propagate(1.); auto z = x * y; (void)z; });
  // frequencies differing in any single element
  bad("frequency", [&] { Vec w = rv(r, n), v = w; v[r.b() ? size_t(r.i(0, long(n - k) - 1)) : size_t(r.i(long(k), long(n) - 1))] += .5; Tridiagonal<1> x(D(0), k, D(n - k), D(0)), y(D(0), k, D(n - k), D(0)); x.furnishWithFreqs(a1(w)); y.furnishWithFreqs(a1(v)); x += y; });
  sig(fmt("%zu/%zu", n, k));
  auto I = quantumoperator::identity(n); Vec p = dense::randVec(r, n), f = dense::randVec(r, n); check(dense::dist(act<Tridiagonal<1>, 1>(I, p, f, {n}), p) < 1e-13, "tridiagonal.identity");
}
namespace {
Mat sg(size_t n, size_t l, size_t rr) { Mat m(n); m(l, rr) = 1.; return m; }
template <int R, typename T> void same(const T& op, const Mat& M, const Dims& d, Rng& r, const std::string& key) { size_t N = total(d); Vec p = dense::randVec(r, N), f = dense::randVec(r, N); double dev = dense::dist(act<T, R>(op, p, f, d), M * p); double s = 1; for (auto& x : M.a) s = std::max(s, std::abs(x)); check(dev <= 1e-11 * s * double(N), "sigma." + key, str(d) + fmt(" deviation %g", dev)); count("sigma-applications"); }
template <int L, int RR> void sigmas(Rng& r) {
  size_t mx = std::max(L, RR) + 1; size_t n = size_t(r.i(long(mx), 5)), n2 = size_t(r.i(3, 6)), k = size_t(r.i(1, long(n2) - 1)), n3 = size_t(r.i(2, 4));
  Sigma<L, RR> s; Mat S = sg(n, L, RR); same<1>(s, S, {n}, r, "single"); same<1>(s.dagger(), dense::dag(S), {n}, r, "dagger");
  std::string h; Axis a{n2, k, true, rw(r, n2, true)}, b{n3, 1, true, rw(r, n3, true)}; auto T = unary(r, a, true, int(r.i(1, 7)), h), U = unary(r, b, true, int(r.i(1, 7)), h); double t = r.b() ? 0. : r.u(-1, 1); T.T.propagate(t); U.T.propagate(t);
  Mat M = at(T.m, T.w, t), K = at(U.m, U.w, t);
  auto st = s * T.T; same<2>(st, dense::kron(S, M), {n, n2}, r, "head*tridiagonal");
  auto ts = T.T * s; same<2>(ts, dense::kron(M, S), {n2, n}, r, "tridiagonal*tail");
  Sigma<1, 0> q; Mat Q = sg(n3, 1, 0); auto ss = s * q; same<2>(ss, dense::kron(S, Q), {n, n3}, r, "sigma*sigma");
  Sigma<1, 1> q2; auto ss2 = q2 * s; same<2>(ss2, dense::kron(sg(n3, 1, 1), S), {n3, n}, r, "sigma*sigma");
  auto sst = q * st; same<3>(sst, dense::kron(Q, dense::kron(S, M)), {n3, n, n2}, r, "sigma*(sigma*tridiagonal)");
  auto tsq = ts * q; same<3>(tsq, dense::kron(M, dense::kron(S, Q)), {n2, n, n3}, r, "(tridiagonal*sigma)*sigma");
  auto qts = q * ts; same<3>(qts, dense::kron(Q, dense::kron(M, S)), {n3, n2, n}, r, "sigma*(tridiagonal*sigma)");
  auto TU = T.T * U.T; auto stu = s * TU; same<3>(stu, dense::kron(S, dense::kron(M, K)), {n, n2, n3}, r, "sigma*(product)");
  auto tus = TU * s; same<3>(tus, dense::kron(dense::kron(M, K), S), {n2, n3, n}, r, "(product)*sigma");
  sig(fmt("%d%d %zu %zu/%zu %zu ", L, RR, n, n2, k, n3) + h);
}
}
SCENARIO(sigma, 60) { sigmas<0, 0>(r); sigmas<0, 1>(r); sigmas<1, 0>(r); sigmas<2, 0>(r); sigmas<1, 3>(r); }
