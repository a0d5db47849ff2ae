// C22: array, combinatorial and numerical utilities against independent computation.
#include "qd.h"
#include "Algorithm.h"
#include "BlitzTinyOfArrays.tcc"
#include "Combinatorics.h"
#include "ComplexArrayExtensions.h"
#include "CMatrix.h"
#include "ContainerIO.h"
#include "Conversions.h"
#include "DrivenDampedHarmonicOscillator.h"
#include "FuzzyDouble.h"
#include "IO_Manip.h"
#include "MathExtensions.h"
#include "ModeFunction.h"
#include "VectorFromMatrixSliceIterator.h"
#include "Archive.h"
#include <boost/mpl/for_each.hpp>
#include <list>
#include <map>
using namespace vf; using namespace qd;
using dense::operator*; using dense::operator+; using dense::operator-;
namespace cu = cppqedutils;
namespace {
// Pascal's triangle in long double: exact up to 2^64
long double pascal(unsigned n, unsigned k) { if (k > n) return 0; if (k > n - k) k = n - k; std::vector<long double> row(k + 1, 0.L); row[0] = 1; for (unsigned i = 1; i <= n; ++i) for (unsigned j = std::min(i, k); j > 0; --j) row[j] += row[j - 1]; return row[k]; }
template <size_t N> void combos(Rng& r) {
  size_t kmax = N == 1 ? 30 : N == 2 ? 25 : N == 3 ? 14 : N == 4 ? 9 : 6, k = size_t(r.i(0, long(kmax)));
  std::string d = fmt("sites=%zu particles=%zu", N, k);
  cu::CWR_Dir<N> dir(k);
  const auto& all = dir();
  long double want = pascal(unsigned(N + k - 1), unsigned(k));
  check((long double)all.size() == want, "cwr.count", d + fmt(" got %zu", all.size()));
  std::set<std::array<size_t, N>> seen;
  for (size_t i = 0; i < all.size(); ++i) {
    size_t s = 0; for (auto x : all[i]) s += x;
    check(s == k, "cwr.sum", d);
    seen.insert(all[i]);
    check(dir[i] == all[i], "cwr.subscript", d);
    check(dir[all[i]] == i, "cwr.inverse", d);
  }
  check(seen.size() == all.size(), "cwr.repeated", d);
  // configurations of another number of particles are unknown
  auto c = all[size_t(r.i(0, long(all.size()) - 1))]; ++c[size_t(r.i(0, N - 1))];
  bool right = false; try { (void)dir[c]; } catch (const typename cu::CWR_Dir<N>::SubscriptingException& e) { right = e.conf == c; } catch (...) {}
  check(right, "cwr.unknown", d);
  sig(d); sample(d); count("configurations", long(all.size()));
}
} // namespace
SCENARIO(combinations, 30) { combos<1>(r); combos<2>(r); combos<3>(r); combos<4>(r); combos<5>(r); }

SCENARIO(numbers, 120) {
  double x = r.b(.2) ? 0. : r.n() * r.logu(1e-6, 1e6), y = r.b(.3) ? x : r.n() * r.logu(1e-6, 1e6);
  check(cu::sign(x) == (x >= 0 ? 1 : -1), "sign", fmt("%g", x)); check(cu::sign(-1e-300) == -1 && cu::sign(1e-300) == 1, "sign", "tiny");
  close(cu::sqr(x), x * x, 1e-15, "sqr"); check(cu::sqr(int(7)) == 49 && cu::sqr(cplx(1, 2)) == cplx(-3, 4), "sqr", "generic"); cplx z(x, y); close(cu::sqrAbs(z), x * x + y * y, 1e-15, "sqrAbs");
  double eps = r.logu(1e-12, 1e-3); if (x != 0) { double in = x * (1 + r.u(-.4, .4) * eps), up = x + std::abs(x) * eps * r.u(4, 10), dn = x - std::abs(x) * eps * r.u(4, 10); check(cu::fcmp(x, in, eps) == 0, "fcmp", "near"); check(cu::fcmp(x, up, eps) == -1 && cu::fcmp(x, dn, eps) == 1 && cu::fcmp(up, x, eps) == 1, "fcmp", "far"); }
  long n = r.i(-1000000, 1000000); check(cu::parity(n) == (n % 2 != 0), "parity", fmt("%ld", n)); check(int(cu::minusOneToThePowerOf(n)) == (n % 2 ? -1 : 1), "minusOneToThePowerOf", fmt("%ld", n));
  check(cu::round(double(n) + .5) == (n >= 0 ? n + 1 : n), "round", fmt("%ld.5", n)); { double f = r.u(-.499, .499); check(cu::round(double(n) + f) == n, "round", fmt("%ld + %g", n, f)); }
  check(cu::round(0.) == 0 && cu::round(-.5) == -1 && cu::round(.5) == 1, "round", "half");
  if (x != 0) { close(cu::relativeDeviation(x, y), std::abs(x - y) / (std::abs(x) + std::abs(y)), 1e-14, "relativeDeviation"); cplx a = r.c(), b = r.c(); close(cu::relativeDeviation(a, b), std::abs(a - b) / (std::abs(a) + std::abs(b)), 1e-14, "relativeDeviation"); }
  check(cu::PI == M_PI && cu::EULER == M_E && std::abs(cu::SQRTPI - std::sqrt(M_PI)) < 1e-15, "constants");
  unsigned k = unsigned(r.i(0, 170)); { long double f = 1; for (unsigned i = 2; i <= k; ++i) f *= i; close(cu::fact(k) / double(f), 1., 1e-13, "fact", fmt("%u", k)); check(throws([&] { cu::fact(171 + k * 7); }), "fact.refused", fmt("%u", 171 + k * 7)); }
  unsigned N = unsigned(r.i(0, 60)), m = unsigned(r.i(0, N)); close(cu::choose(N, m) / double(pascal(N, m)), 1., 1e-12, "choose", fmt("%u %u", N, m));
  unsigned s = unsigned(r.i(1, 25)), p = unsigned(r.i(0, 30)); close(double(cu::multiChoose<long double>(s, p) / pascal(s + p - 1, p)), 1., 1e-14, "multiChoose", fmt("%u %u", s, p)); close(cu::multiChoose<double>(s, p) / double(pascal(s + p - 1, p)), 1., 1e-12, "multiChoose.double", fmt("%u %u", s, p));
  check(isNonZero(z) == (x != 0 || y != 0) && hasRealPart(z) == (x != 0) && hasImagPart(z) == (y != 0), "complex.parts"); cplx w = r.c(3); check(absCompare(z, w) == (std::abs(z) < std::abs(w)) && realCompare(z, w) == (x < w.real()), "complex.compare");
  // conversions
  double q = r.u(-2e9, 2e9); check(double2Int(q) == int(q) && double2Long(q) == long(q) && double2Ptrdiff_t(q) == ptrdiff_t(q), "convert.double", fmt("%.17g", q)); q = std::abs(q); check(double2Unsigned(q) == unsigned(q) && double2Size_t(q) == size_t(q) && longDouble2Size_t(q) == size_t(q) && longDouble2Long(q) == long(q) && long2Int(long(q)) == int(q) && size_t2Double(size_t(q)) == double(size_t(q)), "convert", fmt("%.17g", q));
  sig(fmt("%ld %u %u", n % 1000, k, N));
}
SCENARIO(coherent_elements, 80) {
  unsigned long n = r.b(.15) ? 0 : r.b(.3) ? (unsigned long)r.i(160, 180) : (unsigned long)r.i(1, r.b() ? 169 : 1200); double a = r.logu(.01, n < 170 ? 40. : 35.); if (r.b(.5) && n > 3) a = std::sqrt(double(n)) * r.u(.5, 1.5); a = std::min(a, 60.); cplx al = std::polar(a, r.b(.3) ? 0. : r.u(-M_PI, M_PI));
  double lg = double(n) * std::log(a) - .5 * std::lgamma(double(n) + 1); if (std::abs(lg) > 600 || (n < 170 && double(n) * std::abs(std::log(a)) > 690)) return;
  cplx got = cu::coherentElement(n, al), want = std::polar(std::exp(lg), std::remainder(double(n) * std::arg(al), 2 * M_PI)); double tol = n < 170 ? 1e-11 : 1. / (24. * double(n)) * 1.2; // the documented Stirling branch
  check(std::abs(got - want) <= tol * std::abs(want), "coherentElement", fmt("n=%lu alpha=(%g,%g) got (%.15g,%.15g) expected (%.15g,%.15g)", n, al.real(), al.imag(), got.real(), got.imag(), want.real(), want.imag()));
  check(cu::coherentElement(0, al) == 1. && cu::coherentElement(0, 0.) == 1., "coherentElement.zero"); if (n) check(cu::coherentElement(n, 0.) == 0., "coherentElement.vacuum", fmt("n=%lu", n));
  sig(fmt("%lu", n)); count(n < 170 ? "factorial branch" : "Stirling branch");
}
SCENARIO(fuzzy, 100) {
  double x = r.n() * r.logu(1e-8, 1e8); if (x == 0) return; double e = std::numeric_limits<double>::epsilon(); using F = cu::FuzzyDouble;
  double nr = x * (1 + r.i(-3, 3) * e), up = x + std::abs(x) * e * r.u(50, 1e6), dn = x - std::abs(x) * e * r.u(50, 1e6); std::string d = fmt("%.17g", x);
  auto rel = [&](double b, int want, const char* w) { F fa(x), fb(b); int got1 = (fa < fb) ? -1 : (fa == fb) ? 0 : (fa > fb) ? 1 : 9, got2 = (fa < b) ? -1 : (fa == b) ? 0 : (fa > b) ? 1 : 9; check(got1 == want && got2 == want, std::string("fuzzy.") + w, d);
    check((fa <= fb) == (want <= 0) && (fa >= fb) == (want >= 0) && (fa != fb) == (want != 0), std::string("fuzzy.derived.") + w, d); };
  rel(nr, 0, "near"); rel(up, -1, "above"); rel(dn, 1, "below"); F f; f = up; check(double(f) == up && double(F(x)) == x && double(F()) == 0, "fuzzy.value", d);
  sig(fmt("%d", int(std::log10(std::abs(x))))); 
}
SCENARIO(sequences, 60) {
  std::vector<std::vector<int>> s; std::vector<int> flat; int m = int(r.i(0, 6)); for (int i = 0; i < m; ++i) { std::vector<int> v; int n = int(r.i(0, 5)); for (int k = 0; k < n; ++k) { v.push_back(int(r.i(-99, 99))); flat.push_back(v.back()); } s.push_back(v); }
  std::vector<int> out(flat.size() + 2, 777); auto& ret = cu::concatenate(s, out); bool ok = &ret == &out; for (size_t i = 0; i < flat.size(); ++i) ok = ok && out[i] == flat[i]; check(ok && out[flat.size()] == 777 && out[flat.size() + 1] == 777, "concatenate", fmt("%d", m));
  check(cu::concatenateGrow<std::vector<int>>(s) == flat, "concatenateGrow"); auto l = cu::concatenateGrow<std::list<int>>(s); check(std::vector<int>(l.begin(), l.end()) == flat, "concatenateGrow.list");
  std::vector<int> it; cu::concatenateViaIterator(s, std::back_inserter(it)); check(it == flat, "concatenateViaIterator");
  // fold: in order, with projection
  std::string want = "<"; for (int x : flat) want += std::to_string(2 * x) + ";"; std::string got = cu::ranges::fold(flat, std::string("<"), [](std::string a, int b) { return a + std::to_string(b) + ";"; }, [](int x) { return 2 * x; }); check(got == want, "fold", want); long sum = 0; for (int x : flat) sum += x; check(cu::ranges::fold(flat, 0L, [](long a, int b) { return a + b; }) == sum, "fold.sum");
  sig(fmt("%zu %zu", s.size(), flat.size()));
}
namespace {
template <typename T, int R> blitz::TinyVector<T, R> rt(Rng& r) { blitz::TinyVector<T, R> t; for (int k = 0; k < R; ++k) t(k) = T(r.i(1, 9)); return t; }
template <int A, int B> void tinies(Rng& r) {
  auto a = rt<int, A>(r); auto b = rt<int, B>(r); auto c = blitzplusplus::concatenateTinies(a, b); bool ok = c.length() == A + B; for (int k = 0; k < A; ++k) ok = ok && c(k) == a(k); for (int k = 0; k < B; ++k) ok = ok && c(A + k) == b(k); check(ok, "concatenateTinies", fmt("%d %d", A, B));
  auto bl = rt<long, B>(r); auto e = blitzplusplus::concatenateTinies(a, bl); ok = true; for (int k = 0; k < B; ++k) ok = ok && e(A + k) == int(bl(k)); check(ok, "concatenateTinies.convert", fmt("%d %d", A, B));
  auto h = blitzplusplus::halfCutTiny(blitzplusplus::concatenateTinies(a, a)); ok = h.length() == A; for (int k = 0; k < A; ++k) ok = ok && h(k) == a(k); check(ok, "halfCutTiny", fmt("%d", A)); sig(fmt("t%d %d", A, B));
}
template <int R> void arrays(Rng& r) {
  Dims d = randDims(r, R, 24, 4); size_t N = total(d); Vec v = dense::randVec(r, N, false); auto a = arr<R>(v, d); std::string w = str(d);
  { auto u = blitzplusplus::unaryArray(a); bool ok = size_t(u.extent(0)) == N && u.data() == a.data(); for (size_t n = 0; n < N; ++n) ok = ok && u(int(n)) == v[n]; check(ok, "unaryArray", w); auto uu = u; uu(int(N) - 1) = cplx(3, 4); check(a(idx<R>(N - 1, d)) == cplx(3, 4), "unaryArray.alias", w); v[N - 1] = cplx(3, 4); CArray<R> e; check(blitzplusplus::unaryArray(e).size() == 0, "unaryArray.empty"); }
  Mat m = dense::randMat(r, N); auto A = arrM<R>(m, d);
  { auto b = blitzplusplus::binaryArray(A); bool ok = size_t(b.extent(0)) == N && size_t(b.extent(1)) == N && b.data() == A.data(); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) ok = ok && b(int(i), int(j)) == m(i, j); check(ok, "binaryArray", w); CArray<2 * R> e; check(blitzplusplus::binaryArray(e).size() == 0, "binaryArray.empty"); }
  { auto h = blitzplusplus::hermitianConjugate(A); check(dense::dist(mat<R>(h), dense::dag(m)) == 0 && dense::dist(mat<R>(A), m) == 0, "hermitianConjugate", w); auto B = A.copy(); blitzplusplus::hermitianConjugateSelf(B); check(dense::dist(mat<R>(B), dense::dag(m)) == 0, "hermitianConjugateSelf", w); blitzplusplus::hermitianConjugateSelf(B); check(dense::dist(mat<R>(B), m) == 0, "hermitianConjugateSelf.twice", w); }
  { Dims d2 = randDims(r, 2, 12, 4); Vec v2 = dense::randVec(r, total(d2), false); auto a2 = arr<2>(v2, d2); auto p = blitzplusplus::doDirect<blitzplusplus::dodirect::multiplication>(a, a2); auto s = blitzplusplus::doDirect<blitzplusplus::dodirect::addition>(a, a2); Vec fp = vec<R + 2>(p), fs = vec<R + 2>(s); bool okP = fp.size() == N * v2.size(), okS = fs.size() == fp.size(); for (size_t i = 0; okP && i < N; ++i) for (size_t j = 0; j < v2.size(); ++j) { okP = okP && std::abs(fp[i * v2.size() + j] - v[i] * v2[j]) < 1e-14; okS = okS && std::abs(fs[i * v2.size() + j] - v[i] - v2[j]) < 1e-14; } check(okP, "doDirect.multiplication", w + " " + str(d2)); check(okS, "doDirect.addition", w + " " + str(d2)); check(dense::dist(vec<R>(a), v) == 0, "doDirect.operand", w); }
  sig("a" + w);
}
} // namespace
SCENARIO(tiny_vectors, 20) { tinies<1, 1>(r); tinies<1, 3>(r); tinies<2, 2>(r); tinies<3, 1>(r); tinies<4, 5>(r); tinies<5, 4>(r); }
SCENARIO(array_views, 40) { arrays<1>(r); arrays<2>(r); arrays<3>(r); arrays<4>(r); }
SCENARIO(matrices, 60) {
  size_t N = size_t(r.i(1, 8)), M = r.b() ? N : size_t(r.i(1, 8)); linalg::CMatrix m{int(M), int(N)}; linalg::CVector a{int(N)}, b{int(M)}, b0{int(M)}; for (size_t i = 0; i < M; ++i) { b0(int(i)) = b(int(i)) = r.c(2); for (size_t j = 0; j < N; ++j) m(int(i), int(j)) = r.c(2); } for (size_t j = 0; j < N; ++j) a(int(j)) = r.c(2);
  linalg::CVector& ret = linalg::apply(a, b, m); check(&ret == &b, "apply.returned"); for (size_t i = 0; i < M; ++i) { cplx s = b0(int(i)); for (size_t j = 0; j < N; ++j) s += m(int(i), int(j)) * a(int(j)); close(b(int(i)), s, 1e-13, "apply.accumulates", fmt("%zux%zu", M, N)); }
  linalg::CMatrix q{int(N), int(N)}; Mat q0(N); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) q(int(i), int(j)) = q0(i, j) = r.c(2); auto& rr = linalg::calculateTwoTimesRealPartOfSelf(q); check(&rr == &q, "twoTimesReal.returned"); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) close(q(int(i), int(j)), q0(i, j) + std::conj(q0(j, i)), 1e-13, "twoTimesRealPart", fmt("%zu", N));
  sig(fmt("%zu %zu", M, N));
}
namespace {
template <int R, int L> void toa(Rng& r) {
  using A = blitz::Array<double, R>; using T = blitzplusplus::TinyOfArrays<double, R, L>; blitz::TinyVector<int, R> sh; for (int k = 0; k < R; ++k) sh(k) = int(r.i(1, 4));
  auto mk = [&] { A x(sh); for (auto& e : x) e = r.n(); return x; }; A x = mk(); T sh1(blitzplusplus::ShallowCopy(), x), dp1(blitzplusplus::DeepCopy(), x); double* first = x.data(); double old = *first;
  for (int i = 0; i < L; ++i) { check(sh1(i).data() == first, "tinyOfArrays.shallow", fmt("%d", i)); check(dp1(i).data() != first && all(dp1(i) == x), "tinyOfArrays.deep", fmt("%d", i)); for (int j = 0; j < i; ++j) check(dp1(i).data() != dp1(j).data(), "tinyOfArrays.deep.shared", fmt("%d %d", i, j)); }
  *first = old + 1; for (int i = 0; i < L; ++i) check(*sh1(i).data() == old + 1 && *dp1(i).data() == old, "tinyOfArrays.write", fmt("%d", i));
  for (int i = 0; i < L; ++i) dp1(i) = mk(); T s2(blitzplusplus::ShallowCopy(), dp1), d2(blitzplusplus::DeepCopy(), dp1); for (int i = 0; i < L; ++i) check(s2(i).data() == dp1(i).data() && d2(i).data() != dp1(i).data() && all(d2(i) == dp1(i)), "tinyOfArrays.copy", fmt("%d", i));
  sig(fmt("toa%d %d", R, L));
}
} // namespace
SCENARIO(tiny_of_arrays, 20) {
  toa<1, 3>(r); toa<2, 2>(r); toa<3, 5>(r);
  using A = blitz::Array<double, 1>; A a(3), b(4), c(2); for (auto* p : {&a, &b, &c}) for (auto& e : *p) e = r.n(); using T3 = blitzplusplus::TinyOfArrays<double, 1, 3>; T3 s(blitzplusplus::ShallowCopy(), a, b, c), d(blitzplusplus::DeepCopy(), a, b, c); check(s(0).data() == a.data() && s(1).data() == b.data() && s(2).data() == c.data(), "tinyOfArrays.list.shallow"); check(d(0).data() != a.data() && all(d(0) == a) && all(d(1) == b) && all(d(2) == c), "tinyOfArrays.list.deep");
}
SCENARIO(oscillator, 60) {
  double g = r.b(.25) ? 1. : r.b() ? r.u(0, .95) : r.u(1.1, 4), om = r.u(-3, 3); if (g < .05 && std::abs(std::abs(om) - 1) < .1) om = 2; cplx y0 = r.c(2), v0 = r.c(2); double t0 = r.b(.3) ? 0. : r.u(-3, 3); auto o = cu::ddho::make(g, om, y0, v0, t0); std::string d = fmt("gamma=%g omega=%g t0=%g", g, om, t0);
  close(o->amp(t0), y0, 1e-9, "ddho.initial", d); close(o->ampDeriv(t0), v0, 1e-9, "ddho.initial-derivative", d);
  // reference: power series of the exact solution, advanced in small steps
  double T = t0 + r.u(-1.5, 3); cplx y = y0, v = v0; int n = 64; double h = (T - t0) / n, t = t0; for (int s = 0; s < n; ++s) { const int K = 24; std::vector<cplx> c(K + 3); c[0] = y; c[1] = v; cplx e = std::polar(1., om * t); for (int k = 0; k <= K; ++k) { c[size_t(k) + 2] = (e - 2 * g * double(k + 1) * c[size_t(k) + 1] - c[size_t(k)]) / double((k + 1) * (k + 2)); e *= cplx(0, om) / double(k + 1); } y = v = 0; for (int k = K + 1; k >= 0; --k) { y = y * h + c[size_t(k)]; } for (int k = K + 1; k >= 1; --k) v = v * h + double(k) * c[size_t(k)]; t += h; }
  double sc = 1 + std::abs(y0) + std::abs(v0) + std::abs(y) + std::abs(v); close(o->amp(T), y, 1e-9 * sc, "ddho.solution", d + fmt(" T=%g", T)); close(o->ampDeriv(T), v, 1e-9 * sc, "ddho.derivative", d + fmt(" T=%g", T));
  sig(fmt("%d %d %d", g == 1 ? 0 : g < 1 ? 1 : 2, int(om * 2), int(t0 * 2)));
}
namespace {
template <typename T> std::string put(const T& x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
template <typename T> bool get(const std::string& s, T& x) { std::istringstream i(s); i >> x; return bool(i); }
} // namespace
SCENARIO(container_text, 60) {
  size_t n = size_t(r.i(1, 6)); std::vector<double> v(n), w(n, -7.); for (auto& x : v) x = r.n() * r.logu(1e-3, 1e3); std::string s = put(v); check(get(s, w) && w == v, "containerIO.vector", s); { std::string want = "["; for (size_t i = 0; i < n; ++i) want += (i ? ", " : "") + put(v[i]); want += "]"; check(s == want, "containerIO.text", s + " vs " + want); }
  std::array<int, 4> a{int(r.i(-9, 9)), int(r.i(-9, 9)), int(r.i(-9, 9)), int(r.i(-9, 9))}, b{}; check(get(put(a), b) && a == b, "containerIO.array", put(a)); std::list<long> l{1, -2, r.i(0, 99)}, l2(3); check(get(put(l), l2) && l == l2, "containerIO.list", put(l));
  std::pair<int, double> p{int(r.i(-9, 9)), r.n()}, p2; check(get(put(p), p2) && p == p2, "containerIO.pair", put(p)); std::tuple<int, double, std::complex<double>, char> t{int(r.i(-9, 9)), r.n(), r.c(), 'q'}, t2; check(get(put(t), t2) && t == t2, "containerIO.tuple", put(t));
  boost::hana::tuple<int, double> h{int(r.i(-9, 9)), r.n()}, h2; check(get(put(h), h2) && h == h2, "containerIO.hana", put(h)); std::vector<std::pair<int, double>> vp{p, {3, 4.5}}, vp2(2); check(get(put(vp), vp2) && vp == vp2, "containerIO.nested", put(vp));
  check(put(std::set<int>{3, 1, 2}) == "{1, 2, 3}" && put(std::vector<int>{}) == "[]" && put(std::map<int, int>{{1, 2}}) == "[" + put(std::pair<const int, int>(1, 2)) + "]", "containerIO.delimiters", put(std::set<int>{3, 1, 2}));
  // white space is free, anything else is an error
  std::string loose; for (char c : s) { if ((c == ',' || c == '[' || c == ']') && r.b()) loose += " "; loose += c; if ((c == ',' || c == '[') && r.b()) loose += "  "; } std::vector<double> w2(n); check(get(loose, w2) && w2 == v, "containerIO.white-space", loose);
  std::string bad = s; size_t at = r.pick(std::vector<size_t>{0, s.size() - 1, s.find(',') == std::string::npos ? 0 : s.find(',')}); bad[at] = r.pick(std::vector<char>{';', '(', '}', 'x'}); check(!get(bad, w2), "containerIO.malformed", bad); check(!get(s.substr(0, size_t(r.i(0, long(s.size()) - 1))), w2), "containerIO.cut", s); std::vector<double> more(n + 1), fewer(n - 1); check(!get(s, more), "containerIO.too-few", s); if (n > 1) check(!get(s, fewer), "containerIO.too-many", s);
  blitz::TinyVector<double, 3> tv{r.n(), r.n(), r.n()}, tv2; std::string ts = put(tv); check(get(ts, tv2) && all(tv == tv2), "tinyIO", ts); blitz::TinyVector<cplx, 2> tc{r.c(), r.c()}, tc2; check(get(put(tc), tc2) && tc(0) == tc2(0) && tc(1) == tc2(1), "tinyIO.complex", put(tc));
  // tuples go through archives unchanged
  { std::ostringstream o; { cu::oarchive ar(o); ar & t; } decltype(t) t3; std::istringstream i(o.str()); { cu::iarchive ar(i); ar & t3; } check(t3 == t, "tuple.archive"); }
  sig(fmt("%zu", n));
}
SCENARIO(mode_functions, 20) {
  double x = r.u(-20, 20); close(modeFunction(MFT_SIN, x), cplx(std::sin(x)), 1e-14, "modeFunction"); close(modeFunction(MFT_COS, x), cplx(std::cos(x)), 1e-14, "modeFunction"); close(modeFunction(MFT_PLUS, x), std::polar(1., x), 1e-14, "modeFunction"); close(modeFunction(MFT_MINUS, x), std::polar(1., -x), 1e-14, "modeFunction");
  for (auto m : {MFT_SIN, MFT_COS, MFT_PLUS, MFT_MINUS}) { ModeFunctionType k = m == MFT_SIN ? MFT_COS : MFT_SIN; check(get(put(m), k) && k == m, "modeFunction.io", put(m)); check(isComplex(m) == (m == MFT_PLUS || m == MFT_MINUS), "modeFunction.isComplex"); ModeFunctionType u = m; check(!get(r.pick(std::vector<std::string>{"sin", "Sine", "plus", "K+", "COS", "Minu"}), u) && u == m, "modeFunction.unknown"); }
  sig(fmt("%d", int(x)));
}
namespace { template <typename S> std::vector<int> ints() { std::vector<int> v; boost::mpl::for_each<S>([&](auto t) { v.push_back(int(decltype(t)::value)); }); return v; } }
SCENARIO(compile_time_tools, 2) {
  using namespace tmptools; using V = Vector<3, 1, 6>; using VI = std::vector<int>;
  check(ints<Range<4, 3>>() == VI{3, 4, 5, 6} && ints<Ordinals<3>>() == VI{0, 1, 2} && ints<V>() == VI{3, 1, 6}, "tmp.sequences"); check(Power_v<3, 4> == 81 && Power_v<5, 0> == 1 && Power_v<2, 10> == 1024, "tmp.power");
  check(numerical_contains_c<V, 1>::value && numerical_contains_c<V, 6L>::value && !numerical_contains_c<V, 2>::value && !numerical_contains_c<V_Empty, 0>::value, "tmp.contains"); check(numerical_equal<Vector<0, 1, 2>, Ordinals<3>>::value && !numerical_equal<Vector<0, 2, 1>, Ordinals<3>>::value && !numerical_equal<Vector<0, 1>, Ordinals<3>>::value, "tmp.equal");
  check(ints<ExtendVector_t<7, V>>() == VI{3, 1, 6, 10, 8, 13}, "tmp.extend"); check(ints<NegatedVector<8, V>>() == VI{0, 2, 4, 5, 7}, "tmp.negated"); check(integral_if_c_v<true, 3, 4> == 3 && integral_if_c_v<false, 3, 4> == 4, "tmp.if"); check(pair_c<3, 5>::first == 3 && pair_c<3, 5>::second == 5 && pair_c<4, 4, false>::second == 4, "tmp.pair");
  sig(fmt("%llu", (unsigned long long)(r.next() % 2)));
}
