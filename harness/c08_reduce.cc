// C08: reduced states and slice averages against the textbook partial trace, for vectors and operators alike.
#include "qd.h"
using namespace vf; using namespace qd;
using quantumdata::StateVector; using quantumdata::DensityOperator; using quantumdata::LazyDensityOperator;
using dense::operator*; using dense::operator+; using dense::operator-;
namespace {
bool same(const Mat& a, const Mat& b, double tol, const std::string& key, const std::string& msg) { double s = 1; for (auto& x : b.a) s = std::max(s, std::abs(x)); double d = dense::dist(a, b); return check(d <= tol * s, key, msg + fmt(" deviation %g", d)); }

template <int R, int... AX> void one(Rng& r) {
  constexpr int K = sizeof...(AX); using V = tmptools::Vector<AX...>;
  std::vector<size_t> ax{size_t(AX)...}; std::string name = fmt("R%d<", R); for (auto a : ax) name += std::to_string(a); name += ">";
  Dims d = randDims(r, R, R > 3 ? 54 : 60, 6), kd; for (auto a : ax) kd.push_back(d[a]); size_t N = total(d); std::string where = name + " " + str(d);
  Vec v = dense::randVec(r, N, r.b()); Mat rho = r.b() ? dense::randRho(r, N, size_t(r.i(1, 3))) : dense::randHerm(r, N);
  auto P = sv<R>(v, d); auto D = dop<R>(rho, d); DensityOperator<R> PD(P);
  Mat wv = dense::ptrace(dense::dyad(v, v), d, ax), wr = dense::ptrace(rho, d, ax);
  auto judge = [&](const DensityOperator<K>& x, const Mat& want, const std::string& k) { check(dimsOf<K>(x) == kd && x.getTotalDimension() == total(kd), "reduce.dimensions." + k, where); same(mat<K>(x), want, 1e-12, "reduce." + k, where); close(x.trace(), dense::tr(want).real(), 1e-12, "reduce.trace." + k, where, 1e-11); };
  const LazyDensityOperator<R>&lP = P, &lD = D, &lPD = PD;
  judge(quantumdata::reduce<AX...>(lP), wv, "vector"); judge(quantumdata::reduce<AX...>(lPD), wv, "dyad"); judge(quantumdata::reduce<AX...>(lD), wr, "operator-lazy");
  judge(quantumdata::reduce<AX...>(D), wr, "operator"); judge(quantumdata::reduce<V>(D), wr, "operator-V"); judge(quantumdata::reduce<V>(lP), wv, "vector-V");
  same(mat<R>(D), rho, 0, "reduce.operand-untouched", where);
  // the packed list of the reduced operator, whatever its storage
  { auto x = quantumdata::reduce<AX...>(D); auto f = quantumdata::deflate(x, true); DensityOperator<K> y(tiny<K>(kd)); quantumdata::inflate(f, y, true); same(mat<K>(y), wr, 1e-12, "reduce.deflate", where); }
  // function averaged over slices: any function linear in the operator: here Tr(O rho_kept) as a number, and several at once as an array
  size_t M = total(kd); Mat O = dense::randHerm(r, M), O2 = dense::randMat(r, M);
  auto f = [&](const LazyDensityOperator<K>& m) { cplx s = 0.; for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < M; ++j) s += O2(j, i) * m(idx<K>(i, kd))(idx<K>(j, kd)); return s; };
  auto g = [&](const LazyDensityOperator<K>& m) { DArray<1> a(3); cplx s = 0.; double t = 0; for (size_t i = 0; i < M; ++i) { t += double(i) * double(m(idx<K>(i, kd))); for (size_t j = 0; j < M; ++j) s += O(j, i) * m(idx<K>(i, kd))(idx<K>(j, kd)); } a(0) = s.real(); a(1) = t; a(2) = m.trace(); return a; };
  auto judgeF = [&](const LazyDensityOperator<R>& m, const Mat& w, const std::string& k) {
    cplx got = quantumdata::partialTrace<V>(m, f); close(got, dense::tr(O2 * w), 1e-10, "average.complex." + k, where, 1e-10);
    DArray<1> a = quantumdata::partialTrace<V>(m, g); double t = 0; for (size_t i = 0; i < M; ++i) t += double(i) * w(i, i).real(); double sc = dense::fro(w) * double(M) * 1e-11;
    close(a(0), dense::tr(O * w).real(), 1e-10 + sc, "average.array." + k, where); close(a(1), t, 1e-10 + sc, "average.diagonal." + k, where); close(a(2), dense::tr(w).real(), 1e-10 + sc, "average.trace." + k, where); };
  judgeF(P, wv, "vector"); judgeF(PD, wv, "dyad"); judgeF(D, wr, "operator");
  // number of slices handed to the function: each combination of the traced-out indices exactly once
  { long n = 0; quantumdata::partialTrace<V>(lD, [&](const LazyDensityOperator<K>&) { ++n; return 0.; }); long m = 0; quantumdata::partialTrace<V>(lP, [&](const LazyDensityOperator<K>&) { ++m; return 0.; }); check(n == long(N / M) && m == n, "average.slices", where); count("slices", n + m); }
  // linearity
  { Mat rho2 = dense::randHerm(r, N); double x = r.u(-2, 2); auto s = quantumdata::reduce<AX...>(D + x * dop<R>(rho2, d)); same(mat<K>(s), wr + x * dense::ptrace(rho2, d, ax), 1e-11, "reduce.linear", where); }
  sig(where); sample(where); count("reductions");
}
template <int R> void lazy(Rng& r) {
  Dims d = randDims(r, R, 40); size_t N = total(d); Vec v = dense::randVec(r, N, false); auto P = sv<R>(v, d); DensityOperator<R> D(P); const LazyDensityOperator<R>&a = P, &b = D;
  same(matLDO<R>(a), matLDO<R>(b), 1e-13, "lazy.elements", str(d)); same(matLDO<R>(a), dense::dyad(v, v), 1e-13, "lazy.dyad", str(d)); close(a.trace(), b.trace(), 1e-12, "lazy.trace", str(d)); close(a.trace(), dense::nrm2(v), 1e-12, "lazy.trace", str(d));
  for (size_t i = 0; i < N; ++i) { close(double(a(idx<R>(i, d))), double(b(idx<R>(i, d))), 1e-13, "lazy.diagonal", str(d)); }
  auto fa = quantumdata::deflate(a, true), fb = quantumdata::deflate(b, true); bool ok = fa.size() == fb.size(); for (int k = 0; ok && k < fa.extent(0); ++k) ok = std::abs(fa(k) - fb(k)) < 1e-12 * (1 + std::abs(fa(k))); check(ok, "lazy.deflate", str(d));
  sig("lazy" + str(d));
}
} // namespace
SCENARIO(rank2, 40) { one<2, 0>(r); one<2, 1>(r); one<2, 0, 1>(r); one<2, 1, 0>(r); }
SCENARIO(rank3, 25) { one<3, 0>(r); one<3, 1>(r); one<3, 2>(r); one<3, 0, 1>(r); one<3, 0, 2>(r); one<3, 2, 0>(r); one<3, 1, 2>(r); one<3, 2, 1>(r); one<3, 1, 2, 0>(r); }
SCENARIO(rank4, 10) { one<4, 2>(r); one<4, 3, 0>(r); one<4, 1, 2>(r); one<4, 3, 0, 1>(r); one<4, 0, 3>(r); }
SCENARIO(lazy_view, 60) { lazy<1>(r); lazy<2>(r); lazy<3>(r); }
