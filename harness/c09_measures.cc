// C09: entanglement measures against their definitions on independently computed spectra.
#include "qd.h"
#include "EntanglementMeasures.h"
using namespace vf; using namespace qd;
using quantumdata::StateVector; using quantumdata::DensityOperator;
using dense::operator*; using dense::operator+; using dense::operator-;
namespace {
double entropyRef(const Mat& m) { double s = 0; for (double e : dense::eigh(m)) if (e > 1e-300) s -= e * std::log(e); return s; }
Mat partialTranspose(const Mat& rho, const Dims& d, const std::vector<size_t>& ax) {
  size_t N = total(d); Mat m(N); std::vector<size_t> st(d.size()); { size_t s = 1; for (size_t k = d.size(); k-- > 0;) { st[k] = s; s *= d[k]; } }
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { size_t a = i, b = j; for (auto x : ax) { size_t vi = (i / st[x]) % d[x], vj = (j / st[x]) % d[x]; a = a - vi * st[x] + vj * st[x]; b = b - vj * st[x] + vi * st[x]; } m(a, b) = rho(i, j); }
  return m;
}
double negRef(const Mat& rho, const Dims& d, const std::vector<size_t>& ax) { double s = 0; for (double e : dense::eigh(partialTranspose(rho, d, ax))) s += std::abs(e); return (s - 1) / 2; }
Mat randState(Rng& r, const Dims& d, std::string& kind) {
  size_t N = total(d); int k = int(r.i(0, 4)); kind = std::string(1, char('a' + k));
  if (k == 0) { Vec v = dense::randVec(r, N); return dense::dyad(v, v); }
  if (k == 1) return dense::randRho(r, N, N);
  if (k == 2) return dense::randRho(r, N, 2);
  if (k == 3) { Mat m = dense::id(1); for (auto n : d) m = dense::kron(m, dense::randRho(r, n, size_t(r.i(1, long(n))))); return m; } // product
  Vec v(N, 0.); size_t mn = *std::min_element(d.begin(), d.end()); for (size_t q = 0; q < mn; ++q) { size_t x = 0; for (auto n : d) x = x * n + q; v[x] = 1 / std::sqrt(double(mn)); } double w = r.u(0, 1); return w * dense::dyad(v, v) + ((1 - w) / double(N)) * dense::id(N); // Werner-like
}
template <int R, int... AX> void measures(Rng& r) {
  using V = tmptools::Vector<AX...>; std::vector<size_t> ax{size_t(AX)...}, rest; for (size_t k = 0; k < size_t(R); ++k) { bool in = false; for (auto a : ax) in = in || a == k; if (!in) rest.push_back(k); }
  Dims d = randDims(r, R, 27, 5), da, db; for (auto a : ax) da.push_back(d[a]); for (auto a : rest) db.push_back(d[a]);
  std::string kind; Mat rho = randState(r, d, kind); auto D = dop<R>(rho, d); size_t N = total(d), NA = total(da), NB = total(db);
  std::string where = fmt("R%d ", R) + str(da) + "|" + str(db) + kind; for (auto a : ax) where += " " + std::to_string(a);
  double neg = quantumdata::negPT(D, V{}), nref = negRef(rho, d, ax); close(neg, nref, 1e-8, "negativity", where);
  double S = quantumdata::entropy(D); close(S, entropyRef(rho), 1e-8, "entropy", where); check(S > -1e-9 && S < std::log(double(N)) + 1e-9, "entropy.bounds", where);
  Mat ra = dense::ptrace(rho, d, ax), rb = dense::ptrace(rho, d, rest); double Sa = entropyRef(ra), Sb = entropyRef(rb);
  double I = quantumdata::mutualInformation(D, V{}); close(I, Sa + Sb - entropyRef(rho), 1e-8, "mutual-information", where); check(I > -1e-8 && I < 2 * std::log(double(std::min(NA, NB))) + 1e-8, "mutual-information.bounds", where);
  double pr = quantumdata::purity(D), prRef = dense::tr(rho * rho).real(); close(pr, prRef, 1e-12, "purity", where, 1e-11); check(pr < 1 + 1e-12 && pr > 1. / double(N) - 1e-12, "purity.bounds", where);
  close(quantumdata::purityOfPartialTrace(D, V{}), dense::tr(ra * ra).real(), 1e-11, "purity-of-partial-trace", where);
  if (kind == "d") { check(std::abs(neg) < 1e-8, "negativity.product", where); check(std::abs(I) < 1e-8, "mutual-information.product", where); }
  if (kind == "a") { // pure: entropy of the two parties equal; negativity from Schmidt coefficients
    double s = 0; for (double e : dense::eigh(ra)) s += std::sqrt(std::max(0., e)); close(neg, (s * s - 1) / 2, 1e-6, "negativity.pure", where); close(I, 2 * Sa, 1e-7, "mutual-information.pure", where); }
  check(neg > -1e-9, "negativity.nonnegative", where);
  // local unitaries do not matter
  { Mat U = dense::id(N); for (size_t k = 0; k < d.size(); ++k) U = dense::embed(dense::randU(r, d[k]), d, {k}) * U; auto D2 = dop<R>(U * rho * dense::dag(U), d);
    close(quantumdata::negPT(D2, V{}), neg, 1e-8, "negativity.local-unitary", where); close(quantumdata::entropy(D2), S, 1e-8, "entropy.unitary", where); close(quantumdata::mutualInformation(D2, V{}), I, 1e-8, "mutual-information.local-unitary", where); close(quantumdata::purity(D2), pr, 1e-9, "purity.unitary", where); }
  check(dense::dist(mat<R>(D), rho) == 0, "measures.operand-untouched", where);
  sig(where); sample(where); count("states");
}
template <int R, typename V, typename W> void symmetric(Rng& r) { // one party or the other
  Dims d = randDims(r, R, 24, 4); std::string kind; Mat rho = randState(r, d, kind); auto D = dop<R>(rho, d); close(quantumdata::negPT(D, V{}), quantumdata::negPT(D, W{}), 1e-8, "negativity.symmetric", str(d)); close(quantumdata::mutualInformation(D, V{}), quantumdata::mutualInformation(D, W{}), 1e-8, "mutual-information.symmetric", str(d)); sig("sym" + str(d) + kind);
  check(quantumdata::negPT(D, tmptools::V_Empty{}) == 0., "negativity.empty", str(d));
}
} // namespace
SCENARIO(bipartite, 60) { measures<2, 0>(r); measures<2, 1>(r); }
SCENARIO(tripartite, 25) { measures<3, 0>(r); measures<3, 1>(r); measures<3, 2>(r); measures<3, 0, 1>(r); measures<3, 2, 0>(r); measures<3, 1, 2>(r); }
SCENARIO(fourpartite, 8) { measures<4, 1>(r); measures<4, 0, 2>(r); measures<4, 3, 1>(r); }
SCENARIO(parties_exchanged, 40) { symmetric<2, tmptools::Vector<0>, tmptools::Vector<1>>(r); symmetric<3, tmptools::Vector<0, 2>, tmptools::Vector<1>>(r); symmetric<3, tmptools::Vector<2>, tmptools::Vector<0, 1>>(r); }
// closed-form anchors
SCENARIO(anchors, 20) {
  int n = int(r.i(2, 6)); Vec v(size_t(n * n), 0.); for (int k = 0; k < n; ++k) v[size_t(k * n + k)] = std::polar(1 / std::sqrt(double(n)), r.u(0, 6)); auto D = DensityOperator<2>(sv<2>(v, {size_t(n), size_t(n)}));
  close(quantumdata::negPT(D, tmptools::Vector<0>{}), (n - 1) / 2., 1e-9, "anchor.negativity", fmt("n=%d", n)); close(quantumdata::entropy(quantumdata::reduce<0>(D)), std::log(double(n)), 1e-9, "anchor.entropy"); close(quantumdata::mutualInformation(D, tmptools::Vector<1>{}), 2 * std::log(double(n)), 1e-9, "anchor.mutual-information"); close(quantumdata::purityOfPartialTrace(D, tmptools::Vector<1>{}), 1. / n, 1e-12, "anchor.purity"); sig(fmt("%d", n));
}
