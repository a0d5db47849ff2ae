// C10: position/momentum transforms against the direct sum.
#include "qd.h"
#include "LazyDensityOperatorFFT.h"
#include <gsl/gsl_errno.h>
using namespace vf; using namespace qd;
using quantumdata::StateVector; using quantumdata::DensityOperator; using quantumdata::LazyDensityOperator;
using dense::operator*; using dense::operator+; using dense::operator-;
namespace {
// unitary matrix of the centred transform (up to the constant sign (-1)^(N/2), which the library leaves out)
Mat F(size_t N, fft::Direction dir) { Mat m(N); if (N < 2) return dense::id(N); double s = dir == fft::DIR_XK ? -1 : 1; for (size_t j = 0; j < N; ++j) for (size_t x = 0; x < N; ++x) m(j, x) = std::polar(1 / std::sqrt(double(N)), s * 2 * M_PI * double((j * x) % N) / double(N)) * (((j + x) & 1) ? -1. : 1.); return m; }
size_t pow2(Rng& r, int a, int b) { return size_t(1) << r.i(a, b); }
template <typename D> std::string nm(D d) { return d == fft::DIR_XK ? "xk" : "kx"; }
template <int R, int... AX> void one(Rng& r) {
  using V = tmptools::Vector<AX...>; std::vector<size_t> ax{size_t(AX)...}; Dims d; for (;;) { d.clear(); for (int k = 0; k < R; ++k) { bool in = false; for (auto a : ax) in = in || a == size_t(k); d.push_back(in ? pow2(r, 0, 4) : size_t(r.i(1, 4))); } if (total(d) <= 64) break; }
  size_t N = total(d); Vec v = dense::randVec(r, N, false); Mat rho = r.b() ? dense::randRho(r, N, 2) : dense::randMat(r, N); std::string where = fmt("R%d ", R) + str(d); for (auto a : ax) where += " " + std::to_string(a);
  auto P = sv<R>(v, d); auto D = dop<R>(rho, d); const LazyDensityOperator<R>&lP = P, &lD = D;
  for (auto dir : {fft::DIR_XK, fft::DIR_KX}) {
    Mat U = dense::id(N); for (auto a : ax) U = dense::embed(F(d[a], dir), d, {a}) * U;
    auto p = quantumdata::ffTransform<V>(lP, dir); auto q = quantumdata::ffTransform<V>(lD, dir);
    auto pp = dynamic_cast<const StateVector<R>*>(p.get()); auto qq = dynamic_cast<const DensityOperator<R>*>(q.get());
    if (!check(pp && qq, "fft.kind", where)) return;
    double dv = dense::dist(vec<R>(*pp), U * v); check(dv < 1e-11 * (1 + dense::nrm(v)), "fft.vector." + nm(dir), where + fmt(" %g", dv));
    double dm = dense::dist(mat<R>(*qq), U * rho * dense::dag(U)); check(dm < 1e-11 * (1 + dense::fro(rho)), "fft.operator." + nm(dir), where + fmt(" %g", dm));
    close(pp->norm(), dense::nrm(v), 1e-11, "fft.norm", where); close(qq->trace(), dense::tr(rho).real(), 1e-10, "fft.trace", where, 1e-10);
    check(dimsOf<R>(*pp) == d && dimsOf<R>(*qq) == d, "fft.dimensions", where);
    auto b = quantumdata::ffTransform<V>(*p, fft::reverse(dir)); check(dense::dist(vec<R>(dynamic_cast<const StateVector<R>&>(*b)), v) < 1e-11 * (1 + dense::nrm(v)), "fft.inverse", where);
    auto c = quantumdata::ffTransform<V>(*q, fft::reverse(dir)); check(dense::dist(mat<R>(dynamic_cast<const DensityOperator<R>&>(*c)), rho) < 1e-11 * (1 + dense::fro(rho)), "fft.inverse-operator", where);
    DensityOperator<R> PD(P); auto e = quantumdata::ffTransform<V>(static_cast<const LazyDensityOperator<R>&>(PD), dir); check(dense::dist(matLDO<R>(*e), matLDO<R>(*p)) < 1e-11 * (1 + dense::nrm2(v)), "fft.pure-mixed", where);
    count("transforms", 5);
  }
  check(dense::dist(vec<R>(P), v) == 0 && dense::dist(mat<R>(D), rho) == 0, "fft.operand-untouched", where);
  sig(where); sample(where);
}
} // namespace
SCENARIO(low_level, 60) {
  size_t N = pow2(r, 0, 9); Vec v = dense::randVec(r, N, false);
  for (auto dir : {fft::DIR_XK, fft::DIR_KX}) {
    auto a = arr<1>(v, {N}); quantumdata::ffTransform(a, dir); Vec w = F(N, dir) * v; check(dense::dist(vec<1>(a), w) < 1e-10 * (1 + dense::nrm(v)), "fft.low." + nm(dir), fmt("N=%zu", N));
    // strided and offset view: only the view changes
    int st = int(r.i(1, 3)), off = int(r.i(0, 4)); CArray<1> big(int(N) * st + 8); big = cplx(7, 7); CArray<1> view(big(blitz::Range(off, off + (int(N) - 1) * st, st))); for (size_t k = 0; k < N; ++k) view(int(k)) = v[k]; quantumdata::ffTransform(view, dir);
    bool ok = true; double dev = 0; for (int k = 0; k < big.extent(0); ++k) { int q = k - off; if (q >= 0 && q % st == 0 && q / st < int(N)) dev = std::max(dev, std::abs(big(k) - w[size_t(q / st)])); else ok = ok && big(k) == cplx(7, 7); } check(ok, "fft.strided-outside", fmt("N=%zu stride=%d", N, st)); check(dev < 1e-10 * (1 + dense::nrm(v)), "fft.strided", fmt("N=%zu stride=%d dev=%g", N, st, dev));
    if (N <= 64) { Mat m = dense::randMat(r, N); linalg::CMatrix M(arrM<1>(m, {N})); quantumdata::ffTransform(M, dir); check(dense::dist(mat<1>(M), F(N, dir) * m * dense::dag(F(N, dir))) < 1e-10 * double(N), "fft.low-matrix." + nm(dir), fmt("N=%zu", N)); }
  }
  // plane waves go to single momenta
  if (N >= 4) { size_t k0 = size_t(r.i(0, long(N) - 1)); Vec pw(N); for (size_t x = 0; x < N; ++x) pw[x] = std::polar(1 / std::sqrt(double(N)), 2 * M_PI * (double(k0) - double(N / 2)) * (double(x) - double(N / 2)) / double(N)); auto a = arr<1>(pw, {N}); quantumdata::ffTransform(a, fft::DIR_XK); close(std::abs(a(int(k0))), 1., 1e-10, "fft.plane-wave", fmt("N=%zu k=%zu", N, k0)); }
  sig(fmt("%zu", N));
}
SCENARIO(non_power_of_two_refused, 10) { size_t N = r.pick(std::vector<size_t>{3, 5, 6, 7, 9, 12, 15, 24}); static bool off = (gsl_set_error_handler_off(), true); (void)off; auto a = arr<1>(dense::randVec(r, N), {N}); check(throws([&] { quantumdata::ffTransform(a, fft::DIR_XK); }), "fft.refuse", fmt("N=%zu", N)); sig(fmt("%zu", N)); }
SCENARIO(axes, 40) { one<1, 0>(r); one<2, 0>(r); one<2, 1>(r); one<2, 0, 1>(r); one<2, 1, 0>(r); one<3, 0>(r); one<3, 1>(r); one<3, 2>(r); one<3, 0, 2>(r); one<3, 0, 1, 2>(r); }
