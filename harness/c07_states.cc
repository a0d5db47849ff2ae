// C07: state vectors and density operators against flat dense vectors and matrices, including ownership of storage.
#include "qd.h"
#include "ComplexArrayExtensions.h"
#include "CMatrix.h"
using namespace vf; using namespace qd;
using quantumdata::StateVector; using quantumdata::DensityOperator; using quantumdata::byReference;
using dense::operator*; using dense::operator+; using dense::operator-;

namespace {
const double T = 1e-12;
bool same(const Vec& a, const Vec& b, double tol, const std::string& key, const std::string& msg = "") { double d = dense::dist(a, b), s = 1; for (auto& x : b) s = std::max(s, std::abs(x)); return check(d <= tol * s, key, msg + fmt(" deviation %g", d)); }
bool same(const Mat& a, const Mat& b, double tol, const std::string& key, const std::string& msg = "") { double s = 1; for (auto& x : b.a) s = std::max(s, std::abs(x)); double d = dense::dist(a, b); return check(d <= tol * s, key, msg + fmt(" deviation %g", d)); }

template <int R> void consistent(const StateVector<R>& p, const Vec& v, const Dims& d, const std::string& key) { check(dimsOf<R>(p) == d && p.getTotalDimension() == total(d), key + ".dimensions", str(d)); same(vec<R>(p), v, T, key, str(d)); }

template <int R> void arithmetic(Rng& r) {
  Dims d = randDims(r, R, 200); size_t N = total(d); Vec a = dense::randVec(r, N, false), b = dense::randVec(r, N, false); double x = r.u(-3, 3); cplx z = r.c(2); std::string k = "sv" + std::to_string(R);
  StateVector<R> A = sv<R>(a, d), B = sv<R>(b, d);
  consistent<R>(A + B, dense::add(a, b), d, k + ".add"); consistent<R>(A - B, dense::sub(a, b), d, k + ".sub");
  consistent<R>(x * A, dense::scal(x, a), d, k + ".scale-real"); consistent<R>(A * z, dense::scal(z, a), d, k + ".scale-complex"); consistent<R>(A / z, dense::scal(1. / z, a), d, k + ".div-complex"); consistent<R>(A / 2.5, dense::scal(1 / 2.5, a), d, k + ".div-real");
  consistent<R>(-A, dense::scal(-1., a), d, k + ".minus"); consistent<R>(+A, a, d, k + ".plus");
  same(vec<R>(A), a, 0, k + ".operand-untouched"); same(vec<R>(B), b, 0, k + ".operand-untouched");
  close(A.norm(), dense::nrm(a), T, k + ".norm"); close(quantumdata::braket(A, B), dense::dot(a, b), T, k + ".braket", "", 1e-11); close(A.trace(), dense::nrm2(a), T, k + ".trace");
  { StateVector<R> C(A); C += B; consistent<R>(C, dense::add(a, b), d, k + ".iadd"); C -= A; consistent<R>(C, b, d, k + ".isub"); C *= z; consistent<R>(C, dense::scal(z, b), d, k + ".imul"); C /= z; consistent<R>(C, b, d, k + ".idiv"); C = 0; consistent<R>(C, Vec(N, 0.), d, k + ".assign-zero"); }
  { StateVector<R> C(A); double n = C.renorm(); close(n, dense::nrm(a), T, k + ".renorm-return"); consistent<R>(C, dense::scal(1 / dense::nrm(a), a), d, k + ".renorm"); close(C.norm(), 1., 1e-13, k + ".renorm-norm"); }
  same(mat<R>(DensityOperator<R>(A)), dense::dyad(a, a), T, k + ".dyad-self"); same(mat<R>(quantumdata::dyad(A, B)), dense::dyad(a, b), T, k + ".dyad");
  { Mat m = dense::randMat(r, N); auto rho = dop<R>(m, d); A.addTo(rho, x); same(mat<R>(rho), m + x * dense::dyad(a, a), T, k + ".addTo"); A.addTo(rho); same(mat<R>(rho), m + (x + 1) * dense::dyad(a, a), T, k + ".addTo-default"); }
  { StateVector<R> C(tiny<R>(d)); consistent<R>(C, Vec(N, 0.), d, k + ".zero-initialised"); StateVector<R> D(tiny<R>(d), [&](StateVector<R>& p) { p = A.getArray(); }); consistent<R>(D, a, d, k + ".initializer"); }
  for (int q = 0; q < 5; ++q) { size_t n = size_t(r.i(0, long(N) - 1)); auto i = idx<R>(n, d); if constexpr (R == 1) close(A(i(0)), a[n], 0, k + ".index"); else if constexpr (R == 2) close(A(int(i(0)), int(i(1))), a[n], 0, k + ".index"); else close(A(int(i(0)), int(i(1)), int(i(2))), a[n], 0, k + ".index");
    size_t m = size_t(r.i(0, long(N) - 1)); const quantumdata::LazyDensityOperator<R>& L = A; close(L(i)(idx<R>(m, d)), a[n] * std::conj(a[m]), T, k + ".lazy-index"); close(double(L(i)), std::norm(a[n]), T, k + ".lazy-diagonal"); }
  same(vec<1>(A.vectorView()), a, 0, k + ".vectorView");
  sig(k + str(d)); sample(str(d)); count("programs");
}

template <int R> void operators(Rng& r) {
  Dims d = randDims(r, R, 60); size_t N = total(d); Mat a = dense::randMat(r, N), b = dense::randMat(r, N); double x = r.u(-3, 3); cplx z = r.c(2); std::string k = "do" + std::to_string(R);
  DensityOperator<R> A = dop<R>(a, d), B = dop<R>(b, d);
  same(mat<R>(A + B), a + b, T, k + ".add"); same(mat<R>(A - B), a - b, T, k + ".sub"); same(mat<R>(x * A), x * a, T, k + ".scale"); same(mat<R>(A * z), z * a, T, k + ".scale-complex"); same(mat<R>(A / z), (1. / z) * a, T, k + ".div"); same(mat<R>(-A), -1. * a, T, k + ".minus"); same(mat<R>(+A), a, 0, k + ".plus");
  same(mat<R>(A), a, 0, k + ".operand-untouched");
  close(A.norm(), dense::tr(a).real(), T, k + ".norm", "", 1e-11); close(A.trace(), dense::tr(a).real(), T, k + ".trace", "", 1e-11); close(quantumdata::frobeniusNorm(A), dense::fro(a), T, k + ".frobenius"); close(quantumdata::purity(A), dense::fro(a) * dense::fro(a), T, k + ".purity", "", 1e-11);
  { DensityOperator<R> C(A); double t = C.renorm(); close(t, dense::tr(a).real(), T, k + ".renorm-return", "", 1e-11); same(mat<R>(C), (1. / dense::tr(a).real()) * a, 1e-11, k + ".renorm"); }
  { auto m = A.matrixView(); bool ok = size_t(m.extent(0)) == N && size_t(m.extent(1)) == N; if (check(ok, k + ".matrixView-shape")) { Mat mm(N); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) mm(i, j) = m(int(i), int(j)); same(mm, a, 0, k + ".matrixView"); size_t i = size_t(r.i(0, long(N) - 1)), j = size_t(r.i(0, long(N) - 1)); m(int(i), int(j)) = 7.; close(cplx(A(idx<R>(i, d))(idx<R>(j, d))), cplx(7.), 0, k + ".matrixView-aliases"); m(int(i), int(j)) = a(i, j); } }
  { Vec v = dense::randVec(r, N, false); DensityOperator<R> C(A); C = sv<R>(v, d); same(mat<R>(C), dense::dyad(v, v), T, k + ".assign-vector"); same(mat<R>(A), a, 0, k + ".assign-vector-alias"); }
  { auto h = blitzplusplus::hermitianConjugate(A.getArray()); same(mat<R>(CArray<2 * R>(h)), dense::dag(a), 0, k + ".hermitianConjugate"); same(mat<R>(A), a, 0, k + ".hermitianConjugate-operand"); CArray<2 * R> c(A.getArray().copy()); blitzplusplus::hermitianConjugateSelf(c); same(mat<R>(c), dense::dag(a), 0, k + ".hermitianConjugateSelf"); }
  { linalg::CMatrix m(arrM<1>(a, {N})); linalg::calculateTwoTimesRealPartOfSelf(m); same(mat<1>(m), a + dense::dag(a), T, k + ".twoTimesReal"); }
  { Vec v = dense::randVec(r, N, false), w = dense::randVec(r, N, false); auto V = arr<1>(v, {N}), W = arr<1>(w, {N}); linalg::apply(V, W, arrM<1>(a, {N})); same(vec<1>(W), dense::add(w, a * v), T, k + ".apply"); }
  // packing into a real list and back, for Hermitian matrices
  { Mat h = dense::randHerm(r, N); auto H = dop<R>(h, d); auto f = quantumdata::deflate(H, true); check(size_t(f.size()) == N * N, k + ".deflate-size"); DensityOperator<R> C(tiny<R>(d)); quantumdata::inflate(f, C, true); same(mat<R>(C), h, 1e-15, k + ".inflate-deflate");
    auto g = quantumdata::deflate(H, false); check(size_t(g.size()) == N, k + ".deflate-diagonal-size"); bool ok = true; for (size_t i = 0; i < N && i < size_t(g.size()); ++i) ok = ok && g(int(i)) == h(i, i).real() && f(int(i)) == h(i, i).real(); check(ok, k + ".deflate-diagonal");
    size_t q = N; ok = true; for (size_t i = 0; i < N; ++i) for (size_t j = i + 1; j < N; ++j, q += 2) ok = ok && f(int(q)) == h(i, j).real() && f(int(q + 1)) == h(i, j).imag(); check(ok, k + ".deflate-order", str(d));
    DensityOperator<R> D(tiny<R>(d)); quantumdata::inflate(g, D, false); Mat dd(N); for (size_t i = 0; i < N; ++i) dd(i, i) = h(i, i); same(mat<R>(D), dd, 0, k + ".inflate-diagonal"); }
  { Mat h = dense::randHerm(r, N); auto H = dop<R>(h, d); same(mat<R>(quantumdata::densityOperatorize(static_cast<const quantumdata::LazyDensityOperator<R>&>(H))), h, 0, k + ".densityOperatorize"); Vec v = dense::randVec(r, N, false); auto P = sv<R>(v, d); same(mat<R>(quantumdata::densityOperatorize(static_cast<const quantumdata::LazyDensityOperator<R>&>(P))), dense::dyad(v, v), T, k + ".densityOperatorize-vector"); }
  sig(k + str(d)); count("programs");
}

template <int R1, int R2> void products(Rng& r) {
  Dims d1 = randDims(r, R1, 24), d2 = randDims(r, R2, 24), d = d1; d.insert(d.end(), d2.begin(), d2.end());
  Vec a = dense::randVec(r, total(d1), false), b = dense::randVec(r, total(d2), false), ab; for (auto& x : a) for (auto& y : b) ab.push_back(x * y);
  auto P = sv<R1>(a, d1) * sv<R2>(b, d2); consistent<R1 + R2>(P, ab, d, "product");
  close(P.norm(), dense::nrm(a) * dense::nrm(b), T, "product.norm");
  // direct sum
  auto s = blitzplusplus::doDirect<blitzplusplus::dodirect::addition, R1, R2>(arr<R1>(a, d1), arr<R2>(b, d2)); Vec ss; for (auto& x : a) for (auto& y : b) ss.push_back(x + y); same(vec<R1 + R2>(CArray<R1 + R2>(s)), ss, T, "direct-sum");
  sig(str(d1) + "|" + str(d2));
}

// histories of copies, moves, references and assignments, replayed on a model which knows who shares storage with whom
template <int R> struct Obj { std::unique_ptr<StateVector<R>> p; int store; };
template <int R> void ownership(Rng& r) {
  Dims d = randDims(r, R, 30); size_t N = total(d); std::vector<Vec> stores; std::vector<Obj<R>> o; std::string hist = str(d);
  auto fresh = [&](const Vec& v) { stores.push_back(v); return int(stores.size()) - 1; };
  for (int q = 0; q < 3; ++q) { Vec v = dense::randVec(r, N, false); o.push_back({std::make_unique<StateVector<R>>(sv<R>(v, d)), fresh(v)}); }
  int n = int(r.i(5, 40));
  for (int q = 0; q < n; ++q) {
    size_t i = size_t(r.i(0, long(o.size()) - 1)), j = size_t(r.i(0, long(o.size()) - 1)); int op = int(r.i(0, 10)); hist += char('a' + op);
    switch (op) {
      case 0: o.push_back({std::make_unique<StateVector<R>>(*o[i].p), fresh(stores[size_t(o[i].store)])}); break; // copy: independent storage
      case 1: o.push_back({std::make_unique<StateVector<R>>(o[i].p->getArray(), byReference), o[i].store}); break; // by reference
      case 2: if (o.size() > 2) { auto m = std::make_unique<StateVector<R>>(std::move(*o[i].p)); int s = o[i].store; o.erase(o.begin() + long(i)); o.push_back({std::move(m), s}); } break; // move: shares, source gone
      case 3: *o[i].p = *o[j].p; stores[size_t(o[i].store)] = stores[size_t(o[j].store)]; break; // assignment: value of target only
      case 4: { StateVector<R> tmp(*o[j].p); *o[i].p = std::move(tmp); stores[size_t(o[i].store)] = stores[size_t(o[j].store)]; } break;
      case 5: { cplx z = r.c(1.2); *o[i].p *= z; stores[size_t(o[i].store)] = dense::scal(z, stores[size_t(o[i].store)]); } break;
      case 6: { Vec x = stores[size_t(o[j].store)]; *o[i].p += *o[j].p; stores[size_t(o[i].store)] = dense::add(stores[size_t(o[i].store)], x); } break;
      case 7: { size_t e = size_t(r.i(0, long(N) - 1)); cplx z = r.c(); o[i].p->getArray()(idx<R>(e, d)) = z; stores[size_t(o[i].store)][e] = z; } break;
      case 8: if (o[i].store != o[j].store) { o[i].p->reference(*o[j].p); o[i].store = o[j].store; } break;
      case 9: o[i].p->renorm(); stores[size_t(o[i].store)] = dense::scal(1 / dense::nrm(stores[size_t(o[i].store)]), stores[size_t(o[i].store)]); break;
      case 10: if (o.size() > 3) o.erase(o.begin() + long(i)); break; // destruction of one owner must not affect the others
    }
    bool ok = true; for (auto& x : o) { double sc = 1e-300; for (auto& v : stores[size_t(x.store)]) sc = std::max(sc, std::abs(v)); ok = ok && dimsOf<R>(*x.p) == d && dense::dist(vec<R>(*x.p), stores[size_t(x.store)]) <= 1e-11 * sc; }
    if (!check(ok, fmt("ownership.op%d", op), hist)) return;
    for (auto& s : stores) { double m = 0; for (auto& v : s) m = std::max(m, std::abs(v)); if (m > 1e6 || m < 1e-6) return; }
  }
  count("ownership operations", n); sig(hist);
}
template <int R> void ownershipDO(Rng& r) {
  Dims d = randDims(r, R, 12); size_t N = total(d); Mat a = dense::randMat(r, N), b = dense::randMat(r, N);
  DensityOperator<R> A = dop<R>(a, d), B(A), C(A.getArray(), byReference);
  B *= 2.; same(mat<R>(A), a, 0, "do.copy-independent"); C *= 3.; same(mat<R>(A), 3. * a, T, "do.reference-shares");
  DensityOperator<R> D(tiny<R>(d)); D = A; D *= 5.; same(mat<R>(A), 3. * a, T, "do.assign-independent"); same(mat<R>(D), 15. * a, T, "do.assign");
  DensityOperator<R> E(std::move(C)); E *= 2.; same(mat<R>(A), 6. * a, T, "do.move-shares");
  D = dop<R>(b, d); same(mat<R>(D), b, 0, "do.move-assign"); D.reference(B); D *= 2.; same(mat<R>(B), 4. * a, T, "do.reference");
  check(dimsOf<R>(D) == d && dimsOf<R>(E) == d, "do.dimensions"); { auto i = idx<R>(N - 1, d); A(i)(i) = cplx(1, 2); close(cplx(E(i)(i)), cplx(1, 2), 0, "do.index-write"); }
  sig("do" + str(d));
}
} // namespace
SCENARIO(vectors, 60) { arithmetic<1>(r); arithmetic<2>(r); arithmetic<3>(r); }
SCENARIO(operators_, 40) { operators<1>(r); operators<2>(r); operators<3>(r); }
SCENARIO(direct_products, 60) { products<1, 1>(r); products<1, 2>(r); products<2, 1>(r); products<2, 2>(r); products<3, 1>(r); }
SCENARIO(ownership_histories, 200) { ownership<1>(r); ownership<2>(r); ownership<3>(r); }
SCENARIO(ownership_operators, 60) { ownershipDO<1>(r); ownershipDO<2>(r); }
