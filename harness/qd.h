// Conversions between the library's states and the reference dense representation, element by element through the public index interface.
#pragma once
#include "dense.h"
#include "StateVector.h"
#include "DensityOperator.h"

namespace qd {
using vf::cplx; using dense::Vec; using dense::Mat;
using Dims = std::vector<size_t>;

template <int R> ExtTiny<R> tiny(const Dims& d) { ExtTiny<R> t; for (int k = 0; k < R; ++k) t(k) = d[size_t(k)]; return t; }
template <int R> IdxTiny<R> idx(size_t n, const Dims& d) { IdxTiny<R> i; for (int k = R - 1; k >= 0; --k) { i(k) = int(n % d[size_t(k)]); n /= d[size_t(k)]; } return i; }
inline size_t total(const Dims& d) { size_t n = 1; for (auto x : d) n *= x; return n; }
template <int R, typename D> Dims dims(const D& x) { Dims d; for (int k = 0; k < R; ++k) d.push_back(size_t(x(k))); return d; }
template <int R> Dims dimsOf(const DimensionsBookkeeper<R>& b) { Dims d; for (int k = 0; k < R; ++k) d.push_back(size_t(b.getDimensions()(k))); return d; }
inline Dims randDims(vf::Rng& r, int rank, size_t maxTotal, size_t maxEach = 7) { Dims d; for (;;) { d.clear(); for (int k = 0; k < rank; ++k) d.push_back(size_t(r.i(1, long(maxEach)))); if (total(d) <= maxTotal && (total(d) > 1 || r.b(.2))) return d; } }
inline std::string str(const Dims& d) { std::string s; for (auto x : d) s += (s.empty() ? "" : "x") + std::to_string(x); return s; }

template <int R> Vec vec(const CArray<R>& a) { Dims d; for (int k = 0; k < R; ++k) d.push_back(size_t(a.extent(k))); Vec v(total(d)); for (size_t n = 0; n < v.size(); ++n) v[n] = a(idx<R>(n, d)); return v; }
template <int R> Mat mat(const CArray<2 * R>& a) { Dims d; for (int k = 0; k < 2 * R; ++k) d.push_back(size_t(a.extent(k))); Dims h(d.begin(), d.begin() + R); size_t N = total(h); Mat m(N); for (size_t n = 0; n < N * N; ++n) m.a[n] = a(idx<2 * R>(n, d)); return m; }
template <int R> CArray<R> arr(const Vec& v, const Dims& d) { CArray<R> a{tiny<R>(d)}; for (size_t n = 0; n < v.size(); ++n) a(idx<R>(n, d)) = v[n]; return a; }
template <int R> CArray<2 * R> arrM(const Mat& m, const Dims& d) { Dims dd = d; dd.insert(dd.end(), d.begin(), d.end()); CArray<2 * R> a{tiny<2 * R>(dd)}; for (size_t n = 0; n < m.a.size(); ++n) a(idx<2 * R>(n, dd)) = m.a[n]; return a; }
template <int R> Vec vec(const quantumdata::StateVector<R>& p) { return vec<R>(p.getArray()); }
template <int R> Mat mat(const quantumdata::DensityOperator<R>& p) { Dims d = dimsOf<R>(p); size_t N = total(d); Mat m(N); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) m(i, j) = p(idx<R>(i, d))(idx<R>(j, d)); return m; }
template <int R> Mat matLDO(const quantumdata::LazyDensityOperator<R>& p) { Dims d = dimsOf<R>(p); size_t N = total(d); Mat m(N); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) m(i, j) = p(idx<R>(i, d))(idx<R>(j, d)); return m; }
template <int R> quantumdata::StateVector<R> sv(const Vec& v, const Dims& d) { return quantumdata::StateVector<R>(arr<R>(v, d), quantumdata::byReference); }
template <int R> quantumdata::DensityOperator<R> dop(const Mat& m, const Dims& d) { return quantumdata::DensityOperator<R>(arrM<R>(m, d), quantumdata::byReference); }
} // qd
