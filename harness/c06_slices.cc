// C06: slice iteration monitor. Oracle: addresses computed independently from the full multi-index.
#include "vf.h"
#include "BlitzArray.h"
#include "SliceIterator.tcc"
#include "VectorFromMatrixSliceIterator.h"

using namespace vf;
namespace si = cppqedutils::sliceiterator;

namespace {

template <int R> std::string shp(const IdxTiny<R>& e) { std::ostringstream o; for (int k = 0; k < R; ++k) o << (k ? "x" : "") << e(k); return o.str(); }

// a random array: extents, bases, storage ordering/direction, possibly a strided view of a bigger one
template <typename T, int R> blitz::Array<T, R> randomArray(Rng& r, std::string& desc, long maxElems)
{
  for (;;) {
    blitz::TinyVector<int, R> ext, base; long n = 1;
    for (int k = 0; k < R; ++k) { ext(k) = int(r.i(1, R <= 3 ? 5 : (R <= 5 ? 4 : 2))); base(k) = r.b(.3) ? int(r.i(-3, 3)) : 0; n *= ext(k); }
    if (n > maxElems) continue;
    std::vector<int> ord; for (int k = 0; k < R; ++k) ord.push_back(R - 1 - k);
    bool permuted = r.b(.5); if (permuted) r.shuffle(ord);
    blitz::TinyVector<int, R> ordering; blitz::TinyVector<bool, R> asc;
    bool desc_ = r.b(.2);
    for (int k = 0; k < R; ++k) { ordering(k) = ord[size_t(k)]; asc(k) = desc_ ? r.b() : true; }
    blitz::GeneralArrayStorage<R> st(ordering, asc);
    std::ostringstream o; o << shp<R>(ext) << (permuted ? " perm" : " C") << (desc_ ? " desc" : "");
    if (permuted) for (int x : ord) o << x;
    blitz::Array<T, R> a;
    if (r.b(.25)) { // strided window into a larger allocation
      blitz::TinyVector<int, R> big; for (int k = 0; k < R; ++k) big(k) = 2 * ext(k) + 1;
      long nb = 1; for (int k = 0; k < R; ++k) nb *= big(k);
      if (nb > 60000) continue;
      blitz::Array<T, R> b(big, st); b = T(-1);
      blitz::TinyVector<int, R> lo, hi, stp; for (int k = 0; k < R; ++k) { int s = int(r.i(1, 2)); int o0 = int(r.i(0, 1)); lo(k) = b.lbound(k) + o0; hi(k) = lo(k) + s * (ext(k) - 1); stp(k) = s; }
      a.reference(b(blitz::StridedDomain<R>(lo, hi, stp)));
      o << " window";
    }
    else { a.resize(ext); blitz::Array<T, R> b(ext, st); a.reference(b); a.reindexSelf(base); o << " base" << shp<R>(base); }
    desc = o.str();
    return a;
  }
}

template <int R, typename F> void forAll(const IdxTiny<R>& lb, const IdxTiny<R>& ub, F f)
{
  IdxTiny<R> i(lb);
  for (;;) {
    f(i);
    int k = R - 1;
    for (; k >= 0; --k) { if (i(k) < ub(k)) { ++i(k); break; } i(k) = lb(k); }
    if (k < 0) return;
  }
}

inline bool distinctAt(double a, double b) { return a == b; }
inline double idOf(double x) { return x; }
inline double idOf(const cplx& x) { return x.real(); }

template <typename T> struct Arr { template <int R> using type = blitz::Array<T, R>; };

template <template <int> class ARRAY, typename T, int R, int... V>
void sliceCase(Rng& r, const char* name)
{
  using Vec = tmptools::Vector<V...>;
  constexpr int NV = sizeof...(V), ND = R - NV;
  const int v[] = {V...};
  std::string desc;
  ARRAY<R> a; { blitz::Array<T, R> x(randomArray<T, R>(r, desc, 5000)); a.reference(x); }
  IdxTiny<R> lb(a.lbound()), ub(a.ubound());
  double id = 1; forAll<R>(lb, ub, [&](const IdxTiny<R>& i) { a(i) = T(id++); });
  std::vector<int> dummy; for (int k = 0; k < R; ++k) { bool kept = false; for (int x : v) kept |= x == k; if (!kept) dummy.push_back(k); }
  long expected = 1; for (int d : dummy) expected *= a.extent(d);
  std::string key = std::string("slice.") + name;
  // expected sequence of dummy index tuples in row-major order
  std::vector<std::vector<int>> seq; { std::vector<int> d; for (int x : dummy) d.push_back(lb(x)); for (long n = 0; n < expected; ++n) { seq.push_back(d); for (int k = int(d.size()) - 1; k >= 0; --k) { if (d[size_t(k)] < ub(dummy[size_t(k)])) { ++d[size_t(k)]; break; } d[size_t(k)] = lb(dummy[size_t(k)]); } } }

  auto visit = [&](auto& slice, size_t n) {
    if (n >= seq.size()) return;
    bool ok = true;
    for (int k = 0; k < NV; ++k) ok &= slice.extent(k) == a.extent(v[k]);
    if (!check(ok, key + ".extents", desc)) return;
    IdxTiny<NV> slb(slice.lbound()), sub(slice.ubound());
    long bad = 0;
    forAll<NV>(slb, sub, [&](const IdxTiny<NV>& s) {
      IdxTiny<R> full; for (int k = 0; k < NV; ++k) full(v[k]) = s(k) - slb(k) + lb(v[k]);
      for (size_t k = 0; k < dummy.size(); ++k) full(dummy[k]) = seq[n][k];
      if (&slice(s) != &a(full)) ++bad;
      count("elements-observed");
    });
    check(!bad, key + ".aliasing", fmt("%s slice %zu: %ld elements are not the expected ones of the array", desc.c_str(), n, bad));
  };
  { size_t n = 0; for (auto& s : si::fullRange<Vec, ARRAY>(a)) { visit(s, n); ++n; if (n > seq.size() + 5) break; }
    check(long(n) == expected, key + ".count", fmt("%s: %zu slices, expected %ld", desc.c_str(), n, expected)); count("slices-observed", long(n)); }
  { // explicit begin/end iteration with copies of the iterator, post-increment semantics left untouched
    auto b = si::begin<Vec, ARRAY>(a); auto e = si::end<Vec, ARRAY>(a); size_t n = 0;
    for (; b != e && n < seq.size() + 5; ++b, ++n) { auto c(b); visit(*c, n); check(c == b, key + ".copy-equal", desc); }
    check(long(n) == expected, key + ".begin-end-count", desc);
  }
  { // writing through slices: each element of the array is incremented exactly once
    for (auto& s : si::fullRange<Vec, ARRAY>(a)) s += T(1000000);
    double x = 1; long bad = 0; forAll<R>(lb, ub, [&](const IdxTiny<R>& i) { if (idOf(a(i)) != x + 1000000) ++bad; ++x; });
    check(!bad, key + ".write-through", fmt("%s: %ld elements not written exactly once", desc.c_str(), bad));
  }
  IdxTiny<R> ll(a.lbound()), uu(a.ubound());
  check(all(ll == lb) && all(uu == ub), key + ".source-intact", desc);
  { double x = 1; long bad = 0; forAll<R>(lb, ub, [&](const IdxTiny<R>& i) { if (idOf(a(i)) != x + 1000000) ++bad; ++x; }); check(!bad, key + ".source-layout-intact", desc); }
  if constexpr (ND > 0) {
    IdxTiny<R> q; for (int k = 0; k < R; ++k) q(k) = 100 + k; auto f = si::filterOut<R, Vec>(q); bool ok = true; for (int k = 0; k < ND; ++k) ok &= f(k) == 100 + dummy[size_t(k)];
    check(ok, key + ".filterOut", desc);
  }
  if (a.numElements() > 1) sig(std::string(name) + desc);
  sample(std::string(name) + " " + desc + fmt(" -> %ld slices", expected));
}

#define SL(NAME, T, R, ...) sliceCase<Arr<T>::template type, T, R, __VA_ARGS__>(r, NAME)

} // namespace

template <int R> using CA = CArray<R>;
template <int R> using DA = DArray<R>;

SCENARIO(slices_low_rank, 120)
{
  sliceCase<DA, double, 1, 0>(r, "1:0");
  sliceCase<DA, double, 2, 0>(r, "2:0");
  sliceCase<CA, dcomp, 2, 1>(r, "2:1");
  sliceCase<CA, dcomp, 2, 0, 1>(r, "2:01");
  sliceCase<DA, double, 2, 1, 0>(r, "2:10");
  sliceCase<CA, dcomp, 3, 0>(r, "3:0");
  sliceCase<CA, dcomp, 3, 1>(r, "3:1");
  sliceCase<DA, double, 3, 2>(r, "3:2");
  sliceCase<CA, dcomp, 3, 0, 1>(r, "3:01");
  sliceCase<CA, dcomp, 3, 1, 0>(r, "3:10");
  sliceCase<CA, dcomp, 3, 2, 0>(r, "3:20");
  sliceCase<CA, dcomp, 3, 0, 2>(r, "3:02");
  sliceCase<CA, dcomp, 3, 2, 1>(r, "3:21");
  sliceCase<CA, dcomp, 3, 2, 0, 1>(r, "3:201");
  sliceCase<CA, dcomp, 3, 1, 2, 0>(r, "3:120");
}

SCENARIO(slices_high_rank, 40)
{
  sliceCase<CA, dcomp, 4, 3, 1>(r, "4:31");
  sliceCase<CA, dcomp, 4, 2, 0, 3>(r, "4:203");
  sliceCase<CA, dcomp, 4, 0, 2>(r, "4:02");
  sliceCase<DA, double, 4, 1, 2, 3>(r, "4:123");
  sliceCase<CA, dcomp, 4, 3, 0, 1, 2>(r, "4:3012");
  sliceCase<CA, dcomp, 4, 2>(r, "4:2");
  sliceCase<CA, dcomp, 5, 4, 0, 2>(r, "5:402");
  sliceCase<CA, dcomp, 5, 1, 3>(r, "5:13");
  sliceCase<CA, dcomp, 5, 3, 1, 4>(r, "5:314");
  sliceCase<CA, dcomp, 6, 5, 2, 0>(r, "6:520");
  sliceCase<DA, double, 6, 1, 4, 2, 3>(r, "6:1423");
  sliceCase<CA, dcomp, 8, 6, 1, 7>(r, "8:617");
  sliceCase<DA, double, 9, 8, 0, 3, 5>(r, "9:8035");
  sliceCase<DA, double, 11, 3, 6, 1, 9, 7>(r, "11:36197");
}

namespace {
template <int R2> void vfmsiCase(Rng& r)
{
  namespace vfmsi = blitzplusplus::vfmsi;
  constexpr int R = R2 / 2;
  blitz::TinyVector<int, R2> ext; for (int k = 0; k < R; ++k) ext(k) = ext(k + R) = int(r.i(1, R == 1 ? 7 : (R == 2 ? 4 : 3)));
  bool fortran = r.b(.3);
  CArray<R2> a; if (fortran) { CArray<R2> b(ext, blitz::GeneralArrayStorage<R2>(blitz::FortranArray<R2>())); b.reindexSelf(blitz::TinyVector<int, R2>(0)); a.reference(b); } else { CArray<R2> b(ext); a.reference(b); }
  IdxTiny<R2> lb(a.lbound()), ub(a.ubound()); double id = 1; forAll<R2>(lb, ub, [&](const IdxTiny<R2>& i) { a(i) = id++; });
  long N = 1; for (int k = 0; k < R; ++k) N *= ext(k);
  std::vector<IdxTiny<R>> half; { IdxTiny<R> l, u; for (int k = 0; k < R; ++k) { l(k) = 0; u(k) = ext(k) - 1; } forAll<R>(l, u, [&](const IdxTiny<R>& i) { half.push_back(i); }); }
  std::string d = shp<R2>(ext) + (fortran ? "F" : "C");
  auto go = [&](auto range, bool left) {
    size_t n = 0;
    for (auto& s : range) {
      if (n < half.size()) {
        bool ok = true; for (int k = 0; k < R; ++k) ok &= s.extent(k) == ext(k);
        long bad = 0;
        if (ok) for (auto& h : half) { IdxTiny<R2> f; for (int k = 0; k < R; ++k) { f(left ? k : k + R) = h(k); f(left ? k + R : k) = half[n](k); } if (&s(h) != &a(f)) ++bad; count("elements-observed"); }
        check(ok && !bad, left ? "vfmsi.left" : "vfmsi.right", d);
      }
      ++n;
    }
    check(long(n) == N, left ? "vfmsi.left.count" : "vfmsi.right.count", d);
  };
  go(vfmsi::fullRange<vfmsi::Left>(a), true);
  go(vfmsi::fullRange<vfmsi::Right>(a), false);
  { auto b = vfmsi::begin<vfmsi::Left>(a); auto e = vfmsi::end<vfmsi::Left>(a); long n = 0; for (; b != e; ++b) ++n; check(n == N, "vfmsi.begin-end", d); }
  if (N > 1) sig(d);
  sample(d);
}
}

SCENARIO(rows_and_columns, 120) { vfmsiCase<2>(r); vfmsiCase<4>(r); vfmsiCase<6>(r); }

namespace {
template <int R> void miiCase(Rng& r)
{
  using MII = cppqedutils::MultiIndexIterator<R>;
  IdxTiny<R> lb, ub; bool zero = r.b(.3); long n = 1;
  for (int k = 0; k < R; ++k) { lb(k) = zero ? 0 : int(r.i(-5, 5)); ub(k) = lb(k) + int(r.i(0, R > 4 ? 2 : 4)); n *= ub(k) - lb(k) + 1; }
  std::vector<IdxTiny<R>> exp; forAll<R>(lb, ub, [&](const IdxTiny<R>& i) { exp.push_back(i); });
  std::string d = shp<R>(lb) + ".." + shp<R>(ub), key = fmt("mii.%d", R);
  namespace mii = cppqedutils::mii;
  MII b = zero ? MII(ub, mii::begin) : MII(lb, ub, mii::begin); MII e = zero ? MII(ub, mii::end) : MII(lb, ub, mii::end);
  size_t k = 0;
  for (MII i(b); i != e && k <= exp.size() + 3; ++i, ++k) if (k < exp.size()) { IdxTiny<R> x(*i), y(exp[k]); check(all(x == y), key + ".order", d + " at " + shp<R>(x) + " expected " + shp<R>(y)); count("indices-observed"); }
  check(long(k) == n, key + ".count", d + fmt(": %zu visited of %ld", k, n));
  MII m(b); long adv = r.i(0, n - 1); for (long q = 0; q < adv; ++q) ++m;
  { auto gb = m.getBegin(); auto ge = m.getEnd(); check(gb == b && ge == e, key + ".getBeginEnd", d); }
  check(m.setToBegin() == b, key + ".setToBegin", d); check(m.setToEnd() == e, key + ".setToEnd", d);
  { MII p(b); if (n > 1) { MII q = p++; check(q == b && !(p == b), key + ".post-increment", d); } }
  if (n > 1) sig(d);
  sample(d);
}
}
SCENARIO(multi_index, 250) { miiCase<1>(r); miiCase<2>(r); miiCase<3>(r); miiCase<4>(r); miiCase<6>(r); }
