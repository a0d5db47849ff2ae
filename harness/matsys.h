// User-defined elements whose every ingredient is a known dense matrix function of time, implementing any subset of the library's interfaces.
#pragma once
#include "probe.h"
#include "Interaction.h"
#include <memory>

namespace matsys {
using vf::cplx; using vf::fmt; using dense::Mat; using dense::Vec; using qd::Dims;
using Two = std::function<Mat(double, double)>; using One = std::function<Mat(double)>;

struct Spec {
  Dims d; size_t N = 1; bool ex = false, ha = false, li = false, av = false;
  Two U, H; bool master = true;
  struct Ch { One J; One rate; bool super; };           // rate empty: left to be calculated by the trajectory
  std::vector<Ch> ch; std::vector<One> obs; std::string name = "x";
  mutable long calls[6] = {0, 0, 0, 0, 0, 0};            // U, H, J, superoperator, rates, averages
};
using SpecP = std::shared_ptr<const Spec>;

template <int R> void apply(const Mat& m, CArray<R>& psi) { Vec v = m * qd::vec<R>(psi); Dims d; for (int k = 0; k < R; ++k) d.push_back(size_t(psi.extent(k))); for (size_t n = 0; n < v.size(); ++n) psi(qd::idx<R>(n, d)) = v[n]; }

template <int R> struct Ex : structure::Exact<R> { SpecP s; explicit Ex(SpecP p) : s(p) {}
  bool applicableInMaster_v() const override { return s->master; }
  void actWithU_v(double t, structure::StateVectorLow<R>& psi, double t0) const override { ++s->calls[0]; apply<R>(s->U(t, t0), psi); } };
template <int R> struct Ha : structure::Hamiltonian<R> { SpecP s; explicit Ha(SpecP p) : s(p) {}
  void addContribution_v(double t, const structure::StateVectorLow<R>& psi, structure::StateVectorLow<R>& d, double t0) const override { ++s->calls[1]; Vec v = s->H(t, t0) * qd::vec<R>(psi); for (size_t n = 0; n < v.size(); ++n) d(qd::idx<R>(n, s->d)) += v[n]; } };
template <int R> struct Li : structure::Liouvillean<R> { SpecP s; explicit Li(SpecP p) : s(p) {}
  std::ostream& streamKey_v(std::ostream& os, size_t& i) const override { os << s->name << " decay\n"; for (size_t k = 0; k < s->ch.size(); ++k) os << "  " << i++ << ". " << s->name << "J" << k << "\n"; return os; }
  size_t nAvr_v() const override { return s->ch.size(); }
  const structure::Averages average_v(double t, const quantumdata::LazyDensityOperator<R>& m) const override { ++s->calls[4]; Mat rho = qd::matLDO<R>(m); structure::Averages a(int(s->ch.size())); for (size_t k = 0; k < s->ch.size(); ++k) a(int(k)) = s->ch[k].rate ? dense::tr(rho * s->ch[k].rate(t)).real() : -1.; return a; }
  void actWithJ_v(double t, structure::StateVectorLow<R>& psi, size_t m) const override { ++s->calls[2]; apply<R>(s->ch.at(m).J(t), psi); }
  void actWithSuperoperator_v(double t, const structure::DensityOperatorLow<R>& rho, structure::DensityOperatorLow<R>& d, size_t m) const override {
    if (!s->ch.at(m).super) throw structure::SuperoperatorNotImplementedException(m);
    ++s->calls[3]; Mat J = s->ch[m].J(t), o = J * qd::mat<R>(rho) * dense::dag(J); Dims dd = s->d; dd.insert(dd.end(), s->d.begin(), s->d.end()); for (size_t n = 0; n < o.a.size(); ++n) d(qd::idx<2 * R>(n, dd)) += o.a[n]; } };
// processing: every column but the first is reduced by the square of the first
template <int R> struct Av : structure::Averaged<R> { SpecP s; explicit Av(SpecP p) : s(p) {}
  std::ostream& streamKey_v(std::ostream& os, size_t& i) const override { os << s->name << "\n"; for (size_t k = 0; k < s->obs.size(); ++k) os << "  " << i++ << ". " << s->name << "A" << k << "\n"; return os; }
  size_t nAvr_v() const override { return s->obs.size(); }
  const structure::Averages average_v(double t, const quantumdata::LazyDensityOperator<R>& m) const override { ++s->calls[5]; Mat rho = qd::matLDO<R>(m); structure::Averages a(int(s->obs.size())); for (size_t k = 0; k < s->obs.size(); ++k) a(int(k)) = dense::tr(rho * s->obs[k](t)).real(); return a; }
  void process_v(structure::Averages& a) const override { if (a.size()) { double f = a(0); for (int k = 1; k < a.size(); ++k) a(k) -= f * f; } }
  std::ostream& stream_v(const structure::Averages& a, std::ostream& os, int) const override { os << s->name << "("; for (int k = 0; k < a.size(); ++k) os << fmt("%s%.17g", k ? " " : "", a(k)); return os << ")"; } };
template <int K, int R> struct Nil { explicit Nil(SpecP) {} };

template <int R, int B> struct Bits : std::conditional_t<bool(B & 1), Ex<R>, Nil<0, R>>, std::conditional_t<bool(B & 2), Ha<R>, Nil<1, R>>, std::conditional_t<bool(B & 4), Li<R>, Nil<2, R>>, std::conditional_t<bool(B & 8), Av<R>, Nil<3, R>> {
  explicit Bits(SpecP s) : std::conditional_t<bool(B & 1), Ex<R>, Nil<0, R>>(s), std::conditional_t<bool(B & 2), Ha<R>, Nil<1, R>>(s), std::conditional_t<bool(B & 4), Li<R>, Nil<2, R>>(s), std::conditional_t<bool(B & 8), Av<R>, Nil<3, R>>(s) {} };
template <int B> struct FreeOf : structure::Free, Bits<1, B> { explicit FreeOf(SpecP s, double freq) : structure::Free(s->d[0], {RF{"frequency of " + s->name, freq, 1.}}), Bits<1, B>(s) { getParsStream() << "element " << s->name << "\n"; } };
template <int R, int B> struct InterOf : structure::Interaction<R>, Bits<R, B> { InterOf(const typename structure::Interaction<R>::Frees& f, SpecP s, double freq) : structure::Interaction<R>(f, {structure::DynamicsBase::RF{"frequency of " + s->name, freq, 1.}}), Bits<R, B>(s) { this->getParsStream() << "interaction " << s->name << "\n"; } };

inline int bits(const Spec& s) { return s.ex | s.ha << 1 | s.li << 2 | s.av << 3; }
inline structure::FreePtr makeFree(SpecP s, double freq = 1.) { structure::FreePtr p; [&]<int... B>(std::integer_sequence<int, B...>) { ((B == bits(*s) ? (void)(p = std::make_shared<FreeOf<B>>(s, freq)) : void()), ...); }(std::make_integer_sequence<int, 16>{}); return p; }
template <int R> structure::InteractionPtr<R> makeInter(const typename structure::Interaction<R>::Frees& f, SpecP s, double freq = 1.) { structure::InteractionPtr<R> p; [&]<int... B>(std::integer_sequence<int, B...>) { ((B == bits(*s) ? (void)(p = std::make_shared<InterOf<R, B>>(f, s, freq)) : void()), ...); }(std::make_integer_sequence<int, 16>{}); return p; }

// arbitrary (physically meaningless) time-dependent ingredients: what matters is who is called, on what, when
inline std::shared_ptr<Spec> arbitrary(vf::Rng& r, Dims d, const std::string& name, double pEx = .5, double pHa = .6, double pLi = .5, double pAv = .6) {
  auto s = std::make_shared<Spec>(); s->d = d; s->N = qd::total(d); s->name = name; s->ex = r.b(pEx); s->ha = r.b(pHa); s->li = r.b(pLi); s->av = r.b(pAv); s->master = r.b(.7); size_t N = s->N;
  auto rm = [&] { Mat m(N); for (auto& x : m.a) x = r.c(1); return m; };
  auto two = [&](bool timeless) -> Two { Mat a = rm(), b = timeless ? Mat(N) : rm(), c = timeless ? Mat(N) : rm(); return [=](double t, double t0) { return a + t * b + t0 * c; }; };
  auto one = [&](bool timeless) -> One { Mat a = rm(), b = timeless ? Mat(N) : rm(); return [=](double t) { return a + t * b; }; };
  s->U = two(false); s->H = two(r.b(.3));
  if (s->li) { long n = r.b(.1) ? 0 : r.i(1, 3); for (long k = 0; k < n; ++k) { bool special = r.b(.2); Spec::Ch c; c.J = one(r.b(.3)); c.super = r.b(.8); if (!special) { Mat a = rm(), b = rm(); a = a * dense::dag(a); b = b * dense::dag(b); c.rate = [=](double t) { return a + t * t * b; }; } s->ch.push_back(c); } }
  if (s->av) { long n = r.b(.1) ? 0 : r.i(1, 4); for (long k = 0; k < n; ++k) { Mat a = rm(), b = rm(); a = a + dense::dag(a); b = b + dense::dag(b); s->obs.push_back([=](double t) { return a + t * b; }); } }
  return s;
}
} // matsys
