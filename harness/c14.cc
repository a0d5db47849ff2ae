// C14: binary and general composites are the sum of their parts embedded in the product space
#include "matsys.h"
#include "elem.h"
#include "BinarySystem.h"
#include "Composite.h"
#include "Composite.tcc"
#include "JaynesCummings.h"
#include "CoupledModes.h"
#include "ModeCorrelations.h"
#include "MatrixOfHamiltonian.h"
using namespace dense; using namespace vf; using probe::Probe; using namespace matsys;

struct Part { SpecP s; std::vector<size_t> ax; };
// parts in the documented order: frees, then interactions
template <int R> static void judge(Rng& r, structure::QuantumSystemPtr<R> sys, const Dims& d, const std::vector<Part>& parts, const std::string& key, const std::string& cfg) {
  Probe<R> p(sys); size_t N = qd::total(d); if (!check(p.d == d, key + ".dimensions", cfg)) return;
  auto emb = [&](const Mat& m, const Part& q) { return embed(m, d, q.ax); };
  bool ex = false, ha = false, li = false, master = true; for (auto& q : parts) { ex |= q.s->ex; ha |= q.s->ha; li |= q.s->li; if (q.s->ex) master &= q.s->master; }
  check(bool(p.q.getEx()) == ex && bool(p.q.getHa()) == ha && bool(p.q.getLi()) == li && bool(p.q.getAv()), key + ".interfaces", cfg);
  check(p.q.applicableInMaster() == master, key + ".applicableInMaster", cfg);
  double t = r.u(-2, 2), t0 = r.u(-2, 2);
  Vec v = randVec(r, N, false);
  { Vec e = v; long before = 0, after = 0; for (auto& q : parts) { if (q.s->ex) e = emb(q.s->U(t, t0), q) * e; before += q.s->calls[1]; } (void)before; (void)after; Vec g = p.U(t, t0, v); check(dist(g, e) <= 1e-11 * (1 + nrm(e)), key + ".exact", cfg + fmt(" deviation %g of %g", dist(g, e), nrm(e))); }
  { Mat H(N); for (auto& q : parts) if (q.s->ha) H = H + emb(q.s->H(t, t0), q); Vec b = randVec(r, N, false); auto a = qd::arr<R>(v, d), o = qd::arr<R>(b, d); p.q.addContribution(t, a, o, t0); Vec g = sub(qd::vec<R>(o), b), e = H * v; check(dist(g, e) <= 1e-11 * (1 + nrm(e)), key + ".hamiltonian", cfg + fmt(" deviation %g of %g", dist(g, e), nrm(e))); check(dist(qd::vec<R>(a), v) == 0, key + ".input-changed", cfg); }
  if (N <= 40) { // the dense matrix handed out for diagonalisation is the generator itself (times i); without a Hamiltonian part it is zero
    auto m = calculateMatrix(*sys, t, t0); Mat g(N), e(N); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) g(i, j) = m(int(i), int(j)); for (auto& q : parts) if (q.s->ha) e = e + emb(q.s->H(t, t0), q); e = cplx(0, 1) * e;
    check(size_t(m.extent(0)) == N && size_t(m.extent(1)) == N && dist(g, e) <= 1e-11 * (1 + maxabs(e)), key + ".matrix-of-hamiltonian", cfg); }
  size_t n = 0; for (auto& q : parts) n += q.s->ch.size(); if (!check(p.nJ() == n, key + ".number-of-jumps", cfg + fmt(" %zu expected %zu", p.nJ(), n))) return;
  Mat rho = randRho(r, N, size_t(r.i(1, long(N)))); auto pure = qd::sv<R>(v, d); auto mixed = qd::dop<R>(rho, d); Mat vv = dyad(v, v);
  if (li) {
    auto rp = p.rates(t, pure), rm = p.rates(t, mixed); if (!check(rp.size() == n && rm.size() == n, key + ".number-of-rates", cfg)) return;
    size_t m = 0; for (auto& q : parts) for (auto& c : q.s->ch) {
      std::string w = cfg + fmt(" channel %zu of %zu (%s)", m, n, q.s->name.c_str()); Mat J = emb(c.J(t), q);
      check(dist(p.J(t, m, v), J * v) <= 1e-11 * (1 + nrm(J * v)), key + ".jump", w);
      if (c.rate) { Mat R_ = emb(c.rate(t), q); close(rp[m], tr(vv * R_).real(), 1e-11, key + ".rate.pure", w, 1e-10); close(rm[m], tr(rho * R_).real(), 1e-11, key + ".rate.mixed", w, 1e-10); } else check(rp[m] < 0 && rm[m] < 0, key + ".rate.special", w);
      Mat S; bool done = p.S(t, m, rho, S); check(done == c.super, key + ".superoperator.availability", w); if (done && c.super) { Mat e = J * rho * dag(J); check(dist(S, e) <= 1e-11 * (1 + maxabs(e)), key + ".superoperator", w); }
      ++m; count("channels.observed");
    }
    { std::ostringstream os; size_t i = 0; p.q.template streamKey<structure::LA_Li>(os, i); check(i == n, key + ".decay-key.count", cfg); std::string s = os.str(); size_t pos = 0, k = 0; for (auto& q : parts) for (size_t c = 0; c < q.s->ch.size(); ++c) { auto f = s.find(fmt("%zu. %sJ%zu\n", k++, q.s->name.c_str(), c), pos); if (!check(f != s.npos, key + ".decay-key.order", cfg + s)) break; pos = f; } }
  }
  size_t na = 0; for (auto& q : parts) na += q.s->obs.size(); if (!check(p.nA() == na, key + ".number-of-averages", cfg)) return;
  auto expected = [&](const Mat& w) { std::vector<double> e; for (auto& q : parts) { double f = 0; for (size_t k = 0; k < q.s->obs.size(); ++k) { double x = tr(w * emb(q.s->obs[k](t), q)).real(); if (k == 0) f = x; else x -= f * f; e.push_back(x); } } return e; };
  for (int k = 0; k < 2; ++k) { auto g = k ? p.avg(t, mixed) : p.avg(t, pure); auto e = expected(k ? rho : vv); if (!check(g.size() == na, key + ".averages.size", cfg)) return; for (size_t c = 0; c < na; ++c) close(g[c], e[c], 1e-10, key + ".averages", cfg + fmt(" column %zu %s", c, k ? "mixed" : "pure"), 1e-9); }
  { // printed: each part exactly once, in order, with its own values
    std::ostringstream os; auto res = p.q.stream(t, mixed, os, 6); std::string e; std::vector<double> x; { auto a = std::get<1>(res); x = Probe<R>::list(a); } size_t c = 0; for (auto& q : parts) if (q.s->av && q.s->obs.size()) { e += q.s->name + "("; for (size_t k = 0; k < q.s->obs.size(); ++k) e += fmt("%s%.17g", k ? " " : "", c < x.size() ? x[c++] : 0.); e += ")"; } check(os.str() == e, key + ".stream", cfg + " got " + os.str() + " expected " + e);
    std::ostringstream ks; size_t i = 0; p.q.template streamKey<structure::LA_Av>(ks, i); check(i == na, key + ".key.count", cfg); std::string s = ks.str(); size_t pos = 0, k = 0; for (auto& q : parts) for (size_t cc = 0; cc < q.s->obs.size(); ++cc) { auto f = s.find(fmt("%zu. %sA%zu\n", k++, q.s->name.c_str(), cc), pos); if (!check(f != s.npos, key + ".key.order", cfg + s)) break; pos = f; }
    std::ostringstream ps; sys->streamParameters(ps); s = ps.str(); pos = 0; for (auto& q : parts) { auto f = s.find((q.ax.size() == 1 ? "element " : "interaction ") + q.s->name + "\n", pos); if (!check(f != s.npos, key + ".parameters", cfg)) break; pos = f; } }
  count("composites.observed");
}
static std::string describe(const std::vector<Part>& ps) { std::string s; for (auto& p : ps) { s += p.s->name + "{"; for (auto a : p.ax) s += fmt("%zu", a); s += fmt("/%s%s%s%s}", p.s->ex ? "E" : "", p.s->ha ? "H" : "", p.s->li ? "L" : "", p.s->av ? "A" : ""); } return s; }
static Part part(Rng& r, const Dims& d, std::vector<size_t> ax, const std::string& name, bool inter) { Dims dd; for (auto a : ax) dd.push_back(d[a]); return {inter ? arbitrary(r, dd, name, .35, .6, .5, .5) : arbitrary(r, dd, name), ax}; }

SCENARIO(binaries, 260) {
  Dims d{size_t(r.i(1, 5)), size_t(r.i(1, 5))}; std::vector<Part> ps{part(r, d, {0}, "f0", false), part(r, d, {1}, "f1", false), part(r, d, {0, 1}, "ia", true)};
  double w[3] = {r.u(.1, 9), r.u(.1, 9), r.u(.1, 9)}; auto f0 = makeFree(ps[0].s, w[0]), f1 = makeFree(ps[1].s, w[1]); auto ia = makeInter<2>({f0, f1}, ps[2].s, w[2]); auto b = binary::make(ia);
  std::string cfg = qd::str(d) + " " + describe(ps); judge<2>(r, b, d, ps, "binary", cfg); close(b->highestFrequency(), std::max({w[0], w[1], w[2]}), 1e-14, "binary.highestFrequency", cfg); sig(cfg); sample(cfg);
}
// the same element twice (identical particles) is legal
SCENARIO(binaryTwins, 30) {
  size_t n = size_t(r.i(2, 4)); Dims d{n, n}; Part a = part(r, d, {0}, "f", false); std::vector<Part> ps{a, {a.s, {1}}, part(r, d, {0, 1}, "ia", true)}; auto f = makeFree(a.s); judge<2>(r, binary::make(makeInter<2>({f, f}, ps[2].s)), d, ps, "binary.twins", describe(ps)); sig(describe(ps));
}

template <int R> static std::vector<structure::FreePtr> frees(const std::vector<Part>& ps) { std::vector<structure::FreePtr> f; for (int k = 0; k < R; ++k) f.push_back(makeFree(ps[size_t(k)].s)); return f; }
template <int R> static std::vector<Part> freeParts(Rng& r, const Dims& d) { std::vector<Part> ps; for (size_t k = 0; k < R; ++k) ps.push_back(part(r, d, {k}, fmt("f%zu", k), false)); return ps; }
template <int... V> static composite::_<V...> act(Rng& r, const Dims& d, const std::vector<structure::FreePtr>& f, std::vector<Part>& ps, const char* name) { ps.push_back(part(r, d, {size_t(V)...}, name, true)); return composite::_<V...>(makeInter<sizeof...(V)>({f[V]...}, ps.back().s)); }
template <int R, typename... A> static void finish(Rng& r, const Dims& d, const std::vector<Part>& ps, const char* key, const A&... acts) { std::string cfg = qd::str(d) + " " + describe(ps); judge<R>(r, composite::make(acts...), d, ps, key, cfg); sig(cfg); sample(cfg); }

SCENARIO(composites2, 60) { Dims d{size_t(r.i(1, 4)), size_t(r.i(1, 4))}; auto ps = freeParts<2>(r, d); auto f = frees<2>(ps); if (r.b()) { auto a = act<1, 0>(r, d, f, ps, "i0"); finish<2>(r, d, ps, "composite2", a); } else { auto a = act<0, 1>(r, d, f, ps, "i0"); auto b = act<1, 0>(r, d, f, ps, "i1"); finish<2>(r, d, ps, "composite2", a, b); } }
SCENARIO(composites3, 120) {
  Dims d{size_t(r.i(1, 4)), size_t(r.i(1, 4)), size_t(r.i(1, 3))}; auto ps = freeParts<3>(r, d); auto f = frees<3>(ps);
  switch (r.i(0, 2)) {
    case 0: { auto a = act<0, 1>(r, d, f, ps, "i0"); auto b = act<2, 0>(r, d, f, ps, "i1"); finish<3>(r, d, ps, "composite3", a, b); break; }
    case 1: { auto a = act<1, 0>(r, d, f, ps, "i0"); auto b = act<2, 0>(r, d, f, ps, "i1"); auto c = act<1, 2, 0>(r, d, f, ps, "i2"); finish<3>(r, d, ps, "composite3", a, b, c); break; }
    default: { auto a = act<2, 0, 1>(r, d, f, ps, "i0"); auto b = act<2, 1>(r, d, f, ps, "i1"); finish<3>(r, d, ps, "composite3", a, b); } }
}
SCENARIO(composites4, 70) {
  Dims d{size_t(r.i(1, 3)), size_t(r.i(1, 3)), size_t(r.i(1, 3)), size_t(r.i(1, 2))}; auto ps = freeParts<4>(r, d); auto f = frees<4>(ps);
  if (r.b()) { auto a = act<3, 1>(r, d, f, ps, "i0"); auto b = act<0, 2, 3>(r, d, f, ps, "i1"); finish<4>(r, d, ps, "composite4", a, b); }
  else { auto a = act<2, 0>(r, d, f, ps, "i0"); auto b = act<1, 3>(r, d, f, ps, "i1"); auto c = act<3, 0, 2, 1>(r, d, f, ps, "i2"); finish<4>(r, d, ps, "composite4", a, b, c); }
}
// inconsistent legs are refused when the actual elements become available
SCENARIO(compositeRefusals, 30) {
  Dims d{2, size_t(r.i(2, 3)), 2}; auto ps = freeParts<3>(r, d); auto f = frees<3>(ps), g = frees<3>(ps); // g: other instances of equal kind
  auto a = act<0, 1>(r, d, f, ps, "i0"); auto ok = act<1, 2>(r, d, f, ps, "i1"); check(!throws([&] { composite::make(a, ok); }), "composite.accepted");
  auto other = act<1, 2>(r, d, g, ps, "i2"); check(throws([&] { composite::make(a, other); }), "composite.different-free-on-one-axis-refused");
  auto swapped = composite::_<1, 2>(makeInter<2>({f[2], f[1]}, std::make_shared<Spec>([&] { Spec s = *part(r, d, {2, 1}, "i3", true).s; return s; }()))); check(throws([&] { composite::make(a, swapped); }), "composite.swapped-legs-refused");
  sig(fmt("%zu", d[1]));
}

// real elements in real composites: generator, jumps and averages
SCENARIO(realComposites, 40) {
  parameters::Table pt; mode::ParsPumpedLossy pa(pt, "a"), pb(pt, "b"); qbit::ParsPumpedLossy pq(pt); pa.cutoff = size_t(r.i(2, 4)); pb.cutoff = size_t(r.i(2, 3)); for (auto* p : {&pa, &pb}) { p->delta = r.u(-3, 3); p->kappa = r.b(.3) ? 0. : r.u(.1, 1); p->nTh = r.b() ? 0. : r.u(.1, 1); p->eta = r.b() ? cplx(0) : r.c(1); } pq.delta = r.u(-3, 3); pq.gamma = r.b(.3) ? 0. : r.u(.1, 1); pq.eta = r.b() ? cplx(0) : r.c(1);
  QM_Picture q = r.pick(std::vector<QM_Picture>{QMP_IP, QMP_UIP, QMP_SCH}); auto a = mode::make(pa, q), b = mode::make(pb, q); auto s = qbit::make(pq, q); cplx g = r.c(1), u = r.c(1); Dims d{2, pa.cutoff, pb.cutoff}; size_t N = qd::total(d);
  auto sys = composite::make(Act<0, 1>(jaynescummings::make(s, a, g)), Act<1, 2>(coupledmodes::make<coupledmodes::CM_XX_RWA, ModeCorrelations>(a, b, u)));
  Probe<3> p(sys); Probe<1> P[3] = {Probe<1>(s), Probe<1>(a), Probe<1>(b)}; const cplx I(0, 1);
  Mat A = embed(lower(d[1]), d, {1}), B = embed(lower(d[2]), d, {2}), S = embed(lower(2), d, {0}); Mat X = std::conj(g) * S * dag(A), Y = std::conj(u) * A * dag(B);
  auto G1 = [&](const mode::ParsPumpedLossy& m) { size_t n = m.cutoff; Mat l = lower(n); return -1. * (cplx(m.kappa * (2 * (m.kappa ? m.nTh : 0.) + 1), -m.delta) * number(n)) + cplx(m.eta) * dag(l) - std::conj(m.eta) * l; };
  Mat Gq = -1. * (cplx(pq.gamma, -pq.delta) * number(2)) + std::conj(pq.eta) * lower(2) - pq.eta * dag(lower(2));
  Mat G = embed(Gq, d, {0}) + embed(G1(pa), d, {1}) + embed(G1(pb), d, {2}) + (X - dag(X)) + (Y - dag(Y)); std::string cfg = fmt("%s pict=%d", qd::str(d).c_str(), int(q)); elem::generator(r, p, G, "real.generator", cfg, true);
  elem::Jumps js; if (pq.gamma) js.push_back({std::sqrt(2 * pq.gamma) * S, 2 * pq.gamma * dag(S) * S}); auto lossy = [&](const mode::ParsPumpedLossy& m, size_t ax) { if (!m.kappa) return; Mat l = lower(m.cutoff), n = number(m.cutoff); js.push_back({embed(std::sqrt(2 * m.kappa * (m.nTh + 1)) * l, d, {ax}), embed(2 * m.kappa * (m.nTh + 1) * n, d, {ax})}); if (m.nTh) js.push_back({embed(std::sqrt(2 * m.kappa * m.nTh) * dag(l), d, {ax}), embed(2 * m.kappa * m.nTh * (n + id(m.cutoff)), d, {ax})}); }; lossy(pa, 1); lossy(pb, 2);
  elem::jumps(r, p, js, "real", cfg);
  { Mat rho = randRho(r, N); auto g0 = p.avg(0., qd::dop<3>(rho, d)); std::vector<double> e; for (size_t k = 0; k < 3; ++k) { auto x = P[k].avg(0., qd::dop<1>(ptrace(rho, d, {k}), {d[k]})); e.insert(e.end(), x.begin(), x.end()); } { ModeCorrelations mc; Mat w = ptrace(rho, d, {1, 2}); auto x = mc.average(0., qd::dop<2>(w, {d[1], d[2]})); structure::Averages y(x.copy()); mc.process(y); for (int k = 0; k < y.size(); ++k) e.push_back(y(k)); }
    if (check(g0.size() == e.size(), "real.averages.number", cfg)) for (size_t k = 0; k < e.size(); ++k) close(g0[k], e[k], 1e-11, "real.averages", cfg + fmt(" column %zu", k)); }
  sig(cfg + fmt("%d%d%d", pa.kappa != 0, pb.kappa != 0, pq.gamma != 0));
}
