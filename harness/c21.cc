// C21: printed tables announce what they contain and contain the true values.
#include "elem.h"
#include "real.h"
#include "table.h"
#include "trajkinds.h"
#include "JaynesCummings.h"
#include "CoupledModes.h"
#include "ModeCorrelations.h"
#include "BinarySystem.h"
#include "Composite.tcc"
#include "CommentingStream.h"
#include "KeyPrinter.h"
#include <iomanip>
using namespace dense; using namespace vf; using probe::Probe; using qd::Dims; using real::ModeP; using real::QbitP; using real::SpinP; using real::all; namespace cu = cppqedutils;
namespace {
std::string num(double v, int p) { return fmt("%.*g", p, v); }
double value(Rng& r) {
  switch (r.i(0, 9)) {
    case 0: return 0.; case 1: return -0.; case 2: return double(r.i(-1000000, 1000000)); case 3: return std::numeric_limits<double>::max() * (r.b() ? 1 : -1); case 4: return std::numeric_limits<double>::min() * (r.b() ? 1 : -1);
    case 5: { double v = std::pow(10., double(r.i(-12, 12))); return r.b() ? v * (1 - 1e-16) : -v * (1 - r.logu(1e-16, 1e-2)); } // on the verge of another number of digits
    case 6: return r.u(-1, 1) * 1e-4; case 7: return (r.b() ? 1 : -1) * r.logu(1e-308, 1e-280); default: return (r.b() ? 1 : -1) * r.logu(1e-300, 1e300); } }
std::vector<std::string> words(const std::string& l) { std::istringstream is(l); std::vector<std::string> o; std::string w; while (is >> w) o.push_back(w); return o; }
std::string spell(double v, int p) { return num(v, p); }
std::string spell(cplx v, int p) { return "(" + num(v.real(), p) + "," + num(v.imag(), p) + ")"; }

struct Expect { std::vector<std::string> titlesAndLabels; size_t columns = 0; }; // the key after the two universal columns: titles as they are, labels as "number. label"
std::string strip(const std::string& s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t"); return a == s.npos ? "" : s.substr(a, b - a + 1); }
bool numbered(const std::string& s, size_t& n) { size_t k = 0; while (k < s.size() && isdigit((unsigned char)s[k])) ++k; if (!k || k >= s.size() || s[k] != '.') return false; n = strtoul(s.c_str(), nullptr, 10); return true; }

// text of a whole run against what the run returned
template <typename RES> void table(const std::string& text, const RES& res, int p, bool info, bool mayHaveMore, const std::vector<std::string>& key, size_t columns, const std::string& k, const std::string& cfg) {
  std::vector<std::string> ls; { std::istringstream is(text); std::string l; while (std::getline(is, l)) ls.push_back(l); } check(text.empty() || text.back() == '\n', k + ".last-line-ended", cfg);
  std::vector<std::string> data, head; bool inKey = false, sawKey = false;
  for (auto& l : ls) { if (strip(l).empty()) { inKey = false; continue; } if (l[0] == '#') { if (!check(l.size() > 1 && l[1] == ' ', k + ".comment-form", cfg + " line: " + l)) return; std::string s = strip(l.substr(2)); if (s == "Key to data:") { inKey = sawKey = true; continue; } if (inKey) head.push_back(s); continue; } data.push_back(l); }
  check(sawKey == info, k + ".key-present", cfg);
  if (info && sawKey) {
    std::vector<std::string> e{"Trajectory", "1. time", "2. dtDid"}; e.insert(e.end(), key.begin(), key.end());
    std::string g, x, gn, xn; size_t pos = 0, d; for (auto& s : head) { g += s + "|"; if (numbered(s, d)) gn += s + "|"; if (pos < e.size() && s == e[pos]) ++pos; } for (auto& s : e) { x += s + "|"; if (numbered(s, d)) xn += s + "|"; } check(gn == xn && pos == e.size(), k + ".key", cfg + " printed " + g + " expected " + x);
    size_t next = 1; bool fine = true; for (auto& s : head) { size_t n; if (numbered(s, n)) { fine &= n == next; ++next; } } check(fine && next - 1 == columns + 2, k + ".key-numbers-columns", cfg + fmt(" %zu announced, %zu columns", next - 1, columns + 2));
  }
  if (!check(data.size() == res.size() || (mayHaveMore && data.size() == res.size() + 1), k + ".number-of-rows", cfg + fmt(" %zu rows, %zu values returned", data.size(), res.size()))) return;
  for (auto& l : data) if (!check(words(l).size() == columns + 2, k + ".number-of-columns", cfg + fmt(" %zu of %zu in: ", words(l).size(), columns + 2) + l)) return;
  auto it = res.begin(); for (size_t n = 0; n < res.size(); ++n, ++it) {
    auto w = words(data[n]); int q = std::max(p, 6); check(w[0] == num(std::get<0>(*it), q) && w[1] == num(std::get<1>(*it), q), k + ".time", cfg + " " + data[n] + fmt(" vs %.17g %.17g", std::get<0>(*it), std::get<1>(*it)));
    const auto& a = std::get<2>(*it); size_t c = 0; if (!check(size_t(a.size()) == columns, k + ".returned-size", cfg)) return; for (auto x : a) { check(w[c + 2] == spell(x, p), k + ".value", cfg + fmt(" column %zu: ", c + 3) + w[c + 2] + " for " + spell(x, 17)); ++c; } count("numbers-compared", long(c)); }
  count("rows", long(data.size())); count("lines", long(ls.size()));
}
template <typename K> std::vector<std::string> keyOf(const std::vector<const K*>& parts, size_t& i) { std::ostringstream os; for (auto* p : parts) if (p) p->streamKey(os, i); std::vector<std::string> o; std::istringstream is(os.str()); std::string l; while (std::getline(is, l)) if (!strip(l).empty()) o.push_back(strip(l)); return o; }

struct Run { int mode; double T, Dt; int dc; long N; int precision; bool info, file; Run(Rng& r) { mode = int(r.i(0, 2)); T = r.u(.2, 1.); Dt = T / r.u(1, 7); dc = int(r.i(1, 6)); N = r.i(1, 6); precision = r.b(.15) ? 0 : int(r.i(1, 17)); info = r.b(.8); file = r.b(); } std::string str() const { return fmt("[mode %d T %g Dt %g dc %d N %ld precision %d info %d file %d]", mode, T, Dt, dc, N, precision, info, file); } };
template <typename TR> auto perform(TR& t, const Run& c, std::string& text) {
  auto& A = cu::trajectory::autostopHandlerNoOp; tk::Dir d; std::string f = c.file ? d("table") : ""; CaptureCout cap;
  auto go = [&] { constexpr bool stepping = requires(TR& x, std::ostream& o) { x.step(.1, o); };
    if constexpr (stepping) { if (c.mode == 1) return cu::trajectory::run(t, c.T, c.dc, 1, f, "", c.precision, c.info, true, "command line\nin two lines", true, true, A); }
    if (c.mode == 2) return cu::trajectory::run(t, c.N, c.Dt, 1, f, "", c.precision, c.info, true, "command line", true, true, A);
    return cu::trajectory::run(t, c.T, c.Dt, 1, f, "", c.precision, c.info, true, "command line", true, true, A); };
  auto res = go(); text = c.file ? tk::slurp(f) : cap.s.str(); if (c.file) check(cap.s.str().empty(), "output-elsewhere", c.str()); return res; }
template <typename TR> void untouched(Rng& r, TR& t, const std::string& k, const std::string& cfg) {
  std::string before = tk::record(t); std::ostringstream os; os.precision(int(r.i(2, 9))); auto pr = os.precision(); auto fl = os.flags(); int p = int(r.i(0, 17)); cu::trajectory::stream(t, os, p); std::string a = os.str(); std::ostringstream o2; cu::trajectory::stream(t, o2, p);
  check(tk::record(t) == before, k + ".state-untouched", cfg); check(os.precision() == pr && os.flags() == fl && os.width() == 0, k + ".stream-untouched", cfg); check(o2.str() == a, k + ".reproducible", cfg); size_t lines = 0; for (char c : a) lines += c == '\n'; check(lines == 1 && a.back() == '\n', k + ".one-line", cfg + " " + a); }
struct Tol { double er, ea; int log; Tol(Rng& r) { er = r.logu(1e-8, 1e-3); ea = r.logu(1e-12, 1e-5); log = r.b(.4) ? 0 : int(r.i(1, 4)); } };
template <int R, typename V> void quantum(Rng& r, structure::QuantumSystemPtr<R> sys, std::vector<const structure::LiouvilleanAveragedCommon*> parts, const std::string& what, bool thermal = false) {
  Probe<R> pr(sys); if (thermal && !pr.q.applicableInMaster()) return; // a thermal excitation out of the highest level annihilates the state: jumps are not asked for there
  size_t N = pr.N; Dims d = pr.d; Run c(r); Tol o(r); double sc = std::max(1., sys->highestFrequency()); c.T /= std::sqrt(sc); c.Dt /= std::sqrt(sc); int kind = thermal ? 0 : int(r.i(0, 2)); size_t i = 3; auto key = keyOf(parts, i); size_t n = i - 3; quantumtrajectory::EntanglementMeasuresSwitch ems((unsigned long)r.i(0, 7)); constexpr bool bip = !boost::mpl::empty<V>::value; std::string text;
  check(n == pr.nA(), "quantum.number-of-averages", what);
  auto ent = [&] { if (bip && kind != 1) { if (ems.any()) key.push_back("Trajectory"); const char* l[] = {"negativity", "mutual information", "purity of partial trace"}; for (int k = 0; k < 3; ++k) if (ems[size_t(k)]) { key.push_back(fmt("%zu. %s", i++, l[k])); ++n; } } };
  std::string cfg = what + " " + c.str() + fmt(" kind %d er %g ea %g log %d sc %g", kind, o.er, o.ea, o.log, sc); if (getenv("DBG")) fprintf(stderr, "%s\n", cfg.c_str());
  auto last = [&](const auto& rho, const std::vector<double>& a, const std::string& k) { // the last row is that of the final state
    std::vector<double> e = pr.avg(0., rho); if constexpr (bip && !std::is_same_v<std::decay_t<decltype(rho)>, quantumdata::StateVector<R>>) { if (kind != 1) { if (ems[0]) e.push_back(negPT(rho, V{})); if (ems[1]) e.push_back(mutualInformation(rho, V{})); if (ems[2]) e.push_back(purityOfPartialTrace(rho, V{})); } } if (check(a.size() == e.size(), k + ".last-size", cfg)) for (size_t m = 0; m < e.size(); ++m) close(a[m], e[m], 1e-9, k + ".last-row", cfg + fmt(" column %zu", m + 3), 1e-9); };
  auto lastOf = [&](auto& res) { std::vector<double> o; if (res.size()) for (double x : std::get<2>(res.back())) o.push_back(x); return o; };
  if (kind == 0 && pr.q.applicableInMaster()) { using E = cu::ODE_EngineBoost<quantumdata::DensityOperatorLow<R>>; quantumtrajectory::Master<R, E, V> m(sys, qd::dop<R>(randRho(r, N, 2), d), E(.1 / sc, o.log, o.er, o.ea), ems); ent(); auto res = perform(m, c, text); table(text, res, c.precision, c.info, c.mode == 1, key, n, "master", cfg); untouched(r, m, "master", cfg);
    if (c.mode != 1 && res.size()) { std::ostringstream os; { cu::oarchive oa(os); m.stateIO(oa); } std::istringstream is(os.str()); cu::iarchive ia(is); CArray<2 * R> a; ia & a; last(quantumdata::DensityOperator<R>(a, quantumdata::byReference), lastOf(res), "master"); } count("master-tables"); }
  else if (kind == 2) { tk::Ens<R, cu::ODE_EngineBoost>* none = nullptr; (void)none; parameters::Table t; quantumtrajectory::mcwf::Pars<pcg64> p{t}; p.nTraj = size_t(r.i(1, 4)); p.seed = (unsigned long)r.i(1, 999); p.epsRel = o.er; p.epsAbs = o.ea; p.logLevel = o.log; p.dpLimit = r.logu(5e-3, .1); p.nBins = size_t(r.i(0, 4)); using E = cu::ODE_EngineBoost<quantumdata::StateVectorLow<R>>; auto m = quantumtrajectory::mcwf::makeEnsemble<E, pcg64, V>(sys, qd::sv<R>(randVec(r, N), d), p, ems); ent(); auto res = perform(m, c, text); table(text, res, c.precision, c.info, false, key, n, "ensemble", cfg + fmt(" nTraj %zu nBins %zu", size_t(p.nTraj), size_t(p.nBins))); untouched(r, m, "ensemble", cfg); if (res.size()) { quantumdata::DensityOperator<R> rho(m.averaged()); last(rho, lastOf(res), "ensemble"); } count("ensemble-tables"); }
  else { kind = 1; using E = cu::ODE_EngineBoost<quantumdata::StateVectorLow<R>>; quantumtrajectory::MCWF_Trajectory<R, E, pcg64> m(sys, qd::sv<R>(randVec(r, N), d), E(.1 / sc, o.log, o.er, o.ea), {(unsigned long)r.i(1, 999), 1ul}, r.logu(5e-3, .1), 5., o.log); auto res = perform(m, c, text); table(text, res, c.precision, c.info, c.mode == 1, key, n, "mcwf", cfg); untouched(r, m, "mcwf", cfg); if (c.mode != 1 && res.size()) last(m.getStateVector(), lastOf(res), "mcwf"); count("mcwf-tables"); }
  sig(what.substr(0, 60) + fmt("%d %d %d %d %d", kind, c.mode, c.precision, c.info, int(ems.to_ulong()))); sample(cfg);
}
template <typename P> const structure::LiouvilleanAveragedCommon* avOf(const P& p) { return dynamic_cast<const structure::Averaged<1>*>(p.get()); }
} // namespace

SCENARIO(formatting, 2000) {
  double v = value(r); int p = r.b(.1) ? 0 : int(r.i(1, 17)); FormDouble f(p); std::ostringstream os; os.precision(5); os << f(v) << f(v); std::string s = os.str(), t = num(v, p); std::string cfg = fmt("%.17g at %d: ", v, p) + s;
  auto w = words(s); check(w.size() == 2 && w[0] == t && w[1] == t, "format.value-and-separation", cfg); check(s.size() == 2 * size_t(f.getWidth()), "format.alignment", cfg); check(os.precision() == 5 && os.width() == 0, "format.stream-untouched", cfg); check(f.getPrecision() == p, "format.precision", cfg);
  { std::ostringstream a; auto g = formdouble::positive(p); a << g(std::abs(v)) << g(std::abs(v)); auto x = words(a.str()); int q = std::max(p, 6); check(x.size() == 2 && x[0] == num(std::abs(v), q) && x[1] == x[0], "format.positive", cfg + " / " + a.str()); check(a.str().size() == 2 * size_t(g.getWidth()), "format.positive-alignment", cfg); }
  { std::ostringstream a; a << formdouble::zeroAdditional(p)(v); check(a.str() == num(v, std::max(p, 6)), "format.zeroAdditional", cfg); } { std::ostringstream a; a << FormDouble(p, 0)(v) << '|' << formdouble::Zero(p)(v); check(a.str() == t + "|" + t, "format.zero", cfg); }
  { std::ostringstream a; a << formdouble::low()(v) << ' ' << formdouble::high()(v); auto x = words(a.str()); check(x.size() == 2 && x[0] == num(v, 3) && x[1] == num(v, 6), "format.low-high", a.str()); }
  { cplx z(v, value(r)); std::ostringstream a; a << f(z) << ' ' << f(z); auto x = words(a.str()); check(x.size() == 2 && x[0] == spell(z, p) && x[1] == x[0], "format.complex", a.str()); }
  { int width = int(r.i(0, 40)); std::ostringstream a; a << FormDouble(p, width)(v); std::string e = t; if (int(e.size()) < width) e += std::string(size_t(width) - e.size(), ' '); check(a.str() == e, "format.width", a.str()); }
  check(formdouble::widthAny(p) == formdouble::widthPositive(p) + 1, "format.widths"); sig(fmt("%d %d %d", p, v < 0, v == 0 ? -999 : int(std::floor(std::log10(std::abs(v)))))); count("numbers-formatted", 9); if (r.b(.002)) sample(cfg);
}
SCENARIO(keys, 300) {
  std::list<std::string> l; size_t n = size_t(r.i(0, 14)); for (size_t k = 0; k < n; ++k) { std::string s; for (long c = r.i(1, 12); c; --c) s += "abcXYZ<>^(), 019.#"[r.i(0, 17)]; l.push_back("l" + s + "e"); } std::string title = "title " + std::to_string(r.i(0, 99)); cu::KeyPrinter kp(title, l); size_t i = size_t(r.i(0, 120)), i0 = i; std::ostringstream os; kp.stream(os, i); std::string e = title; size_t m = i0; for (auto& s : l) e += fmt("\n%2zu. ", m++) + s; e += "\n";
  check(os.str() == e, "key.text", os.str() + " expected " + e); check(i == i0 + n, "key.count"); check(kp.size() == n && kp.getTitle() == title && kp.getLabels() == l, "key.content"); sig(fmt("%zu %zu", n, i0 / 10)); count("keys"); if (r.b(.01)) sample(e);
}
SCENARIO(comments, 300) {
  // through one or two commenting streams over a stream also written directly, whole lines at a time, any manner of flushing
  auto out = std::make_shared<std::ostringstream>(), other = std::make_shared<std::ostringstream>(); std::string e, e2; std::string* ex = &e; cu::CommentingStream a(out), b(out); std::string cfg; int nl = int(r.i(1, 30)); bool switched = false; long cut = r.b(.3) ? r.i(0, nl - 1) : -1;
  for (int k = 0; k < nl; ++k) {
    if (k == cut) { a.flush(); a.set(other); switched = true; cfg += "S"; ex = &e2; }
    int who = switched ? 0 : int(r.i(0, 2)); std::string line; long len = r.b(.1) ? r.i(100, 9000) : r.i(0, 40); for (long c = 0; c < len; ++c) line += "abc #\t,.;0123456789-e"[r.i(0, 20)]; double v = value(r); int p = int(r.i(1, 15));
    if (who == 2) { *out << line << '\n'; *ex += line + "\n"; cfg += "d"; continue; }
    auto& s = who ? b : a; if (r.b(.3)) { s << line << std::setprecision(p) << v; line += num(v, p); } else { size_t h = line.size() ? size_t(r.i(0, long(line.size()))) : 0; s << line.substr(0, h); if (r.b(.3) && h == 0) s.flush(); s << line.substr(h); }
    if (r.b()) s << std::endl; else { s << '\n'; s.flush(); } *ex += (line.empty() ? "" : "# ") + line + "\n"; cfg += who ? "b" : "a"; if (line.find('\n') != line.npos) cfg += "!"; }
  if (r.b(.3)) { // redirected while being the last owner of its stream: what was written is not lost
    struct Rec : std::ostringstream { std::string& to; Rec(std::string& s) : to(s) {} ~Rec() { to = str(); } }; std::string kept, w; auto o = std::make_shared<Rec>(kept); auto second = std::make_shared<std::ostringstream>();
    { cu::CommentingStream c(o); o.reset(); int n = int(r.i(0, 4)); for (int k = 0; k < n; ++k) { std::string l = fmt("line %d of %d", k, n); c << l << '\n'; w += "# " + l + "\n"; } if (r.b()) { c.set(second); c << "rest" << std::endl; } }
    check(kept == w, "comments.last-owner", kept + " expected " + w); count("redirected-last-owner"); }
  a.flush(); b.flush(); check(out->str() == e, "comments.text", cfg + fmt(" %zu characters, expected %zu", out->str().size(), e.size())); check(other->str() == e2, "comments.redirected", cfg); sig(cfg); count("commented-lines", nl);
}
template <typename A> static void simulatedTable(Rng& r) {
  tk::Sim<A, cu::ODE_EngineBoost> s(r); Run c(r); std::vector<std::string> key{"Simulated"}; std::vector<std::string> labels{"alpha beta", "x", "<n>", "d", "e"}; size_t given = size_t(r.i(0, 5)); auto m = s.M; long N = s.n; if (given > 5) given = 5; size_t i = 3;
  double big = r.b(.3) ? r.logu(1e-12, 1e12) : 1.; A y(s.arr(s.y0)); for (auto& x : y) x *= big;
  auto f = [m, N](const A& u, A& d, double t) { long k = 0; for (auto it = d.begin(); it != d.end(); ++it, ++k) { cplx q = 0; long j = 0; for (auto x = u.begin(); x != u.end(); ++x, ++j) q += m[size_t(k * N + j)] * std::sin(t + double(j)) * cplx(*x); if constexpr (std::is_same_v<typename A::T_numtype, double>) *it = q.real(); else *it = q; } };
  using E = cu::ODE_EngineBoost<A>; std::string cfg = s.what + fmt("%zu labels ", given) + c.str();
  auto go = [&](std::initializer_list<std::string> l) {
    if (long(l.size()) > N) { check(throws([&] { cu::simulated::make<E>(A(y.copy()), f, l, s.dt, s.log, s.er, s.ea); }), "simulated.too-many-labels", cfg); count("rejected-labels"); return; }
    auto t = cu::simulated::make<E>(A(y.copy()), f, l, s.dt, s.log, s.er, s.ea * big); std::string text; for (auto& x : l) key.push_back(fmt("%zu. ", i++) + x); while (long(i) - 3 < N) key.push_back(fmt("%zu. N/A", i++)); auto res = perform(t, c, text); table(text, res, c.precision, c.info, c.mode == 1, key, size_t(N), "simulated", cfg); untouched(r, t, "simulated", cfg); count("simulated-tables"); };
  switch (given) { case 0: go({}); break; case 1: go({labels[0]}); break; case 2: go({labels[0], labels[1]}); break; case 3: go({labels[0], labels[1], labels[2]}); break; case 4: go({labels[0], labels[1], labels[2], labels[3]}); break; default: go({labels[0], labels[1], labels[2], labels[3], labels[4]}); }
  sig(cfg.substr(0, 40) + fmt("%d%d", c.mode, c.precision)); sample(cfg);
}
SCENARIO(simulatedReal, 60) { simulatedTable<DArray<1>>(r); }
SCENARIO(simulatedComplex, 60) { simulatedTable<CArray<1>>(r); }
SCENARIO(modeTables, 40) { ModeP m(r, size_t(r.i(2, 6))); auto s = m.make(r.pick(all)); quantum<1, tmptools::V_Empty>(r, s, {avOf(s)}, m.cfg, m.p.nTh != 0); }
SCENARIO(qbitTables, 30) { QbitP m(r); auto s = m.make(r.pick(all)); quantum<1, tmptools::V_Empty>(r, s, {avOf(s)}, m.cfg); }
SCENARIO(spinTables, 30) { SpinP m(r); auto s = m.make(r.b()); quantum<1, tmptools::V_Empty>(r, s, {avOf(s)}, m.cfg); }
SCENARIO(jaynesCummingsTables, 40) { ModeP m(r, size_t(r.i(2, 4))); QbitP q(r); auto Q = q.make(r.pick(all)); auto M = m.make(r.pick(all)); quantum<2, tmptools::Vector<0>>(r, binary::make(jaynescummings::make(Q, M, r.c(2))), {avOf(Q), avOf(M)}, q.cfg + m.cfg, m.p.nTh != 0); }
SCENARIO(compositeTables, 24) { ModeP m(r, 2), n(r, size_t(r.i(2, 3))); QbitP q(r); auto Q = q.make(r.pick(all)); auto M = m.make(r.pick(all)), L = n.make(r.pick(all)); auto mc = coupledmodes::make<coupledmodes::CM_XX_RWA, ModeCorrelations>(M, L, r.c(1)); auto s = composite::make(Act<0, 1>(jaynescummings::make(Q, M, r.c(1.5))), Act<1, 2>(mc)); quantum<3, tmptools::Vector<0>>(r, s, {avOf(Q), avOf(M), avOf(L), dynamic_cast<const structure::Averaged<2>*>(mc.get())}, q.cfg + m.cfg + n.cfg, m.p.nTh != 0 || n.p.nTh != 0); }
