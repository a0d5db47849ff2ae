// C01: the generic run loop, driven by a recording stand-in for the evolved object whose adaptive steps are arbitrary.
#include "table.h"
#include "BlitzArray.h"
#include "Trajectory.h"
#include "StochasticTrajectory.h"

using namespace vf;
namespace cu = cppqedutils; namespace ct = cppqedutils::trajectory;

namespace {

struct StepRec { double t, asked, did; };
struct LineRec { double t, did; DArray<1> v; };

struct Recorder { std::vector<StepRec> steps; std::vector<LineRec> lines; long nKey = 0, nPars = 0, nEnd = 0; };

// observable: v(t), known in closed form, so that lines can be judged independently
using Signal = std::function<std::vector<double>(double)>;

class MockBase {
public:
  using StreamedArray = DArray<1>;
  MockBase(double t0, uint64_t seed, double scale, Signal s, Recorder* rec) : t_(t0), rng_(seed), scale_(scale), sig_(s), rec_(rec) {}
  double getTime() const { return t_; }
  double getDtDid() const { return did_; }
  std::ostream& streamParameters(std::ostream& os) const { ++rec_->nPars; return os << "\nMock trajectory\nsecond line of parameters\n"; }
  std::ostream& streamKey(std::ostream& os) const { ++rec_->nKey; return os << "Mock\n 3. a\n 4. b\n"; }
  std::tuple<std::ostream&, DArray<1>> stream(std::ostream& os, int precision) const {
    auto v = sig_(t_); DArray<1> a(int(v.size())); for (size_t i = 0; i < v.size(); ++i) a(int(i)) = v[i];
    for (double x : v) os << FormDouble(precision)(x);
    rec_->lines.push_back({t_, did_, a.copy()});
    return {os, a};
  }
  cu::iarchive& readFromArrayOnlyArchive(cu::iarchive& iar) { return iar & t_; }
  template <typename Ar> Ar& stateIO(Ar& ar) { return ar & t_ & did_ & rng_.s; }
  std::ostream& logOnEnd(std::ostream& os) const { ++rec_->nEnd; return os << "log on end\n"; }

protected:
  void doStep(double deltaT) {
    double d = scale_ * rng_.logu(.05, 1.); double before = t_;
    if (std::abs(d) >= std::abs(deltaT)) { t_ += deltaT; } else t_ += deltaT > 0 ? d : -d;
    did_ = t_ - before; rec_->steps.push_back({before, deltaT, did_});
    if (rec_->steps.size() > 2000000) throw std::runtime_error("run does not terminate");
  }
  double t_, did_ = 0; Rng rng_; double scale_; Signal sig_; Recorder* rec_;
};

struct Mock : MockBase { using MockBase::MockBase; void step(double deltaT, std::ostream&) { doStep(deltaT); } };
struct MockAdvanceOnly : MockBase {
  using MockBase::MockBase;
  void advance(double deltaT, std::ostream&) { double end = t_ + deltaT; while (double d = end - t_) doStep(d); }
};

std::vector<double> readStateTimes(const std::string& f, double scale, bool& ok) {
  std::vector<double> ts; ok = true;
  try {
    auto is = ct::openStateFileReading(f); Recorder rec; Mock m(0, 1, scale, [](double) { return std::vector<double>{0.}; }, &rec);
    while ((is->peek(), !is->eof())) { ct::readViaSStream(m, is); ts.push_back(m.getTime()); }
  } catch (const std::exception& e) { ok = false; }
  return ts;
}

} // namespace

template <> struct ct::MakeSerializationMetadata<Mock> { static auto _() { return SerializationMetadata{"mock", "Mock", 1}; } };
template <> struct ct::MakeSerializationMetadata<MockAdvanceOnly> { static auto _() { return SerializationMetadata{"mock", "Mock", 1}; } };

namespace {

enum Mode { DC, DT, NDT };

struct Setup { Mode mode; double T, Dt; long NDt; int dc; double t0; unsigned sdf; bool firstState, info, toFile, doStreaming, advOnly; int precision; double scale; };

std::string describe(const Setup& s) { return fmt("mode=%s T=%.6g Dt=%.6g NDt=%ld dc=%d t0=%.4g sdf=%u first=%d info=%d file=%d stream=%d adv=%d prec=%d", s.mode == DC ? "dc" : s.mode == DT ? "Dt" : "NDt", s.T, s.Dt, s.NDt, s.dc, s.t0, s.sdf, s.firstState, s.info, s.toFile, s.doStreaming, s.advOnly, s.precision); }

template <typename M> void runCase(Rng& r, const Setup& s)
{
  std::string d = describe(s), key = std::string("run.") + (s.mode == DC ? "dc" : s.mode == DT ? "Dt" : "NDt");
  Recorder rec; Signal sgn = [](double t) { return std::vector<double>{std::sin(t) + .01 * t, -1e3 * std::exp(-t)}; };
  M m(s.t0, r.next(), s.scale, sgn, &rec);
  parameters::Table pt; ct::Pars<> p(pt);
  p.T = s.T; p.Dt = s.Dt; p.NDt = s.NDt; p.dc = s.dc; p.sdf = s.sdf; p.firstStateStream = s.firstState; p.streamInfo = s.info; p.precision = s.precision;
  std::string f = scratchFile("c01_"); p.ofn = s.toFile ? f : "";
  std::string text, couted;
  ct::TemporalStreamedArray<DArray<1>> res;
  { CaptureCout cap; res = cu::run(m, p, s.doStreaming, true); couted = cap.s.str(); }
  text = s.toFile ? slurp(f) : couted;
  if (s.toFile) check(couted.empty(), key + ".cout-untouched", d);
  if (!s.toFile && !s.doStreaming) check(couted.empty(), key + ".no-streaming", d);

  double end = s.mode == NDT ? s.t0 + s.NDt * s.Dt : s.T;
  // ---- the evolved object
  double tol = 1e-9 * (1 + std::abs(end));
  close(m.getTime(), end, 1e-12, key + ".end-time", d);
  for (auto& st : rec.steps) { if (!check(st.t + st.asked <= end + tol, key + ".overshoot-asked", d + fmt(" step at %.17g asked %.17g", st.t, st.asked))) break; count("steps-observed"); }
  // ---- lines: the instants
  std::vector<double> exp; bool mayRepeatEnd = false;
  if (s.mode == DC) {
    exp.push_back(s.t0); for (size_t k = 0; k < rec.steps.size(); ++k) if ((k + 1) % size_t(s.dc) == 0) exp.push_back(rec.steps[k].t + rec.steps[k].did);
    if (rec.steps.size() % size_t(s.dc)) exp.push_back(end);
  } else if (s.mode == NDT) { for (long k = 0; k <= s.NDt; ++k) exp.push_back(s.t0 + k * s.Dt); }
  else {
    double q = (s.T - s.t0) / s.Dt; long n = std::lround(q); bool integer = std::abs(q - n) < 1e-6; mayRepeatEnd = integer;
    long full = integer ? n : long(std::floor(q));
    for (long k = 0; k <= full; ++k) exp.push_back(s.t0 + k * s.Dt);
    if (!integer) exp.push_back(s.T);
  }
  auto cmpTimes = [&](const std::vector<double>& got, const std::string& what, double tl) {
    std::vector<double> g(got);
    if (mayRepeatEnd && g.size() == exp.size() + 1) { if (std::abs(g[g.size() - 1] - g[g.size() - 2]) <= tl) g.pop_back(); }
    if (!check(g.size() == exp.size(), key + "." + what + ".count", d + fmt(": %zu lines, expected %zu", g.size(), exp.size()))) return;
    for (size_t k = 0; k < g.size(); ++k) if (!check(std::abs(g[k] - exp[k]) <= tl, key + "." + what + ".times", d + fmt(": line %zu at %.12g, expected %.12g", k, g[k], exp[k]))) return;
    count("lines-observed", long(g.size()));
  };
  if (s.toFile || s.doStreaming) {
    std::vector<double> lt; for (auto& l : rec.lines) lt.push_back(l.t);
    cmpTimes(lt, "sampled", tol);
    Table t = parseTable(text);
    check(t.clean, key + ".table-parses", d + " line: " + t.dirty);
    if (check(t.rows.size() == rec.lines.size(), key + ".printed-lines", d + fmt(": %zu printed, %zu sampled", t.rows.size(), rec.lines.size()))) {
      int pr = std::max(6, s.precision); double relT = .51 * std::pow(10., 1 - pr), relV = .51 * std::pow(10., 1 - s.precision);
      for (size_t k = 0; k < t.rows.size(); ++k) {
        auto& row = t.rows[k]; auto& l = rec.lines[k];
        if (!check(row.size() == 4, key + ".columns", d + " " + t.raw[k])) break;
        close(row[0], l.t, 1e-14, key + ".printed-time", d + " " + t.raw[k], relT);
        close(row[1], l.did, 1e-14, key + ".printed-dtDid", d + " " + t.raw[k], relT);
        close(row[2], l.v(0), 1e-300, key + ".printed-value", d, relV); close(row[3], l.v(1), 1e-300, key + ".printed-value", d, relV);
      }
    }
    check(t.comments.empty() == !s.info || !t.comments.empty(), key + ".header", d);
    if (s.info) { check(rec.nPars == 1 && rec.nKey == 1, key + ".header-once", d); }
    else check(rec.nPars == 0 && rec.nKey == 0, key + ".no-header", d);
    check(rec.nEnd == 1, key + ".log-once", d);
  }
  // returned array = printed lines (the closing line of a dc run may be absent from it)
  { bool ok = res.size() == rec.lines.size() || (res.size() + 1 == rec.lines.size()); size_t k = 0;
    for (auto& x : res) { if (k >= rec.lines.size()) { ok = false; break; } ok &= std::get<0>(x) == rec.lines[k].t && std::get<1>(x) == rec.lines[k].did && all(std::get<2>(x) == rec.lines[k].v); ++k; }
    check(ok, key + ".returned", d + fmt(" %zu returned, %zu streamed", res.size(), rec.lines.size())); }
  // ---- states
  if (s.toFile) {
    bool ok; auto ts = readStateTimes(f + ".state", s.scale, ok); check(ok, key + ".state-readable", d);
    std::vector<double> es; bool lastSaved = false; std::vector<double> lt; for (auto& l : rec.lines) lt.push_back(l.t);
    // the lines that count are those of the schedule; a closing off-schedule dc line does not
    size_t nsched = lt.size(); if (s.mode == DC && rec.steps.size() % size_t(s.dc)) --nsched;
    for (size_t k = 0; k < nsched; ++k) { bool sv = s.sdf && !(k % s.sdf) && (k || s.firstState); if (sv) es.push_back(lt[k]); lastSaved = sv && k + 1 == lt.size(); }
    if (!lastSaved) es.push_back(lt.empty() ? end : lt.back());
    bool same = ts.size() == es.size(); if (same) for (size_t k = 0; k < ts.size(); ++k) same &= ts[k] == es[k];
    check(same, key + ".states-saved", d + fmt(": %zu states in file, expected %zu", ts.size(), es.size()));
    count("states-observed", long(ts.size()));
    rmf(f); rmf(f + ".state");
  }
  sig(d); sample(d + fmt(" -> %zu lines, %zu steps", rec.lines.size(), rec.steps.size()));
}

Setup randomSetup(Rng& r)
{
  Setup s; s.mode = Mode(r.i(0, 2)); s.t0 = r.b(.7) ? 0 : r.u(-1, 5); s.scale = r.logu(.003, 3);
  double span = r.logu(.05, 10);
  s.Dt = r.b(.5) ? r.pick<double>({.1, .25, .5, .01, .3}) : r.logu(.01, 2) ; if (span / s.Dt > 300) s.Dt = span / 300;
  s.NDt = 0; s.dc = 0; s.T = s.t0 + span;
  if (s.mode == NDT) { s.NDt = r.i(1, 40); s.T = r.u(0, 100); }
  else if (s.mode == DC) { s.dc = int(r.i(1, 12)); if (r.b(.3)) s.Dt = 0; if (r.b(.3)) s.NDt = r.i(1, 5); }
  else if (r.b(.4)) { long n = r.i(1, 50); s.T = s.t0 + n * s.Dt; }
  else { double q = (s.T - s.t0) / s.Dt, fr = q - std::floor(q); if (fr < .02 || fr > .98) s.T += .3 * s.Dt; }
  if (s.mode != NDT && s.T == 0) s.T = .5;
  if (s.mode == NDT && std::abs(s.t0 + s.NDt * s.Dt) < 1e-9) s.t0 += .37;
  s.sdf = r.b(.4) ? 0 : unsigned(r.i(1, 7)); s.firstState = r.b(.7); s.info = r.b(.6); s.toFile = r.b(.7); s.doStreaming = s.toFile || r.b(.7); s.advOnly = false;
  s.precision = int(r.i(2, 12));
  return s;
}

} // namespace

SCENARIO(run_modes, 2500) { runCase<Mock>(r, randomSetup(r)); }

SCENARIO(run_modes_advance_only, 500)
{ // objects that can only be advanced (like ensembles) always run in Dt mode
  Setup s = randomSetup(r); s.advOnly = true; if (s.mode == DC) { s.mode = DT; s.NDt = 0; if (!s.Dt) s.Dt = .2; double q = (s.T - s.t0) / s.Dt, fr = q - std::floor(q); if (fr < .02 || fr > .98) s.T += .3 * s.Dt; }
  if (s.mode == DT && (s.T - s.t0) / s.Dt > 400) s.Dt = (s.T - s.t0) / 100.37;
  if (r.b(.5)) { Setup q = s; q.dc = int(r.i(1, 10)); runCase<MockAdvanceOnly>(r, q); } else runCase<MockAdvanceOnly>(r, s);
}

SCENARIO(run_degenerate, 200)
{
  Recorder rec; Signal sgn = [](double t) { return std::vector<double>{t}; };
  double t0 = r.u(.5, 3);
  parameters::Table pt; ct::Pars<> p(pt); std::string f = scratchFile("c01d_");
  int kind = int(r.i(0, 3));
  if (kind == 0) { // already past the requested time: nothing happens
    Mock m(t0, r.next(), .1, sgn, &rec); p.T = t0 - r.u(0, .4); p.dc = r.b() ? 0 : 3; p.ofn = r.b() ? f : "";
    CaptureCout cap; auto res = cu::run(m, p, true, true);
    check(res.empty() && rec.steps.empty() && rec.lines.empty() && m.getTime() == t0 && cap.s.str().empty() && !exists(f) && !exists(f + ".state"), "run.past-end", fmt("t0=%g T=%g", t0, double(p.T)));
  }
  else if (kind == 1) { // zero length: a single line at the actual time, no evolution
    Mock m(0., r.next(), .1, sgn, &rec); p.T = 0; p.dc = r.b() ? 0 : 3; p.ofn = r.b() ? f : "";
    CaptureCout cap; cu::run(m, p); check(rec.steps.empty() && rec.lines.size() == 1 && m.getTime() == 0, "run.zero-length", fmt("%zu lines", rec.lines.size()));
    check(!exists(f + ".state") || slurp(f + ".state").empty(), "run.zero-length.state", "");
  }
  else if (kind == 2) { // neither dc nor Dt
    Mock m(0., r.next(), .1, sgn, &rec); p.T = 1; p.dc = 0; p.Dt = 0; p.NDt = r.b() ? 0 : 4; CaptureCout cap;
    check(throws([&] { cu::run(m, p); }) && rec.steps.empty(), "run.no-frequency", "");
    MockAdvanceOnly m2(0., r.next(), .1, sgn, &rec); p.dc = 3; check(throws([&] { cu::run(m2, p); }) && rec.steps.empty(), "run.no-frequency.advance", "");
  }
  else { // unwritable output
    Mock m(0., r.next(), .1, sgn, &rec); p.T = 1; p.ofn = scratch() + "/no/such/dir/x"; CaptureCout cap;
    check(throws([&] { cu::run(m, p); }) && rec.steps.empty() && m.getTime() == 0, "run.unwritable", "");
  }
  rmf(f); rmf(f + ".state");
  sig(fmt("%d %g", kind, t0)); sample(fmt("kind %d", kind));
}

SCENARIO(advance_exact, 1500)
{
  Recorder rec; Signal sgn = [](double t) { return std::vector<double>{t}; };
  double t0 = r.b(.3) ? 0 : r.u(-100, 100); Mock m(t0, r.next(), r.logu(1e-2, 10), sgn, &rec); std::ostringstream log;
  int n = int(r.i(1, 8));
  for (int k = 0; k < n; ++k) {
    double before = m.getTime(), d = r.logu(1e-3, 10);
    rec.steps.clear();
    if (r.b()) { cu::advance(m, d, log); check(m.getTime() == before + d, "advance.exact", fmt("from %.17g by %.17g: %.17g", before, d, m.getTime())); }
    else { double to = before + d; cu::advanceTo(m, to, log); close(m.getTime(), to, 1e-13, "advanceTo.exact", ""); }
    for (auto& s : rec.steps) check(s.t + s.asked <= before + d + 1e-9 * (1 + std::abs(before)), "advance.asked", "");
    count("steps-observed", long(rec.steps.size()));
  }
  MockAdvanceOnly a(t0, r.next(), .3, sgn, &rec); cu::advance(a, 1.25, log); check(a.getTime() == t0 + 1.25, "advance.exact.advance-only", "");
  cu::advanceTo(a, t0 + 2, log); close(a.getTime(), t0 + 2, 1e-13, "advanceTo.exact.advance-only", "");
  sig(fmt("%.17g %d", t0, n)); sample(fmt("t0=%g, %d advances", t0, n));
}

SCENARIO(autostop, 1200)
{ // the run must stop at the first line close to the average of the preceding `rep` lines (the start line never counts)
  unsigned rep = unsigned(r.i(1, 8)); double eps = r.logu(1e-6, 1e-2), epsAbs = r.pick<double>({1e-12, 1e-3, 1e-8});
  int kind = int(r.i(0, 3)); double tau = r.u(.3, 3), c0 = r.u(-2, 2), c1 = r.u(-3, 3); if (std::abs(c0) < .1) c0 = .5;
  uint64_t ns = r.next();
  Signal sgn = [=](double t) -> std::vector<double> {
    if (kind == 0) return {c0 + c1 * std::exp(-t / tau), 3 * c0};
    if (kind == 1) return {c0 * std::cos(t), c1};                                                // never settles
    if (kind == 2) return {1e-9 * c1 * std::cos(3 * t), c0 + c1 * std::exp(-t / tau)};           // noise below the absolute threshold
    Rng q(ns + uint64_t(std::llround(t * 1000))); return {t < 2 * tau ? q.u(1, 2) : 1.5, -c0};  // settles abruptly
  };
  Recorder rec; Mock m(0., r.next(), .3, sgn, &rec);
  parameters::Table pt; ct::Pars<> p(pt); p.dc = r.b(.3) ? 2 : 0; p.Dt = r.pick<double>({.1, .2, .5}); p.T = 20.03; p.autoStopEpsilon = eps; p.autoStopEpsilonAbs = epsAbs; p.autoStopRepetition = r.b(.1) ? 0 : rep; rep = p.autoStopRepetition;
  { CaptureCout cap; cu::run(m, p, true, false); }
  // model
  auto clip = [&](std::vector<double> v) { for (auto& x : v) if (std::abs(x) < epsAbs) x = epsAbs; return v; };
  size_t stopAt = rec.lines.size(); bool border = false; std::vector<std::vector<double>> seen;
  bool stopped = false;
  for (size_t k = 0; k < rec.lines.size(); ++k) {
    auto v = clip(sgn(rec.lines[k].t));
    if (rep && k >= rep + 1) {
      double worst = 0; for (size_t i = 0; i < v.size(); ++i) { double a = 0; for (size_t j = k - rep; j < k; ++j) a += clip(sgn(rec.lines[j].t))[i]; a /= rep; worst = std::max(worst, std::abs(a - v[i]) / (std::abs(a) + std::abs(v[i]))); }
      if (std::abs(worst - eps) < 1e-7 * eps + 1e-13) border = true;
      if (worst < eps) { stopAt = k; stopped = true; break; }
    }
  }
  std::string d = fmt("rep=%u eps=%.3g kind=%d dc=%d Dt=%g", rep, eps, kind, int(p.dc), double(p.Dt));
  if (!border) {
    if (stopped) { check(stopAt + 1 == rec.lines.size(), "autostop.late", d + fmt(": should have stopped at line %zu, went on to %zu", stopAt, rec.lines.size() - 1)); count("autostops-observed"); }
    else check(std::abs(m.getTime() - 20.03) < 1e-9, "autostop.early", d + fmt(": stopped at %.12g without the criterion being met", m.getTime()));
  }
  check(rec.nEnd == 1, "autostop.log", d);
  sig(d + fmt("%g %g", c0, c1)); sample(d + (stopped ? fmt(" stopped at line %zu", stopAt) : " ran to the end"));
}
