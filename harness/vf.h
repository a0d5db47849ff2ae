// Monitoring framework: seeded scenarios, oracles' verdicts, event counters. One process = one harness = many scenarios.
#pragma once
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>
#include <boost/core/demangle.hpp>

namespace vf {

using cplx = std::complex<double>;

// ---- deterministic generator, independent of the library's engines
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  double u() { return (next() >> 11) * (1. / 9007199254740992.); }
  double u(double a, double b) { return a + (b - a) * u(); }
  long i(long a, long b) { return a + long(next() % uint64_t(b - a + 1)); } // inclusive
  bool b(double p = .5) { return u() < p; }
  double n() { double x = u(), y = u(); return std::sqrt(-2 * std::log(1 - x)) * std::cos(2 * M_PI * y); }
  cplx c(double scale = 1.) { return {u(-scale, scale), u(-scale, scale)}; }
  double logu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[size_t(next() % v.size())]; }
  template <typename T> void shuffle(std::vector<T>& v) { for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[size_t(next() % k)]); }
};

inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ULL) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }

struct Violation { std::string key, msg, scenario; uint64_t caseSeed; };

struct State {
  std::vector<Violation> violations;
  std::map<std::string, int> perKey;
  std::map<std::string, long> counters;
  std::set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::map<std::string, int> samplesPer;
  long evaluations = 0, checks = 0;
  std::string scenario;
  uint64_t caseSeed = 0;
};
inline State& st() { static State s; return s; }

inline void violation(const std::string& key, const std::string& msg) {
  auto& s = st();
  if (s.perKey[key]++ < 3) s.violations.push_back({key, msg, s.scenario, s.caseSeed});
}
inline std::string fmt(const char* f, ...) { char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

inline bool check(bool ok, const std::string& key, const std::string& msg = "") { ++st().checks; if (!ok) violation(key, msg); return ok; }
// |a-b| <= abs + rel*max(|a|,|b|); NaN fails
inline bool close(double a, double b, double tol, const std::string& key, const std::string& msg = "", double rel = -1) {
  if (rel < 0) rel = tol;
  bool ok = std::abs(a - b) <= tol + rel * std::max(std::abs(a), std::abs(b));
  ++st().checks;
  if (!ok) violation(key, msg + fmt(" got %.17g expected %.17g", a, b));
  return ok;
}
inline bool close(cplx a, cplx b, double tol, const std::string& key, const std::string& msg = "", double rel = -1) {
  if (rel < 0) rel = tol;
  bool ok = std::abs(a - b) <= tol + rel * std::max(std::abs(a), std::abs(b));
  ++st().checks;
  if (!ok) violation(key, msg + fmt(" got (%.17g,%.17g) expected (%.17g,%.17g)", a.real(), a.imag(), b.real(), b.imag()));
  return ok;
}
inline void count(const std::string& what, long n = 1) { st().counters[what] += n; }
// signature of a distinct non-trivial case
inline void sig(const std::string& s) { st().distinct.insert(hashStr(st().scenario + "|" + s)); }
inline void sample(const std::string& s) { auto& n = st().samplesPer[st().scenario]; if (n < 2) { ++n; st().samples.push_back(st().scenario + ": " + s); } }

// expects f to throw; returns whether it did. what() is stored in *out
template <typename F> bool throws(F&& f, std::string* out = nullptr) {
  try { f(); } catch (const std::exception& e) { if (out) *out = e.what(); return true; } catch (...) { if (out) *out = "(non-std exception)"; return true; }
  return false;
}

struct Scenario { std::string name; long cases; void (*fn)(Rng&); };
inline std::vector<Scenario>& registry() { static std::vector<Scenario> r; return r; }
struct Reg { Reg(const char* n, long c, void (*f)(Rng&)) { registry().push_back({n, c, f}); } };
#define SCENARIO(name, cases) static void name(::vf::Rng& r); static ::vf::Reg reg_##name{#name, cases, name}; static void name([[maybe_unused]] ::vf::Rng& r)

inline std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o;
}

// directory for files of this run (scratch created and removed by the runner)
inline std::string scratch() { const char* d = getenv("VF_SCRATCH"); return d ? d : "."; }

inline int dump(const std::string& out) {
  auto& S = st();
  std::ostringstream j;
  j << "{\"evaluations\":" << S.evaluations << ",\"checks\":" << S.checks << ",\"distinct\":" << S.distinct.size() << ",\"counters\":{";
  bool f = true; for (auto& c : S.counters) { j << (f ? "" : ",") << "\"" << esc(c.first) << "\":" << c.second; f = false; }
  j << "},\"hashes\":["; f = true; for (auto& h : S.distinct) { j << (f ? "" : ",") << "\"" << h << "\""; f = false; }
  j << "],\"samples\":["; f = true; for (auto& s : S.samples) { j << (f ? "" : ",") << "\"" << esc(s) << "\""; f = false; }
  j << "],\"violations\":["; f = true;
  for (auto& v : S.violations) { j << (f ? "" : ",") << "{\"key\":\"" << esc(v.key) << "\",\"msg\":\"" << esc(v.msg) << "\",\"scenario\":\"" << esc(v.scenario) << "\",\"case\":\"" << v.caseSeed << "\"}"; f = false; }
  j << "],\"complete\":true}\n";
  if (out.empty()) fputs(j.str().c_str(), stdout);
  else { FILE* o = fopen(out.c_str(), "w"); if (!o) return 3; fputs(j.str().c_str(), o); fclose(o); }
  return 0;
}
// a case which does not end is an observation, too: limit on the processor time of a single case
inline std::string& reportFile() { static std::string s; return s; }
inline void onHang(int) { violation("hang." + st().scenario, "the case did not end within its processor time"); _exit(dump(reportFile())); }
inline void watch(int seconds) { struct itimerval t{{0, 0}, {seconds, 0}}; setitimer(ITIMER_PROF, &t, nullptr); }

inline int run(int argc, char** argv) {
  uint64_t seed = 1, caseSeed = 0; double scale = 1; std::string only, out, progress; bool haveCase = false, list = false; long shard = 0, shards = 1;
  for (int k = 1; k < argc; ++k) {
    std::string a = argv[k]; auto val = [&] { return std::string(k + 1 < argc ? argv[++k] : ""); };
    if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--only") only = val();
    else if (a == "--case") { caseSeed = strtoull(val().c_str(), 0, 10); haveCase = true; }
    else if (a == "--out") out = val();
    else if (a == "--progress") progress = val();
    else if (a == "--shard") shard = atol(val().c_str());
    else if (a == "--shards") shards = atol(val().c_str());
    else if (a == "--list") list = true;
  }
  if (list) { for (auto& s : registry()) printf("%s %ld\n", s.name.c_str(), s.cases); return 0; }
  int pfd = progress.empty() ? -1 : ::open(progress.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
  auto& S = st(); reportFile() = out; signal(SIGPROF, onHang);
#ifdef VF_SANITIZED
  const int caseLimit = 150;
#else
  const int caseLimit = 60;
#endif
  for (auto& sc : registry()) {
    if (!only.empty() && sc.name != only) continue;
    long n = haveCase ? 1 : std::max(1L, long(std::lround(sc.cases * scale)));
    S.scenario = sc.name;
    long before = S.checks;
    long done = 0;
    for (long k = 0; k < n; ++k) {
      if (!haveCase && (k + long(hashStr(sc.name) % 997)) % shards != shard) continue;
      ++done;
      S.caseSeed = haveCase ? caseSeed : hashStr(sc.name, seed * 0x9e3779b97f4a7c15ULL + uint64_t(k) * 0xd1342543de82ef95ULL + 88172645463325252ULL);
      if (pfd >= 0) { char b[160]; int l = snprintf(b, sizeof b, "%-60s %20llu\n", sc.name.c_str(), (unsigned long long)S.caseSeed); if (pwrite(pfd, b, size_t(l), 0) < 0) {} }
      Rng r(S.caseSeed); watch(caseLimit);
      try { sc.fn(r); }
      catch (const std::exception& e) { violation(sc.name + ".unexpected-exception", std::string(boost::core::demangle(typeid(e).name())) + ": " + e.what()); }
      catch (...) { violation(sc.name + ".unexpected-exception", "exception of unknown type"); }
      watch(0); ++S.evaluations;
    }
    S.counters["checks." + sc.name] += S.checks - before;
    S.counters["cases." + sc.name] += done;
  }
  return dump(out);
}

} // vf
