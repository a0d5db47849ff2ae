// C19: random engines: saved and restored at any point, streams, filling of arrays.
#include "vf.h"
#include "Random.h"
#include "Archive.h"
#include "BlitzArray.h"
#include "ODE.h"
#include "StochasticTrajectory.h"
using namespace vf; namespace cu = cppqedutils; namespace ru = randomutils;
namespace {
using Xo = XoshiroCpp::Xoshiro256PlusPlus;
template <typename E> struct Name; template <> struct Name<std::mt19937_64> { static constexpr const char* v = "mt19937_64"; }; template <> struct Name<pcg64> { static constexpr const char* v = "pcg64"; }; template <> struct Name<Xo> { static constexpr const char* v = "xoshiro"; }; template <> struct Name<ru::GSL_Engine> { static constexpr const char* v = "gsl"; };
template <typename E> std::string saved(E& e) { std::ostringstream os(std::ios::binary); { cu::oarchive ar(os); ar & e; } return os.str(); }
template <typename E> void restore(E& e, const std::string& s) { std::istringstream is(s, std::ios::binary); cu::iarchive ar(is); ar & e; }
template <typename E> std::vector<unsigned long> draws(E& e, long n) { std::vector<unsigned long> v; for (long i = 0; i < n; ++i) v.push_back(e()); return v; }
long howMany(Rng& r) { return r.b(.2) ? r.i(0, 3) : long(r.logu(1, 3000)); }

template <typename E> void roundTrip(Rng& r) {
  const char* n = Name<E>::v; unsigned long s1 = r.b(.1) ? r.i(0, 2) : r.next() >> r.i(0, 60), s2 = r.next() >> 20; E a{s1}, ref{s1}; long k = howMany(r); draws(a, k); draws(ref, k);
  std::string rec = saved(a); check(saved(a) == rec, std::string("save.not-repeatable.") + n); auto expected = draws(ref, 700);
  E b{s2}; draws(b, howMany(r)); restore(b, rec); long m = howMany(r) % 700 + 1;
  auto got = draws(b, 700), cont = draws(a, 700);
  check(got == expected, std::string("restore.other-sequence.") + n, fmt("after %ld draws of seed %lu", k, s1)); check(cont == expected, std::string("save.disturbs.") + n, fmt("after %ld draws of seed %lu", k, s1));
  // chain: save what was restored, in the middle, into an engine which has been restored before
  E c{s2}, d{s1}; restore(c, rec); draws(c, m); restore(d, saved(b)); restore(d, saved(c)); auto tail = draws(d, 700 - m); check(std::equal(tail.begin(), tail.end(), expected.begin() + m), std::string("restore.chain.") + n, fmt("after %ld+%ld draws", k, m));
  // two engines in one archive
  { E x{s1}, y{s2}; long kx = howMany(r), ky = howMany(r); draws(x, kx); draws(y, ky); std::ostringstream os(std::ios::binary); { cu::oarchive ar(os); double q = 1.5; ar & x & q & y; } E u{s2 + 1}, w{s1 + 7}; double q = 0; std::istringstream is(os.str(), std::ios::binary); { cu::iarchive ar(is); ar & u & q & w; }
    check(q == 1.5 && draws(u, 50) == draws(x, 50) && draws(w, 50) == draws(y, 50), std::string("restore.several-in-one-archive.") + n); }
  // the same distribution values too
  { E x{s2}, y{s1}; draws(x, howMany(r)); restore(y, saved(x)); std::uniform_real_distribution<double> dx, dy; std::normal_distribution<double> nx(0, 2), ny(0, 2); bool ok = true; for (int i = 0; i < 200; ++i) { double u = dx(x), v = dy(y); ok = ok && u == v && u >= 0 && u < 1; ok = ok && nx(x) == ny(y); } check(ok, std::string("restore.distributions.") + n); }
  count(std::string("roundtrips.") + n); sig(fmt("%s %d", n, int(std::log2(k + 1))));
}
SCENARIO(roundTrips, 120) { roundTrip<std::mt19937_64>(r); roundTrip<pcg64>(r); roundTrip<Xo>(r); roundTrip<ru::GSL_Engine>(r); }

template <typename E> void damaged(Rng& r) {
  const char* n = Name<E>::v; E a{r.next()}; draws(a, howMany(r)); std::string rec = saved(a);
  for (int k = 0; k < 6; ++k) { // the header of the archive is 40-odd bytes: anything cut before the last byte is incomplete
    std::string cut = rec.substr(0, size_t(r.b(.3) ? rec.size() - 1 : r.i(0, long(rec.size()) - 1))); E b{r.next()}; std::string msg; bool t = throws([&] { restore(b, cut); }, &msg); check(t, std::string("damaged.cut-record-taken.") + n, fmt("%zu of %zu bytes", cut.size(), rec.size())); count("cut-records-refused"); }
  if constexpr (!std::is_same_v<E, Xo> && !std::is_same_v<E, ru::GSL_Engine>) { // textual states
    std::vector<size_t> starts; for (size_t i = 1; i < rec.size(); ++i) { size_t e = i; while (e < rec.size() && isdigit((unsigned char)rec[e])) ++e; if (e - i >= 10) starts.push_back(i); if (e > i) i = e; }
    if (check(!starts.empty(), std::string("setup.no-text.") + n)) for (int k = 0; k < 4; ++k) { std::string bad = rec; size_t p = r.pick(starts); bad[p] = r.pick(std::vector<char>{'x', '-', '.', 'Q'}); if (bad[p] == '-') bad[p + 1] = 'z'; E b{r.next()}; std::string msg; bool t = throws([&] { restore(b, bad); }, &msg); check(t, std::string("damaged.garbled-record-taken.") + n, fmt("byte %zu of %zu", p, rec.size())); count("garbled-records-refused"); }
  }
  sig(n);
}
SCENARIO(damagedRecords, 40) { damaged<std::mt19937_64>(r); damaged<pcg64>(r); damaged<Xo>(r); damaged<ru::GSL_Engine>(r); }

SCENARIO(gslEngine, 60) {
  unsigned long s = r.next() >> r.i(0, 63); ru::GSL_Engine e{s}; std::unique_ptr<gsl_rng, void (*)(gsl_rng*)> g(gsl_rng_alloc(gsl_rng_taus2), gsl_rng_free); gsl_rng_set(g.get(), s); long k = howMany(r); bool same = true, bounds = true;
  for (long i = 0; i < k; ++i) { auto x = e(); same = same && x == gsl_rng_get(g.get()); bounds = bounds && x >= e.min() && x <= e.max(); } check(same, "gsl.other-sequence", fmt("seed %lu", s)); check(bounds && e.min() == gsl_rng_min(g.get()) && e.max() == gsl_rng_max(g.get()), "gsl.bounds", fmt("seed %lu", s));
  unsigned long t = r.next() >> r.i(0, 63); e.seed(t); ru::GSL_Engine f{t}; check(draws(e, 100) == draws(f, 100), "gsl.reseeding", fmt("seed %lu then %lu", s, t));
  std::ostringstream os; os << e; std::istringstream is(os.str()); ru::GSL_Engine h{s}; is >> h; check(bool(is) && draws(h, 100) == draws(e, 100), "gsl.stream-operators");
  std::istringstream shortOne(os.str().substr(0, os.str().size() / 2)); shortOne >> h; check(!shortOne, "gsl.short-state-not-flagged"); sig(fmt("%d", int(std::log2(k + 1))));
}

template <typename E, typename D, int R, typename T, typename... P> void fillOne(Rng& r, const char* what, P... p) {
  blitz::TinyVector<int, R> sh; for (int i = 0; i < R; ++i) sh[i] = int(r.i(1, 5)); blitz::Array<T, R> a(sh); a = T(-77.); unsigned long s = r.next() >> 11; E e{s}, ref{s}; long k = howMany(r) % 50; draws(e, k); draws(ref, k); std::string where = fmt("%s %s rank %d", Name<E>::v, what, R);
  E& back = ru::fill<D>(a, e, p...); check(&back == &e, "fill.returned-engine", where); D d(p...); bool ok = true; for (auto i = a.begin(); i != a.end(); ++i) { T x = d(ref); ok = ok && *i == x; } check(ok, "fill.other-numbers", where); check(draws(e, 10) == draws(ref, 10), "fill.engine-state-after", where);
  blitz::Array<T, R> b(sh), c(sh); b = T(-77.); ru::fill<D, E>(b, s, p...); E f{s}; ru::fill<D>(c, f, p...); check(all(b == c), "fill.from-seed", where); count("filled-elements", long(a.size())); sig(where);
}
template <typename E> void fills(Rng& r) {
  fillOne<E, std::uniform_real_distribution<double>, 1, double>(r, "uniform"); fillOne<E, std::uniform_real_distribution<double>, 3, double>(r, "uniform(-2,5)", -2., 5.); fillOne<E, std::normal_distribution<double>, 2, double>(r, "normal", 1., .5); if constexpr (!std::is_same_v<E, ru::GSL_Engine>) fillOne<E, std::uniform_int_distribution<int>, 2, int>(r, "int", -3, 9);
}
SCENARIO(filling, 60) { fills<std::mt19937_64>(r); fills<pcg64>(r); fills<Xo>(r); fills<ru::GSL_Engine>(r); }

SCENARIO(streams, 30) {
  unsigned long s = r.b(.3) ? 1001 : r.next() >> r.i(1, 60), p0 = r.b(.3) ? 1 : r.next() >> r.i(1, 62); ru::EngineWithParameters<pcg64> a{s, p0}, b{s, p0}; std::string where = fmt("seed %lu stream %lu", s, p0);
  check(a.seed == s && a.prngStream == p0, "parameters.kept", where); check(draws(a.engine, 50) == draws(b.engine, 50), "parameters.not-deterministic", where); pcg64 direct{s, p0}; draws(direct, 50); check(draws(a.engine, 5) == draws(direct, 5), "parameters.other-engine", where);
  std::ostringstream os; a.stream(os); check(os.str().find("seed=" + std::to_string(s)) != std::string::npos && os.str().find("streamOrdo=" + std::to_string(p0)) != std::string::npos && os.str().find("PCG64") != std::string::npos, "parameters.description", os.str());
  parameters::Table t; cu::trajectory::ParsStochastic<pcg64> p(t); check(p.seed == 1001 && p.prngStream == 1, "parameters.defaults"); p.seed = s; p.prngStream = p0;
  long n = r.i(2, 60); std::set<std::vector<unsigned long>> seen, seen2; std::vector<std::vector<double>> us;
  for (long k = 0; k < n; ++k) {
    check(p.prngStream == p0 + (unsigned long)k && p.seed == s, "streams.counter", where + fmt(" got %lu after %ld", p.prngStream, k));
    auto e = ru::streamOfOrdo(p), e2 = ru::streamOfOrdo(p); auto d = draws(e, 400); check(draws(e2, 400) == d, "streams.not-deterministic", where); std::vector<double> u; for (auto x : d) u.push_back(double(x) / 18446744073709551616.); us.push_back(u);
    seen.insert(std::vector<unsigned long>(d.begin(), d.begin() + 4)); ru::EngineWithParameters<pcg64> w{p.seed, p.prngStream}; seen2.insert(draws(w.engine, 4)); ru::incrementForNextStream(p);
  }
  check(long(seen.size()) == n && long(seen2.size()) == n, "streams.coincide", where + fmt(" %zu, %zu of %ld", seen.size(), seen2.size(), n));
  for (long i = 0; i < n; ++i) for (long j = 0; j < i; ++j) { double c = 0; for (int q = 0; q < 400; ++q) c += (us[i][q] - .5) * (us[j][q] - .5); c *= 12 / std::sqrt(400.); check(std::abs(c) < 8, "streams.correlated", where + fmt(" %ld %ld: %g sigmas", i, j, c)); }
  count("stream-pairs", n * (n - 1) / 2); sig(fmt("%d", int(std::log2(n))));
}

template <typename E> void unif(Rng& r) { E e{r.next() >> 8}; std::uniform_real_distribution<double> d; const int n = 4000; double m = 0, v = 0, c = 0, last = d(e); for (int i = 0; i < n; ++i) { double x = d(e); m += x - .5; v += (x - .5) * (x - .5) - 1. / 12; c += (x - .5) * (last - .5); last = x; check(x >= 0 && x < 1, "uniform.range"); }
  check(std::abs(m) < 7 * std::sqrt(n / 12.) && std::abs(v) < 7 * std::sqrt(n / 180.) && std::abs(c) < 7 * std::sqrt(double(n)) / 12, std::string("uniform.moments.") + Name<E>::v, fmt("%g %g %g", m, v, c)); }
SCENARIO(uniformity, 20) { unif<std::mt19937_64>(r); unif<pcg64>(r); unif<Xo>(r); unif<ru::GSL_Engine>(r); sig("u"); }

SCENARIO(identifiers, 1) { std::set<std::string> ids{ru::EngineID_v<ru::GSL_Engine>, ru::EngineID_v<std::mt19937_64>, ru::EngineID_v<pcg64>, ru::EngineID_v<Xo>}; check(ids.size() == 4, "identifiers.coincide"); sig("id"); }
}
