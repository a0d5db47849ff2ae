// C02: runs that are stopped (or crash) and resumed against runs never stopped, compared byte by byte.
#include "trajkinds.h"
using namespace tk;
namespace {
template <typename K> void resume(Rng& r) {
  K k(r); Setting c = randomSetting(r, K::dc); Dir D; std::string where = k.what + c.str(), A = D("a");
  auto s = k(0); go(s, c, A); std::string text = slurp(A), rawA = raw(A + ".state"); std::vector<std::string> rec, data, com; lines(text, data, com);
  if (!check(records(rawA, rec) && !rec.empty(), "records.readable", where)) return;
  check(rec.back() == record(s), "record.final-is-the-object", where); if (!check(!data.empty(), "output.empty", where)) return;
  // every record restored into an object with another history is saved again as the same bytes
  std::vector<double> times; for (auto& x : rec) { auto f = k(1); if (r.b()) { std::ostringstream log; cu::advance(f, r.u(0, .2), log); } load(f, x); times.push_back(f.getTime()); check(record(f) == x, "record.restore-save", where + fmt(" t=%g", f.getTime())); } count("records", long(rec.size()));
  for (size_t q = 1; q < times.size(); ++q) check(times[q] > times[q - 1], "records.in-order", where);
  // a crash after any of the saved states
  std::vector<size_t> which; for (size_t q = 0; q + 1 < rec.size(); ++q) which.push_back(q); r.shuffle(which); if (which.size() > 3) which.resize(3);
  for (size_t q : which) {
    size_t line = (q + (c.first ? 0 : 1)) * c.sdf; if (!check(line < data.size(), "records.more-than-lines", where)) return; check(std::abs(atof(data[line].c_str()) - times[q]) <= (c.precision && c.precision < 4 ? 2e-2 : 1e-3) * (1 + times[q]), "record.belongs-to-line", where + fmt(" %s %g", data[line].c_str(), times[q]));
    std::string B = D("b"); { std::string pre; size_t n = 0; std::istringstream is(text); std::string l; while (n <= line && std::getline(is, l)) { pre += l + "\n"; n += !(l.empty() || l[0] == '#'); } spit(B, pre); bool packed = r.b(); fs::remove(B + ".state"); std::string st = framed(rec, q + 1); if (packed) { *cu::trajectory::openStateFileWriting(B + ".state") << st; } else spit(B + ".state", st); }
    auto f = k(1); go(f, c, B, "", c.mode == 2 ? c.N - long(line) : -1);
    std::vector<std::string> d2, c2, rec2; lines(slurp(B), d2, c2); if (!check(d2.size() == data.size(), "resumed.number-of-lines", where + fmt(" resumed at line %zu: %zu instead of %zu", line, d2.size(), data.size()))) continue;
    for (size_t z = 0; z < data.size(); ++z) if (!check(d2[z] == data[z], "resumed.line", where + fmt(" resumed at %zu, line %zu: '%s' instead of '%s'", line, z, d2[z].c_str(), data[z].c_str()))) break;
    std::string rawB = raw(B + ".state"); check(records(rawB, rec2) && rec2.size() == rec.size(), "resumed.records", where + fmt(" %zu instead of %zu", rec2.size(), rec.size())); check(rec2.size() == rec.size() && rec2.back() == rec.back(), "resumed.final-state", where); check(rawB == rawA, "resumed.state-file", where);
    // the closing log counts the whole history
    size_t m = std::min<size_t>(com.size(), 6); if (c.info || k.what[0] != 'x') { std::vector<std::string> e1(com.end() - long(m), com.end()), e2(c2.end() - long(std::min(m, c2.size())), c2.end()); if (!c.info) check(e1 == e2, "resumed.log", where + (e1.empty() || e2.empty() ? "" : " '" + e2.back() + "' instead of '" + e1.back() + "'")); }
    count("resumed-runs"); fs::remove(B); fs::remove(B + ".state");
  }
  sig(where); sample(where + fmt(" %zu lines, %zu states", data.size(), rec.size()));
}
// several sessions with fresh objects on the same files = one object kept in memory
template <typename K> void sessions(Rng& r) {
  K k(r); Setting c = randomSetting(r, K::dc); c.info = false; Dir D; std::string where = k.what + c.str(), C = D("c"); int n = int(r.i(2, 4)); auto mem = k(0); std::vector<std::string> all, rec, d, com; double T = 0; size_t nRec = 0;
  for (int q = 0; q < n; ++q) {
    T += r.u(.1, 1) * c.T; auto f = k(q ? int(r.i(0, 1)) : 0); go(f, c, C, "", -1, T); std::string M = D(fmt("m%d", q)); go(mem, c, M, "", -1, T);
    lines(slurp(M), d, com); if (q && !d.empty()) d.erase(d.begin()); all.insert(all.end(), d.begin(), d.end());
    check(record(f) == record(mem), "sessions.state", where + fmt(" session %d", q)); std::string rw = raw(C + ".state"); if (!check(records(rw, rec), "sessions.records-readable", where)) return;
    check(!rec.empty() && rec.back() == record(mem), "sessions.last-record", where); check(rec.size() > nRec, "sessions.records-appended", where); nRec = rec.size(); count("sessions");
    lines(slurp(C), d, com); if (!check(d == all, "sessions.lines", where + fmt(" session %d: %zu lines, %zu expected", q, d.size(), all.size()))) return;
  }
  double last = -1; for (auto& x : rec) { auto f = k(1); load(f, x); check(f.getTime() > last, "sessions.records-in-order", where); last = f.getTime(); }
  // resuming up to a time already reached changes nothing
  if (c.mode != 2) { std::string a = slurp(C), b = slurp(C + ".state"); auto f = k(1); go(f, c, C, "", -1, last * r.u(.3, 1)); check(slurp(C) == a && slurp(C + ".state") == b, "sessions.nothing-to-do", where); check(f.getTime() == last, "sessions.nothing-to-do-time", where); }
  // the state file as the initial condition of another run
  { std::string E = D("e"), F = D("f"); auto f = k(1); double T2 = last + .7 * c.T; go(f, c, E, C + ".state", -1, T2); auto g = k(1); load(g, rec.back()); go(g, c, F, "", -1, T2); check(record(f) == record(g), "initial-file.state", where); check(slurp(E) == slurp(F), "initial-file.output", where); lines(slurp(E), d, com); check(!d.empty() && std::abs(atof(d[0].c_str()) - last) < 2e-2 * (1 + last), "initial-file.first-line", where); count("initial-file-runs"); }
  sig(where + "s"); sample(where + fmt(" %d sessions", n));
}
template <typename K> void arrayOnly(Rng& r) {
  K k(r); Setting c = randomSetting(r, K::dc); c.info = false; Dir D; std::string where = k.what + c.str(), I = D("i"); std::ostringstream os(std::ios::binary); { cu::oarchive o(os); k.arrayOnly(o); } std::string st = std::to_string(os.str().size()) + os.str(); if (r.b()) spit(I, st); else *cu::trajectory::openStateFileWriting(I) << st;
  auto f = k(0), g = k(2); load(f, os.str()); check(f.getTime() == 0, "array-only.time", where); 
  // the state (what precedes the time in a record) is that of an object constructed with it; the integrator's proposal may come from the state before
  auto arrayOf = [](const std::string& rec) { std::istringstream is(rec, std::ios::binary); cu::iarchive ia(is); cu::trajectory::SerializationMetadata sm; ia & sm; std::vector<cplx> v; auto get = [&](auto a) { ia & a; for (auto x : a) v.push_back(x); }; if (sm.typeID == "DArray") get(DArray<1>()); else if (sm.rank == 1) get(CArray<1>()); else if (sm.rank == 2) get(CArray<2>()); else get(CArray<4>()); return v; };
  check(arrayOf(record(f)) == arrayOf(record(g)), "array-only.state", where);
  if (std::string(K::name) != "MCWF") { check(record(f) == record(g), "array-only.record", where); auto h = k(0); go(h, c, D("h"), I); go(g, c, D("g")); check(record(h) == record(g), "array-only.run", where); check(slurp(D("h")) == slurp(D("g")), "array-only.output", where); count("array-only-runs"); }
  else { auto h = k(0); go(h, c, D("h"), I); std::vector<std::string> d, m; lines(slurp(D("h")), d, m); check(d.size() > 1 || c.mode == 1, "array-only.mcwf-run", where); check(h.getTime() > 0, "array-only.mcwf-time", where); }
  sig(where + "a");
}
// arrays of any shape through an archive
template <typename T, int R> void arrays(Rng& r) {
  blitz::TinyVector<int, R> e; for (int k = 0; k < R; ++k) e(k) = int(r.i(r.b(.05) ? 0 : 1, 5)); blitz::Array<T, R> a(e), b; auto val = [&] { double x = r.b(.1) ? r.pick<double>({0., -0., INFINITY, -INFINITY, 5e-324, 1.7e308}) : r.u(-1, 1) * std::pow(10., double(r.i(-300, 300))); return x; };
  for (auto& x : a) if constexpr (std::is_same_v<T, double>) x = val(); else x = T(val(), val());
  int how = int(r.i(0, 2));
#ifdef VF_SANITIZED
  how = 0; // blitz++ itself does not release what the array held before
#endif
  if (how == 1) { blitz::TinyVector<int, R> f; for (int k = 0; k < R; ++k) f(k) = int(r.i(1, 4)); b.resize(f); b = T(7); } // restored into an array that already has another shape
  blitz::Array<T, R> alias; if (how == 1) alias.reference(b);
  std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); { cu::oarchive o(ss); o & a; } { cu::iarchive i(ss); i & b; }
  std::string where = fmt("rank %d of %zu elements", R, size_t(a.size())); if (!check(all(a.shape() == b.shape()), "array.shape", where)) return; auto x = a.begin(); for (auto& y : b) { check(!memcmp(&y, &*x, sizeof y), "array.elements", where); ++x; } count("arrays"); sig(where);
}
} // namespace
#define KINDS(what, n) \
SCENARIO(what##_real, n) { what<Sim<DArray<1>, cu::ODE_EngineBoost>>(r); } \
SCENARIO(what##_complex_gsl, n) { what<Sim<CArray<1>, cu::ODE_EngineGSL>>(r); } \
SCENARIO(what##_master, n) { what<Mas<1, cu::ODE_EngineBoost>>(r); } \
SCENARIO(what##_master2_gsl, n / 2) { what<Mas<2, cu::ODE_EngineGSL>>(r); } \
SCENARIO(what##_mcwf, n) { what<Mcw<1, cu::ODE_EngineBoost>>(r); } \
SCENARIO(what##_mcwf2_gsl, n / 2) { what<Mcw<2, cu::ODE_EngineGSL>>(r); }
KINDS(resume, 40) KINDS(sessions, 20) KINDS(arrayOnly, 10)
SCENARIO(resume_ensemble, 20) { resume<Ens<1, cu::ODE_EngineBoost>>(r); }
SCENARIO(sessions_ensemble, 10) { sessions<Ens<1, cu::ODE_EngineBoost>>(r); }
SCENARIO(arrays_, 200) { switch (r.i(0, 3)) { case 0: arrays<double, 1>(r); break; case 1: arrays<cplx, 1>(r); break; case 2: arrays<cplx, 2>(r); break; default: arrays<cplx, 4>(r); } }
