// C03: state files that do not belong to the run: refused, and nothing written.
#include "trajkinds.h"
#include <memory>
using namespace tk;
namespace {
struct Foreign { std::string label, rec; };
template <typename K> std::string recOf(Rng& r, const K& k) { auto s = k(int(r.i(0, 1))); std::ostringstream log; if (r.b(.8)) cu::advance(s, r.u(.01, .3), log); return record(s); }
template <typename A> std::string arrayRec(const char* type, int rank, const A& a) { std::ostringstream os(std::ios::binary); { cu::oarchive o(os); cu::trajectory::SerializationMetadata sm{type, cu::trajectory::SerializationMetadata::ARRAY_ONLY, rank}; A b(a.copy()); o & sm & b; } return os.str(); }
template <template <typename> class E> using SimD = Sim<DArray<1>, E>;
template <template <typename> class E> using SimC = Sim<CArray<1>, E>;
template <typename T> using BE = cu::ODE_EngineBoost<T>;

template <typename A, typename... I> A ones(I... i) { A a(blitz::TinyVector<int, sizeof...(I)>(i...)); a = typename A::T_numtype(1.); return a; }
// one record of every kind, with the same number of elements where that can be
std::vector<Foreign> zoo(Rng& r, const std::string& victim, Dims d1) {
  long n = long(total(d1)); std::vector<Foreign> v;
  auto put = [&](const char* l, auto k) { if (victim != l) v.push_back({l, recOf(r, k)}); };
  put("Simulated real", Sim<DArray<1>, cu::ODE_EngineBoost>(r, n)); put("Simulated complex", Sim<CArray<1>, cu::ODE_EngineBoost>(r, n)); put("Master 1", Mas<1, cu::ODE_EngineBoost>(r, {size_t(n)})); put("Master 2", Mas<2, cu::ODE_EngineBoost>(r, {size_t(n), 1}));
  put("MCWF 1", Mcw<1, cu::ODE_EngineBoost>(r, {size_t(n)})); put("MCWF 2", Mcw<2, cu::ODE_EngineBoost>(r, {size_t(n), 1})); put("Ensemble 1", Ens<1, cu::ODE_EngineBoost>(r, {size_t(n)}, 1)); 
  if (victim != "Simulated real") v.push_back({"array of reals", arrayRec("DArray", 1, ones<DArray<1>>(int(n)))});
  if (victim != "Simulated complex" && victim != "MCWF 1") v.push_back({"array of rank 1", arrayRec("CArray", 1, ones<CArray<1>>(int(n)))});
  if (victim != "Master 1" && victim != "MCWF 2") v.push_back({"array of rank 2", arrayRec("CArray", 2, ones<CArray<2>>(int(n), int(n)))});
  if (victim != "Master 2") v.push_back({"array of rank 4", arrayRec("CArray", 4, ones<CArray<4>>(int(n), 1, int(n), 1))});
  return v;
}
void write(Rng& r, const std::string& f, const std::string& content) { fs::remove(f); if (r.b(.5)) *cu::trajectory::openStateFileWriting(f) << content; else spit(f, content); }

// a trajectory whose payload fits anything, so that it is told apart by what the file says of itself alone
struct Says { std::string type, id; int rank; } says;
struct Plain { double x = 0; template <typename Ar> Ar& stateIO(Ar& ar) { ar & x; return ar; } cu::iarchive& readFromArrayOnlyArchive(cu::iarchive& ar) { ar & x; return ar; } };
template <typename K, typename Other> void victim(Rng& r, const std::string& name, const K& k, Dims d, Other&& others) {
  Setting c = randomSetting(r, K::dc); if (!c.sdf) c.sdf = 1; c.first = true; Dir D; std::string where = name + " " + k.what + c.str(), O = D("o"), S = O + ".state", X = D("x"), I = D("i");
  { auto s = k(0); go(s, c, O); } const std::string out = slurp(O), st = slurp(S), rw = raw(S); std::vector<std::string> rec; if (!check(records(rw, rec) && rec.size() > 1, "setup.records", where)) return;
  auto refused = [&](const std::string& what, bool resume) {
    std::string o = slurp(O), s = slurp(S); bool hadS = fs::exists(S); std::string msg; auto f = k(int(r.i(0, 1)));
    bool t = throws([&] { if (resume) go(f, c, O, "", 3, 3 * c.T + 5); else go(f, c, X, I, 3, 3 * c.T + 5); }, &msg);
    check(t, std::string(resume ? "resume" : "initial") + ".absorbed: " + what.substr(0, what.find('(')), where + " took " + what); check(!t || !msg.empty(), "refusal.without-reason", where + what);
    if (resume) { check(slurp(O) == o, "resume.output-changed", where + " " + what); check(fs::exists(S) == hadS && slurp(S) == s, "resume.state-file-changed", where + " " + what); }
    else check((!fs::exists(X) || !fs::file_size(X)) && (!fs::exists(X + ".state") || !fs::file_size(X + ".state")), "initial.output-written", where + " " + what);
    fs::remove(X); fs::remove(X + ".state"); count(resume ? "refused-resumes" : "refused-starts"); count("reason: " + msg.substr(0, std::min<size_t>(60, msg.find(": /")))); };
  auto restore = [&] { spit(O, out); spit(S, st); };
  std::vector<Foreign> z = zoo(r, name, d); others(z);
  for (auto& x : z) {
    std::string one = std::to_string(x.rec.size()) + x.rec; write(r, I, one); refused(x.label, false); write(r, I, rw + one); refused(x.label + " (after a proper record)", false);
    write(r, S, one); refused(x.label, true); write(r, S, framed(rec, size_t(r.i(1, long(rec.size())))) + one); refused(x.label + " (after a proper record)", true); restore();
  }
  // cut short, anywhere but between records
  std::set<size_t> edges; { size_t p = 0; edges.insert(0); for (auto& x : rec) { p += std::to_string(x.size()).size() + x.size(); edges.insert(p); } }
  for (int q = 0; q < 12; ++q) { size_t b = q == 0 ? rw.size() - 1 : q == 1 ? size_t(r.i(1, 4)) : q == 2 ? *std::next(edges.begin(), r.i(1, long(edges.size()) - 2 > 0 ? long(edges.size()) - 2 : 1)) + size_t(r.i(1, 3)) : size_t(r.i(1, long(rw.size()) - 1)); if (edges.count(b) || b >= rw.size()) continue; std::string cut = rw.substr(0, b); fs::remove(I); spit(I, cut); refused(fmt("cut record (at %zu of %zu)", b, rw.size()), false); spit(S, cut); refused(fmt("cut record (at %zu of %zu)", b, rw.size()), true); restore(); }
  // the compressed file cut short
  { fs::remove(I); *cu::trajectory::openStateFileWriting(I) << rw; std::string z2 = slurp(I); for (int q = 0; q < 8; ++q) { size_t b = q == 0 ? z2.size() - 1 : size_t(r.i(3, long(z2.size()) - 1)); spit(I, z2.substr(0, b)); refused(fmt("cut compressed file (at %zu of %zu)", b, z2.size()), false); spit(S, z2.substr(0, b)); refused(fmt("cut compressed file (at %zu of %zu)", b, z2.size()), true); restore(); }
    // several sessions, the last of which was cut
    size_t b = size_t(r.i(3, long(z2.size()) - 1)); spit(I, z2 + z2.substr(0, b)); refused(fmt("cut second session (at %zu of %zu)", b, z2.size()), false); }
  fs::remove(I); refused("missing file", false); fs::remove(S); refused("missing file", true); spit(I, ""); refused("empty file", false); spit(S, ""); refused("empty file", true); restore();
  spit(I, "not a state file\n"); refused("text", false); spit(S, out); refused("text", true); restore();
  // what does belong is not refused
  { auto f = k(1); std::string msg; bool t = throws([&] { go(f, c, O, "", 2, c.T + 9 * c.Dt); }, &msg); check(!t && f.getTime() > c.Dt && slurp(O).size() > out.size(), "own-file.accepted", where + msg); }
  sig(where); sample(where);
}
Dims other(Rng& r, Dims d) { Dims o = d; while (o == d) { for (auto& x : o) if (r.b(.6)) x = size_t(r.i(1, 5)); if (o.size() == 2 && r.b(.3)) o = {d[1], d[0]}; } return o; }
} // namespace
template <> struct cppqedutils::trajectory::MakeSerializationMetadata<Plain> { static auto _() { return SerializationMetadata{says.type, says.id, says.rank}; } };
SCENARIO(self_description, 60) {
  std::vector<std::string> types{"CArray", "DArray", "DArrayX", "CArra", "", cu::trajectory::SerializationMetadata::UNSPECIFIED}, ids{"Master", "MCWF_Trajectory", "Simulated", "Simulate", "EnsembleMCWF", "", cu::trajectory::SerializationMetadata::UNSPECIFIED}; const std::string AO = cu::trajectory::SerializationMetadata::ARRAY_ONLY;
  auto any = [&] { return Says{r.pick(types), r.b(.2) ? AO : r.pick(ids), int(r.i(0, 6))}; };
  for (int k = 0; k < 30; ++k) {
    Says a = any(), b = any(); if (b.id == AO) b.id = "Master"; if (r.b(.9)) { bool A = a.id == AO; int keep = int(r.i(0, 3)); if (keep != 0) a.type = b.type; if (keep != 1) a.rank = b.rank; if (keep != 2 && !A) a.id = b.id; }
    bool fits = a.type == b.type && a.rank == b.rank && (a.id == b.id || a.id == AO); Plain w, v; w.x = r.u(1, 2); says = a; auto ss = std::make_shared<std::stringstream>(); cu::trajectory::writeViaSStream(w, std::shared_ptr<std::ostream>(ss)); says = b; std::string msg, where = fmt("(%s %s %d) given to (%s %s %d)", a.type.c_str(), a.id.c_str(), a.rank, b.type.c_str(), b.id.c_str(), b.rank);
    bool t = throws([&] { cu::trajectory::readViaSStream(v, std::shared_ptr<std::istream>(ss)); }, &msg); check(t == !fits, fits ? "self-description.own-refused" : "self-description.absorbed", where + msg); check(fits ? v.x == w.x : v.x == 0, "self-description.state", where); if (t) check(!msg.empty(), "self-description.without-reason", where); count(fits ? "own-records" : "foreign-records"); sig(where);
  }
}
SCENARIO(simulated_real, 12) { long n = r.i(2, 5); Sim<DArray<1>, cu::ODE_EngineBoost> k(r, n); victim(r, "Simulated real", k, {size_t(n)}, [&](auto& z) { long m = n + r.pick<long>({-1, 1, 3}); z.push_back({"Simulated of other size", recOf(r, Sim<DArray<1>, cu::ODE_EngineBoost>(r, m))}); z.push_back({"array of other size", arrayRec("DArray", 1, ones<DArray<1>>(int(m)))}); }); }
SCENARIO(simulated_complex, 12) { long n = r.i(2, 5); Sim<CArray<1>, cu::ODE_EngineGSL> k(r, n); victim(r, "Simulated complex", k, {size_t(n)}, [&](auto& z) { long m = n + r.pick<long>({-1, 1, 3}); z.push_back({"Simulated of other size", recOf(r, Sim<CArray<1>, cu::ODE_EngineBoost>(r, m))}); z.push_back({"array of other size", arrayRec("CArray", 1, ones<CArray<1>>(int(m)))}); }); }
SCENARIO(master1, 12) { Dims d{size_t(r.i(2, 4))}, e = other(r, d); Mas<1, cu::ODE_EngineBoost> k(r, d); victim(r, "Master 1", k, d, [&](auto& z) { z.push_back({"Master of other dimension", recOf(r, Mas<1, cu::ODE_EngineBoost>(r, e))}); z.push_back({"array of other dimension", arrayRec("CArray", 2, ones<CArray<2>>(int(e[0]), int(e[0])))}); z.push_back({"array not square", arrayRec("CArray", 2, ones<CArray<2>>(int(d[0]), int(e[0])))}); }); }
SCENARIO(master2, 6) { Dims d{size_t(r.i(1, 3)), 2}, e = other(r, d); Mas<2, cu::ODE_EngineBoost> k(r, d); victim(r, "Master 2", k, d, [&](auto& z) { z.push_back({"Master of other dimensions", recOf(r, Mas<2, cu::ODE_EngineBoost>(r, e))}); }); }
SCENARIO(mcwf1, 12) { Dims d{size_t(r.i(2, 5))}, e = other(r, d); Mcw<1, cu::ODE_EngineBoost> k(r, d); victim(r, "MCWF 1", k, d, [&](auto& z) { z.push_back({"MCWF of other dimension", recOf(r, Mcw<1, cu::ODE_EngineBoost>(r, e))}); z.push_back({"array of other dimension", arrayRec("CArray", 1, ones<CArray<1>>(int(e[0])))}); }); }
SCENARIO(mcwf2, 6) { Dims d{size_t(r.i(1, 3)), 2}, e = other(r, d); Mcw<2, cu::ODE_EngineBoost> k(r, d); victim(r, "MCWF 2", k, d, [&](auto& z) { z.push_back({"MCWF of other dimensions", recOf(r, Mcw<2, cu::ODE_EngineBoost>(r, e))}); z.push_back({"array of other dimensions", arrayRec("CArray", 2, ones<CArray<2>>(int(e[0]), int(e[1])))}); }); }
SCENARIO(ensemble1, 8) { Dims d{size_t(r.i(2, 4))}, e = other(r, d); size_t n = size_t(r.i(1, 3)); Ens<1, cu::ODE_EngineBoost> k(r, d, n); victim(r, "Ensemble 1", k, d, [&](auto& z) { z.push_back({"Ensemble of other dimension", recOf(r, Ens<1, cu::ODE_EngineBoost>(r, e, n))}); if (n > 1) z.push_back({"Ensemble of fewer members", recOf(r, Ens<1, cu::ODE_EngineBoost>(r, d, n - 1))}); z.push_back({"array of its rank", arrayRec("CArray", 1, ones<CArray<1>>(int(d[0])))}); }); }
