// A random engine whose every output is known (and can be dictated) by the monitor.
#pragma once
#include "vf.h"
#include "Random.h"
#include <deque>
namespace vf {
struct Tape { std::deque<double> next; std::vector<double> used; Rng fallback{1}; bool bias = false; /* undictated numbers close to 1: no jumps */ };
inline Tape& tape() { static Tape t; return t; }
struct ScriptEngine {
  using result_type = uint64_t;
  ScriptEngine(unsigned long = 0, unsigned long = 0) {}
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return ~uint64_t(0); }
  result_type operator()() {
    auto& t = tape(); double u; if (t.next.empty()) u = t.bias ? 1 - 1e-6 * t.fallback.u() - 1e-15 : t.fallback.u(); else { u = t.next.front(); t.next.pop_front(); }
    t.used.push_back(u); return uint64_t(std::ldexp(u, 53)) << 11;
  }
  template <typename Ar> void serialize(Ar&, unsigned) {}
};
}
template <> inline const std::string randomutils::EngineID_v<vf::ScriptEngine> = "scripted";
