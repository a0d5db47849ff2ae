// Offline readers of what a run leaves behind: output table and state file.
#pragma once
#include "vf.h"
#include <fstream>
#include <iostream>

namespace vf {

struct Table { std::vector<std::vector<double>> rows; std::vector<std::string> raw; std::vector<std::string> comments; bool clean = true; std::string dirty; };

inline Table parseTable(const std::string& text) {
  Table t; std::istringstream is(text); std::string l;
  while (std::getline(is, l)) {
    if (l.find_first_not_of(" \t\r") == std::string::npos) { continue; }
    if (l[0] == '#') { t.comments.push_back(l); continue; }
    std::vector<double> row; std::istringstream ls(l); std::string w;
    while (ls >> w) {
      // complex numbers are printed as (re,im)
      if (w[0] == '(') { double a, b; if (sscanf(w.c_str(), "(%lf,%lf)", &a, &b) == 2) { row.push_back(a); row.push_back(b); continue; } }
      char* e; double v = strtod(w.c_str(), &e); if (*e) { t.clean = false; t.dirty = l; break; } row.push_back(v);
    }
    t.rows.push_back(row); t.raw.push_back(l);
  }
  return t;
}
inline std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
inline void spit(const std::string& f, const std::string& c) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o << c; }
inline bool exists(const std::string& f) { return access(f.c_str(), F_OK) == 0; }
inline void rmf(const std::string& f) { unlink(f.c_str()); }

// collects everything written to std::cout while alive
struct CaptureCout { std::ostringstream s; std::streambuf* old; CaptureCout() : old(std::cout.rdbuf(s.rdbuf())) {} ~CaptureCout() { std::cout.rdbuf(old); } };

inline std::string scratchFile(const std::string& n) { static long k = 0; return scratch() + "/" + n + std::to_string(k++); }

} // vf
