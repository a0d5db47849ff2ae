// Stand-in for Version.cc (needs <blitz/config.h> of the absent blitz submodule).
#include <string>
std::string versionHelper() { return "verif build\n"; }
