#!/bin/bash
# SRC
# cwd: the repository, built. Compiles demo.cc against its headers and libraries and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
I="-I$D"; for d in CPPQEDutils CPPQEDcore CPPQEDcore/{high,composites,structure,quantumdata,quantumoperator,quantumtrajectory} CPPQEDelements/{frees,interactions,utils}; do I="$I -I$R/$d"; done
F="-std=c++20 -O1 -w -DNDEBUG -DBZ_HAVE_BOOST_SERIALIZATION -DCPPQED_HAS_GSL -DBOOST_IOSTREAMS_DYN_LINK -DBOOST_SERIALIZATION_DYN_LINK $I -isystem /usr/include/eigen3"
compile() { local o="$T/$(echo "$1" | tr '/' '_').o"; g++ $F -include boost/preprocessor/iteration/iterate.hpp -c "$1" -o "$o" >"$o.log" 2>&1 || { head -20 "$o.log"; touch "$T/failed"; }; }
for s in "$D/demo.cc" $(for x in $SRC; do echo "$R/$x"; done); do compile "$s" & done; wait
[ -e "$T/failed" ] && { echo "does not compile"; exit 99; }
L=""; for l in CPPQEDelements CPPQEDcore CPPQEDutils; do L="$L -L$R/_build/$l -l$l -Wl,-rpath,$R/_build/$l"; done
g++ -o "$T/demo" "$T"/*.o -Wl,--allow-shlib-undefined $L -lblitz -lgsl -lgslcblas -lboost_serialization -lboost_iostreams || exit 99
cd "$T" && timeout 200 ./demo
