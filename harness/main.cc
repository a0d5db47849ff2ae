#include "vf.h"
int main(int argc, char** argv) { return vf::run(argc, argv); }
