// the interpreter of programs for udouble2m
#define H_NO_MAIN
#define H_NO_EXTERN
#include "lib.hpp"
template struct prog::LibExec<unc::udouble2m>;
