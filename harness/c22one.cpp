// the whole program in one source file
#ifdef C22_REV
#include <uncertainties/impl.hpp>
#endif
#include "c22main.cpp"
#include "c22a.cpp"
#ifndef C22_ONLY_FIRST
#include "c22b.cpp"
#include "c22c.cpp"
#include "c22p.cpp"
#endif
#ifndef C22_REV
#include <uncertainties/impl.hpp>
#endif
