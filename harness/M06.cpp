// M06: the linear algebra of M05 with the built-in algorithms (LAPACK disabled).
#define NO_LAPACK
#include "M05.cpp"
