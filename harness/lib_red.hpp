// Recorders for the reductions and the error-free sum (lib_red.cpp).
#ifndef VERIF_LIB_RED_HPP
#define VERIF_LIB_RED_HPP
#include "lib.hpp"
namespace lib {
enum RKind { R_SUM, R_SUM_ABS, R_SUM_SQR, R_DOT, R_KINDS };
inline const char* rkind_name(int k) { static const char* n[] = {"sum", "sum_abs", "sum_sqr", "dot"}; return n[k]; }
// container: 0 vector iterators, 1 raw pointers, 2 deque, 3 initializer list (up to 6 terms), 4 const vector iterators, 5 reverse iterators
// rnd: 0 downward, 1 upward, 2 to nearest, 3 to zero.  modified: the input sequence was changed by the call
ld reduce(int t, int kind, int container, int rnd, std::vector<ld> const& a, std::vector<ld> const& b, bool& modified, int& exc);
void two_sum(int t, ld a, ld b, ld& s, ld& e, int& exc);
}
#endif
