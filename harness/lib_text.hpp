// Recording interface to text output and input of the library.
#ifndef VERIF_LIB_TEXT_HPP
#define VERIF_LIB_TEXT_HPP
#include "lib.hpp"
#include <iosfwd>
namespace libtext {
using lib::Arg; using lib::Out;
enum M { M_LOWER, M_UPPER, M_STRING_WIDTH, M_INF_SUP, M_UNCERTAIN, M_UNCERTAIN_UP, M_UNCERTAIN_DOWN, M_DECSCI, M_DECIMAL, M_SCIENTIFIC, M_HEX, M_WIDTH, M_PRECISION,
         M_SPECIAL_TEXT, M_SPECIAL_BOUNDS, M_SPECIAL_NO_BOUNDS, M_PUNCT, M_NO_PUNCT, M_UEXP, M_NO_UEXP, M_DEC_ALPHA, M_DEC_NUMERIC, M_OVL_ALPHA, M_OVL_NUMERIC, M_COUNT };
inline bool has_arg(int m) { return m == M_STRING_WIDTH || m == M_WIDTH || m == M_PRECISION; }
struct Manip { int kind; unsigned arg; };
void manip(std::ostream&, Manip);
// level 0: flavor function on the raw representation, 1: class operator
void write(std::ostream&, int t, int level, bool dec, Arg const&, Out&);
void write_dec(std::ostream&, int d, Out&);
void write_ovl(std::ostream&, int s, Out&);
// target: previous value in, value after the call out
void read(std::istream&, int t, int level, bool dec, Arg& target, Out&);
void read_dec(std::istream&, int& d, Out&);
// level 0: flavor text_to_interval, 1: constructor
void construct(int t, int level, bool dec, std::string const&, Out&);
// predefined manipulator ids of this unit are used by all functions above
}
#endif
