// Reference for interval literals and for printed intervals: exact, hand written, independent of the library.
#ifndef VERIF_TREF_HPP
#define VERIF_TREF_HPP
#include "mon.hpp"
#include <gmpxx.h>
namespace tref {
typedef mpz_class Z; typedef mpq_class Q;
using lib::Arg;
// mant * base^exp (base 2 or 10), or a rational
struct Num {
    bool rat; Q q; Z mant, exp; int base;
    Num() : rat(true), q(0), base(10) {}
    int sign() const { return rat ? sgn(q) : sgn(mant); }
    bool exact() const { return rat || sgn(mant) == 0 || (exp <= 60000 && exp >= -60000); }
    Q value() const;                        // only if exact()
};
int compare(Num const& a, Num const& b, bool& sure);
Q q_of(long double v);
ld round_q(int t, Q const& q, char mode);   // 'D' or 'U'
ld round_num(int t, Num const& n, char mode);

enum Kind { REJECT, EMPTY, ENTIRE, NAI, INTERVAL, UNSPECIFIED };
struct Lit {
    Kind kind; Num lo, hi; bool lo_inf, hi_inf; int dec;   // dec: stated decoration or -1
    bool uncertain;
    Lit() : kind(REJECT), lo_inf(false), hi_inf(false), dec(-1), uncertain(false) {}
};
// the whole string, optionally surrounded by white space, is the literal
// two bounds with exponents beyond 10^6 are UNSPECIFIED unless full (known finding, see known-findings.txt)
Lit parse(std::string const& s, bool full = false);
// expected value for bound type t (decoration included; NaI: dec 0)
Arg expect(int t, Lit const& l);

// decimal / hexadecimal number as printed: returns false if it is not one
struct Printed { bool neg, inf, hex; Q v; int frac; int sig; bool has_exp; long e; bool upper, lower; std::string intpart; };
bool printed(std::string const& s, Printed& p);
inline bool ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
std::string strip(std::string const&);
Z pow10(unsigned long n); Q scale10(Q const& q, long e); Q scale2(Q const& q, long e);
Z qfloor(Q const& q); Z qceil(Q const& q);
long ilog10(Q const& q);                    // floor(log10 |q|), q != 0
}
#endif
