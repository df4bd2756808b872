// Recording interface to the library under test: operands in, observed result,
// decoration, flags and exceptions out.  Interface part: does not include the library.
#ifndef VERIF_LIB_HPP
#define VERIF_LIB_HPP
#include "ref.hpp"
#include <cstring>
#include <locale>

namespace lib {

// An operand or result: empty is (NaN,NaN); NaI is (NaN,NaN) with dec 0 (ill).
struct Arg { ld lo, hi; int dec; Arg() : lo(NAN), hi(NAN), dec(4) {} Arg(ld l, ld h, int d = 12) : lo(l), hi(h), dec(d) {} };
inline bool is_empty(Arg const& a) { return std::isnan(a.lo) || std::isnan(a.hi); }
inline bool is_nai(Arg const& a) { return a.dec == 0; }

enum Form { RAW = 0, RAWDEC, ST, STDEC, FREE, FREEDEC, OPR, OPRDEC, NFORMS };
inline bool decorated(int form) { return form & 1; }
inline const char* form_name(int f) { static const char* n[] = {"flavor", "flavor-dec", "static", "static-dec", "free", "free-dec", "operator", "operator-dec"}; return n[f]; }

#define LIB_SETOPS(X) X(intersection) X(convex_hull) X(cancel_plus) X(cancel_minus)
#define LIB_REV(X) X(sqr_rev) X(abs_rev) X(sin_rev) X(cos_rev) X(tan_rev) X(cosh_rev)
#define LIB_BOOL1(X) X(is_empty) X(is_entire) X(is_common_interval) X(is_singleton)
#define LIB_BOOL2(X) X(equal) X(subset) X(less) X(precedes) X(interior) X(strictly_less) X(strictly_precedes) X(disjoint)
#define LIB_BOOL2P(X) X(superset) X(greater) X(succeeds) X(contains_interior) X(strictly_greater) X(strictly_succeeds)
#define LIB_NUM(X) X(inf) X(sup) X(mid) X(rad) X(wid) X(mag) X(mig)
enum LOp {
    L_FIRST = ref::OP_COUNT - 1,     // L_is_empty == ref::OP_COUNT
#define X(n) L_##n,
    LIB_BOOL1(X) L_is_nai, LIB_BOOL2(X) LIB_BOOL2P(X) L_not_equal, LIB_NUM(X) L_mid_rad, L_overlap, L_is_member,
#undef X
    L_COUNT
};
// Ambient settings of the thread that are in effect while the library runs: rounding mode of the
// processor (0 to nearest, 1 up, 2 down, 3 to zero), decimal point of the C locale, global C++ locale.
struct Ambient { int fpu; char point; bool locale, broken; Ambient() : fpu(0), point('.'), locale(false), broken(false) {} };
extern thread_local Ambient ambient;
std::locale const& foreign_locale();        // with decimal comma, grouping of digits and other truth values
struct AmbientScope { AmbientScope(); ~AmbientScope(); };       // reports a library call that changes the rounding mode in ambient.broken
const char* op_name(int op);        // any op
int op_by_name(std::string const&);
int op_arity(int op);

enum Kind { K_NONE, K_INTERVAL, K_PAIR, K_BOOL, K_NUM, K_NUM2, K_STATE };
struct Out {
    int kind; Arg a, b; bool tf; int state; ld n1, n2;
    int flags;          // flag word after the call
    int exc;            // 0 none, 1..4 the library's exception types by flag order, 9 std::exception, 10 anything else
    int dec_seen, decb_seen;
    char what[96];
    Out() : kind(K_NONE), tf(false), state(-1), n1(0), n2(0), flags(0), exc(0), dec_seen(-1), decb_seen(-1) { what[0] = 0; }
};

// One call of operation op on operands x (of bound types t[i]) with result bound type R.
// Returns false if this form does not exist for the operation.  `keep_flags`: do not clear the flag word first.
bool call(int op, int form, int R, int const* t, Arg const* x, int p, Out& o, bool keep_flags = false, ld member = 0, int member_type = ref::TD);

typedef bool (*MixedFn)(int, int, int const*, Arg const*, int, Out&, bool);

int get_flags(); void clear_flags(); void set_flags(int); int get_trap(); void set_trap(int);
}
#endif
