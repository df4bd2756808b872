// Independent reference semantics for IEEE 1788 set-based interval operations.
//
// Nothing in here uses libieeep1788.  Intervals of any of the three bound types
// are widened exactly to high precision ("Hp", MPFR with an unrestricted
// exponent range); ranges are computed from corner points / critical points and
// rounded once, by own integer arithmetic, to the bound type.
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP
#include <mpfr.h>
#include <gmp.h>
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <limits>
#include <string>
#include <vector>
#include <utility>

typedef long double ld;

namespace ref {

enum Type { TF = 0, TD = 1, TL = 2 };
inline const char* type_name(int t) { return t == TF ? "float" : t == TD ? "double" : "longdouble"; }
struct Fmt { int p; int emin_lsb; int emax; };           // precision, exponent of the smallest subnormal, max exponent (0.1xxx form)
inline Fmt fmt(int t) {
    if (t == TF) return {24, -149, 128};
    if (t == TD) return {53, -1074, 1024};
    return {64, -16445, 16384};
}
inline ld max_of(int t) { return t == TF ? (ld)std::numeric_limits<float>::max() : t == TD ? (ld)std::numeric_limits<double>::max() : std::numeric_limits<ld>::max(); }
inline ld min_sub_of(int t) { return t == TF ? (ld)std::numeric_limits<float>::denorm_min() : t == TD ? (ld)std::numeric_limits<double>::denorm_min() : std::numeric_limits<ld>::denorm_min(); }
inline ld min_norm_of(int t) { return t == TF ? (ld)std::numeric_limits<float>::min() : t == TD ? (ld)std::numeric_limits<double>::min() : std::numeric_limits<ld>::min(); }
inline ld next_of(int t, ld x, ld dir) {
    if (t == TF) return std::nextafter((float)x, (float)dir);
    if (t == TD) return std::nextafter((double)x, (double)dir);
    return std::nextafter(x, dir);
}

// RAII: unrestricted MPFR exponent range for the reference, previous range restored
struct Wide {
    mpfr_exp_t a, b;
    Wide() : a(mpfr_get_emin()), b(mpfr_get_emax()) { mpfr_set_emin(mpfr_get_emin_min()); mpfr_set_emax(mpfr_get_emax_max()); }
    ~Wide() { mpfr_set_emin(a); mpfr_set_emax(b); }
    Wide(Wide const&) = delete; Wide& operator=(Wide const&) = delete;
};

const int PREC = 320;

struct Hp {
    mpfr_t v;
    Hp() { mpfr_init2(v, PREC); mpfr_set_zero(v, 1); }
    explicit Hp(mpfr_prec_t p) { mpfr_init2(v, p); mpfr_set_zero(v, 1); }
    Hp(Hp const& o) { mpfr_init2(v, mpfr_get_prec(o.v)); mpfr_set(v, o.v, MPFR_RNDN); }
    Hp(Hp&& o) { v[0] = o.v[0]; mpfr_init2(o.v, 2); }
    Hp& operator=(Hp const& o) { if (this != &o) { if (mpfr_get_prec(v) < mpfr_get_prec(o.v)) mpfr_set_prec(v, mpfr_get_prec(o.v)); mpfr_set(v, o.v, MPFR_RNDN); } return *this; }
    Hp& operator=(Hp&& o) { mpfr_swap(v, o.v); return *this; }
    ~Hp() { mpfr_clear(v); }
    operator mpfr_ptr() { return v; }
    operator mpfr_srcptr() const { return v; }
    bool inf() const { return mpfr_inf_p(v); }
    bool nan() const { return mpfr_nan_p(v); }
    bool zero() const { return mpfr_zero_p(v); }
    int sgn() const { return mpfr_nan_p(v) ? 0 : mpfr_sgn(v); }
};
inline int cmp(Hp const& a, Hp const& b) { return mpfr_cmp(a.v, b.v); }
inline int cmpsi(Hp const& a, long b) { return mpfr_cmp_si(a.v, b); }

// exact conversion of a long double
void set_ld(Hp& r, ld x);
inline Hp hp(ld x) { Hp r; set_ld(r, x); return r; }
// Round to type t: mode 'D','U','N' (ties to even), 'Z'; overflow as IEEE 754
ld round_to(int t, mpfr_srcptr v, char mode);

struct IV {
    bool empty; Hp lo, hi;
    IV() : empty(true) {}
    IV(ld l, ld h) : empty(std::isnan(l) || std::isnan(h)) { if (!empty) { set_ld(lo, l); set_ld(hi, h); } }
};

// ---- operations -------------------------------------------------------------
#define REF_UNARY(X) X(pos) X(neg) REF_UNARY_NOOP(X)
#define REF_UNARY_NOOP(X) X(recip) X(sqr) X(sqrt) X(exp) X(exp2) X(exp10) X(log) X(log2) X(log10) \
    X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(sinh) X(cosh) X(tanh) X(asinh) X(acosh) X(atanh) \
    X(sign) X(ceil) X(floor) X(trunc) X(round_ties_to_even) X(round_ties_to_away) X(abs)
#define REF_BINARY(X) X(add) X(sub) X(mul) X(div) X(pow) X(atan2) X(min) X(max)
enum Op {
#define X(n) OP_##n,
    REF_UNARY(X) REF_BINARY(X)
#undef X
    OP_pown, OP_fma,
    OP_intersection, OP_convex_hull, OP_cancel_plus, OP_cancel_minus,
    OP_sqr_rev, OP_abs_rev, OP_sin_rev, OP_cos_rev, OP_tan_rev, OP_cosh_rev, OP_pown_rev,          // one argument (c)
    OP_sqr_revx, OP_abs_revx, OP_sin_revx, OP_cos_revx, OP_tan_revx, OP_cosh_revx, OP_pown_revx,   // (c, x)
    OP_mul_rev, OP_mul_revx, OP_mul_rev_to_pair,
    OP_COUNT
};
const char* op_name(int op);
int op_by_name(std::string const&);
int arity(int op);
inline bool has_int(int op) { return op == OP_pown || op == OP_pown_rev || op == OP_pown_revx; }
inline bool is_forward(int op) { return op <= OP_fma; }
inline bool is_rev(int op) { return op >= OP_sqr_rev && op <= OP_mul_revx; }
bool is_elementary(int op);      // elementary functions (P02) as opposed to arithmetic (P01)

// Exact value of the point function: enclosure [lo,hi]; false if undefined at x
bool point(int op, Hp const* x, int p, Hp& lo, Hp& hi);

// Range of a forward operation: r.lo rounded downward / r.hi rounded upward at
// high precision; ldec: 4 trv, 8 defined, 12 the restriction to the box is continuous,
// 16 continuous at every point of the box (boundedness is left to the caller)
struct Range { IV r; int ldec; };
Range range(int op, IV const* a, int p);

// Reverse operations / set operations / cancellation.
// A branch of the exact preimage {t : f(t) in C}: an interval whose ends are known
// as high-precision enclosures [lod,lou], [hid,hiu]; an open end is a limit that is
// not itself a solution.
struct Br { Hp lod, lou, hid, hiu; bool lo_open, hi_open; Br() : lo_open(false), hi_open(false) {} };
// Branches relevant for x, in increasing order.  For sin/cos/tan only the branches
// around the two ends of x (all solutions in between lie between them).
// If full_line_lo/hi: solutions are unbounded below/above within an unbounded x.
struct Pre { std::vector<Br> br; bool unb_lo, unb_hi; Pre() : unb_lo(false), unb_hi(false) {} };
// op is one of the two-argument forms (…_revx) or OP_mul_revx; b only for mul
void preimage(int op, IV const& c, IV const& x, IV const* b, int p, Pre& out);
// exact hull of the solutions inside x; ends as enclosures
struct Sol { bool empty; bool unsure; Hp lod, lou, hid, hiu; Sol() : empty(true), unsure(false) {} };
void solve(Pre const& pre, IV const& x, Sol& s);
// widest acceptable result for tight operations at bound type t:
// hull over the branches of (x intersected with the branch rounded outward to t)
IV outer(Pre const& pre, IV const& x, int t);

IV hull2(IV const& a, IV const& b);
IV inter(IV const& a, IV const& b);

// cancel_minus (op == OP_cancel_minus) / cancel_plus
IV cancel(int op, IV const& a, IV const& b);

// floor(x / (pi/2)) exactly
void quadrant(mpz_t q, Hp const& x);
// k * pi/2 enclosure
void kpi2(mpz_srcptr k, Hp& lo, Hp& hi, mpfr_prec_t prec);

std::string show(Hp const&);
std::string show(IV const&);
std::string hex(ld);
}
#endif
