#include "ref.hpp"
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <map>

namespace ref {

// ---------------------------------------------------------------- conversions
void set_ld(Hp& r, ld x) {
    if (std::isnan(x)) { mpfr_set_nan(r.v); return; }
    if (std::isinf(x)) { mpfr_set_inf(r.v, x > 0 ? 1 : -1); return; }
    if (x == 0) { mpfr_set_zero(r.v, 1); return; }
    int e; ld m = std::frexp(std::fabs(x), &e);              // m in [1/2,1)
    uint64_t u = (uint64_t)std::ldexp(m, 64);                // exact: at most 64 bits
    mpfr_set_ui_2exp(r.v, (unsigned long)u, (mpfr_exp_t)e - 64, MPFR_RNDN);
    if (x < 0) mpfr_neg(r.v, r.v, MPFR_RNDN);
}

ld round_to(int t, mpfr_srcptr v, char mode) {
    Fmt f = fmt(t);
    if (mpfr_nan_p(v)) return std::numeric_limits<ld>::quiet_NaN();
    int s = mpfr_sgn(v);
    if (mpfr_inf_p(v)) return s > 0 ? std::numeric_limits<ld>::infinity() : -std::numeric_limits<ld>::infinity();
    if (s == 0) return 0;
    if (s < 0) { if (mode == 'D') mode = 'U'; else if (mode == 'U') mode = 'D'; }
    // magnitude
    mpfr_exp_t e = mpfr_get_exp(v);                          // |v| in [2^(e-1), 2^e)
    mpfr_exp_t q = std::max<mpfr_exp_t>(e - f.p, f.emin_lsb);
    if (mode == 'Z') mode = 'D';
    ld res;
    if (e > f.emax) {
        if (mode == 'D') res = max_of(t);
        else if (mode == 'U') res = std::numeric_limits<ld>::infinity();
        else res = std::numeric_limits<ld>::infinity();      // >= 2^emax: rounds to infinity
    } else {
        mpz_t z, rem; mpz_init(z); mpz_init(rem);
        mpfr_exp_t ez = mpfr_get_z_2exp(z, v);               // v = z * 2^ez
        mpz_abs(z, z);
        if (ez >= q) { mpz_mul_2exp(z, z, ez - q); }
        else {
            mpfr_exp_t sh = q - ez;
            size_t bits = mpz_sizeinbase(z, 2);
            if ((mpfr_exp_t)bits + 2 < sh) {                 // far below half an ulp
                mpz_set_ui(z, mode == 'U' ? 1 : 0);
            } else {
                mpz_fdiv_r_2exp(rem, z, sh);
                mpz_fdiv_q_2exp(z, z, sh);
                if (mpz_sgn(rem) != 0) {
                    if (mode == 'U') mpz_add_ui(z, z, 1);
                    else if (mode == 'N') {
                        size_t tz = mpz_scan1(rem, 0); size_t rb = mpz_sizeinbase(rem, 2);
                        bool ge = rb == (size_t)sh; bool eq = ge && tz == (size_t)sh - 1;
                        if (eq ? mpz_odd_p(z) != 0 : ge) mpz_add_ui(z, z, 1);
                    }
                }
            }
        }
        // z <= 2^p
        if ((int)mpz_sizeinbase(z, 2) > f.p) { mpz_fdiv_q_2exp(z, z, 1); q += 1; }
        if ((mpfr_exp_t)mpz_sizeinbase(z, 2) + q > f.emax && mpz_sgn(z)) res = std::numeric_limits<ld>::infinity();
        else {
            uint64_t u = 0; size_t cnt = 0;
            mpz_export(&u, &cnt, -1, 8, 0, 0, z);
            res = std::ldexp((ld)u, (int)q);
        }
        mpz_clear(z); mpz_clear(rem);
    }
    return s < 0 ? -res : res;
}

// ---------------------------------------------------------------- names
static const char* NAMES[] = {
#define X(n) #n,
    REF_UNARY(X) REF_BINARY(X)
#undef X
    "pown", "fma", "intersection", "convex_hull", "cancel_plus", "cancel_minus",
    "sqr_rev", "abs_rev", "sin_rev", "cos_rev", "tan_rev", "cosh_rev", "pown_rev",
    "sqr_revx", "abs_revx", "sin_revx", "cos_revx", "tan_revx", "cosh_revx", "pown_revx",
    "mul_rev", "mul_revx", "mul_rev_to_pair"
};
const char* op_name(int op) { return NAMES[op]; }
int op_by_name(std::string const& s) { for (int i = 0; i < OP_COUNT; ++i) if (s == NAMES[i]) return i; return -1; }
int arity(int op) {
    if (op <= OP_abs || op == OP_pown) return 1;
    if (op == OP_fma || op == OP_mul_revx) return 3;
    if (op >= OP_sqr_rev && op <= OP_pown_rev) return 1;
    return 2;
}
bool is_elementary(int op) {
    switch (op) {
    case OP_exp: case OP_exp2: case OP_exp10: case OP_log: case OP_log2: case OP_log10: case OP_sin: case OP_cos: case OP_tan:
    case OP_asin: case OP_acos: case OP_atan: case OP_sinh: case OP_cosh: case OP_tanh: case OP_asinh: case OP_acosh: case OP_atanh:
    case OP_pow: case OP_atan2: case OP_pown: return true;
    default: return false;
    }
}

// ---------------------------------------------------------------- quadrants
void quadrant(mpz_t q, Hp const& x) {
    if (x.zero()) { mpz_set_ui(q, 0); return; }
    mpfr_prec_t prec = 192 + std::max<mpfr_exp_t>(0, mpfr_get_exp(x.v));
    for (;; prec *= 2) {
        Hp pi(prec), a(prec), b(prec); mpz_t z; mpz_init(z);
        // divide by enclosure of pi/2
        mpfr_const_pi(pi, MPFR_RNDD); mpfr_div_2ui(pi, pi, 1, MPFR_RNDN);
        mpfr_div(a, x.v, pi, x.sgn() > 0 ? MPFR_RNDU : MPFR_RNDD);
        mpfr_const_pi(pi, MPFR_RNDU); mpfr_div_2ui(pi, pi, 1, MPFR_RNDN);
        mpfr_div(b, x.v, pi, x.sgn() > 0 ? MPFR_RNDD : MPFR_RNDU);
        mpfr_floor(a, a); mpfr_floor(b, b);
        bool same = mpfr_equal_p(a, b);
        mpfr_get_z(q, a, MPFR_RNDD); mpz_clear(z);
        if (same) return;
    }
}
void kpi2(mpz_srcptr k, Hp& lo, Hp& hi, mpfr_prec_t prec) {
    mpfr_set_prec(lo, prec); mpfr_set_prec(hi, prec);
    int s = mpz_sgn(k);
    mpfr_const_pi(lo, s >= 0 ? MPFR_RNDD : MPFR_RNDU);
    mpfr_const_pi(hi, s >= 0 ? MPFR_RNDU : MPFR_RNDD);
    mpfr_mul_z(lo, lo, k, MPFR_RNDD); mpfr_mul_z(hi, hi, k, MPFR_RNDU);
    mpfr_div_2ui(lo, lo, 1, MPFR_RNDD); mpfr_div_2ui(hi, hi, 1, MPFR_RNDU);
}
// is there an integer k == r (mod m) with qa < k <= qb ?
static bool has_k(mpz_t qa, mpz_t qb, unsigned r, unsigned m) {
    mpz_t k; mpz_init(k); mpz_add_ui(k, qa, 1);
    unsigned long res = mpz_fdiv_ui(k, m);
    mpz_add_ui(k, k, (r + m - res) % m);
    bool ok = mpz_cmp(k, qb) <= 0; mpz_clear(k); return ok;
}

// ---------------------------------------------------------------- point functions
typedef int (*F1)(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t);
static F1 f1(int op) {
    switch (op) {
    case OP_sqrt: return mpfr_sqrt; case OP_exp: return mpfr_exp; case OP_exp2: return mpfr_exp2; case OP_exp10: return mpfr_exp10;
    case OP_log: return mpfr_log; case OP_log2: return mpfr_log2; case OP_log10: return mpfr_log10;
    case OP_sin: return mpfr_sin; case OP_cos: return mpfr_cos; case OP_tan: return mpfr_tan;
    case OP_asin: return mpfr_asin; case OP_acos: return mpfr_acos; case OP_atan: return mpfr_atan;
    case OP_sinh: return mpfr_sinh; case OP_cosh: return mpfr_cosh; case OP_tanh: return mpfr_tanh;
    case OP_asinh: return mpfr_asinh; case OP_acosh: return mpfr_acosh; case OP_atanh: return mpfr_atanh;
    case OP_sqr: return mpfr_sqr;
    default: return nullptr;
    }
}
// step functions, exact on any Hp
static void step(int op, Hp& r, Hp const& x) {
    switch (op) {
    case OP_sign: mpfr_set_si(r, x.sgn(), MPFR_RNDN); break;
    case OP_ceil: mpfr_rint_ceil(r, x, MPFR_RNDN); break;
    case OP_floor: mpfr_rint_floor(r, x, MPFR_RNDN); break;
    case OP_trunc: mpfr_rint_trunc(r, x, MPFR_RNDN); break;
    case OP_round_ties_to_even: {
        // floor(x+1/2), corrected downward on an odd result at an exact tie
        if (x.inf()) { mpfr_set(r, x, MPFR_RNDN); break; }
        Hp f, d; mpfr_rint_floor(f, x, MPFR_RNDN); mpfr_sub(d, x, f, MPFR_RNDN);
        int c = mpfr_cmp_d(d, 0.5);
        if (c > 0) mpfr_add_ui(f, f, 1, MPFR_RNDN);
        else if (c == 0) { Hp h; mpfr_div_2ui(h, f, 1, MPFR_RNDN); if (!mpfr_integer_p(h)) mpfr_add_ui(f, f, 1, MPFR_RNDN); }
        mpfr_set(r, f, MPFR_RNDN); break;
    }
    case OP_round_ties_to_away: {
        if (x.inf()) { mpfr_set(r, x, MPFR_RNDN); break; }
        Hp a, f, d; mpfr_abs(a, x, MPFR_RNDN); mpfr_rint_floor(f, a, MPFR_RNDN); mpfr_sub(d, a, f, MPFR_RNDN);
        if (mpfr_cmp_d(d, 0.5) >= 0) mpfr_add_ui(f, f, 1, MPFR_RNDN);
        if (x.sgn() < 0) mpfr_neg(f, f, MPFR_RNDN);
        mpfr_set(r, f, MPFR_RNDN); break;
    }
    default: abort();
    }
    if (r.zero()) mpfr_set_zero(r, 1);
}
static bool is_step(int op) { return op == OP_sign || op == OP_ceil || op == OP_floor || op == OP_trunc || op == OP_round_ties_to_even || op == OP_round_ties_to_away; }

bool point(int op, Hp const* x, int p, Hp& lo, Hp& hi) {
    const Hp& a = x[0];
    if (F1 f = f1(op)) {
        switch (op) {
        case OP_sqrt: if (a.sgn() < 0) return false; break;
        case OP_log: case OP_log2: case OP_log10: if (a.sgn() <= 0) return false; break;
        case OP_asin: case OP_acos: if (cmpsi(a, 1) > 0 || cmpsi(a, -1) < 0) return false; break;
        case OP_acosh: if (cmpsi(a, 1) < 0) return false; break;
        case OP_atanh: if (cmpsi(a, 1) >= 0 || cmpsi(a, -1) <= 0) return false; break;
        default: break;
        }
        f(lo, a, MPFR_RNDD); f(hi, a, MPFR_RNDU); return true;
    }
    if (is_step(op)) { step(op, lo, a); mpfr_set(hi, lo, MPFR_RNDN); return true; }
    switch (op) {
    case OP_pos: mpfr_set(lo, a, MPFR_RNDD); mpfr_set(hi, a, MPFR_RNDU); return true;
    case OP_neg: mpfr_neg(lo, a, MPFR_RNDD); mpfr_neg(hi, a, MPFR_RNDU); return true;
    case OP_abs: mpfr_abs(lo, a, MPFR_RNDD); mpfr_abs(hi, a, MPFR_RNDU); return true;
    case OP_recip: if (a.zero()) return false; mpfr_ui_div(lo, 1, a, MPFR_RNDD); mpfr_ui_div(hi, 1, a, MPFR_RNDU); return true;
    case OP_add: mpfr_add(lo, a, x[1], MPFR_RNDD); mpfr_add(hi, a, x[1], MPFR_RNDU); return true;
    case OP_sub: mpfr_sub(lo, a, x[1], MPFR_RNDD); mpfr_sub(hi, a, x[1], MPFR_RNDU); return true;
    case OP_mul: mpfr_mul(lo, a, x[1], MPFR_RNDD); mpfr_mul(hi, a, x[1], MPFR_RNDU); return true;
    case OP_div: if (x[1].zero()) return false; mpfr_div(lo, a, x[1], MPFR_RNDD); mpfr_div(hi, a, x[1], MPFR_RNDU); return true;
    case OP_min: mpfr_min(lo, a, x[1], MPFR_RNDD); mpfr_set(hi, lo, MPFR_RNDU); return true;
    case OP_max: mpfr_max(lo, a, x[1], MPFR_RNDD); mpfr_set(hi, lo, MPFR_RNDU); return true;
    case OP_pow:
        if (a.sgn() < 0 || (a.zero() && x[1].sgn() <= 0)) return false;
        mpfr_pow(lo, a, x[1], MPFR_RNDD); mpfr_pow(hi, a, x[1], MPFR_RNDU); return true;
    case OP_atan2: {
        if (a.zero() && x[1].zero()) return false;
        Hp y(a), xx(x[1]); if (y.zero()) mpfr_set_zero(y, 1);
        mpfr_atan2(lo, y, xx, MPFR_RNDD); mpfr_atan2(hi, y, xx, MPFR_RNDU); return true; }
    case OP_pown:
        if (p < 0 && a.zero()) return false;
        mpfr_pow_si(lo, a, p, MPFR_RNDD); mpfr_pow_si(hi, a, p, MPFR_RNDU); return true;
    case OP_fma: mpfr_fma(lo, a, x[1], x[2], MPFR_RNDD); mpfr_fma(hi, a, x[1], x[2], MPFR_RNDU); return true;
    }
    return false;
}

// ---------------------------------------------------------------- ranges
static void mn(Hp& m, Hp const& c, bool& first) { if (first || mpfr_less_p(c, m)) mpfr_set(m, c, MPFR_RNDD); first = false; }
static void mx(Hp& m, Hp const& c, bool& first) { if (first || mpfr_greater_p(c, m)) mpfr_set(m, c, MPFR_RNDU); first = false; }

// directed product with 0 * inf = 0
static void mul0(Hp& r, Hp const& a, Hp const& b, mpfr_rnd_t rnd) {
    if (a.zero() || b.zero()) mpfr_set_zero(r, 1); else mpfr_mul(r, a, b, rnd);
}
// directed quotient a / b, b != 0, with inf/inf handled as a * (1/inf) = 0
static void div0(Hp& r, Hp const& a, Hp const& b, mpfr_rnd_t rnd) {
    if (b.inf()) mpfr_set_zero(r, 1); else mpfr_div(r, a, b, rnd);
}
// corners with monotone-in-each-argument function
static void mono(int op, Range& R, Hp const& l, Hp const& h, bool dec) {
    F1 f = f1(op); R.r.empty = false;
    f(R.r.lo, dec ? h : l, MPFR_RNDD); f(R.r.hi, dec ? l : h, MPFR_RNDU);
}

// [l,h] is mapped to the single value v: does it contain a point of discontinuity (then at an end)?
static bool touches_jump(int op, Hp const& l, Hp const& h, Hp const& v) {
    auto half = [](Hp const& x) { if (!mpfr_number_p(x.v) || mpfr_integer_p(x.v)) return false; Hp t; mpfr_mul_2ui(t, x, 1, MPFR_RNDN); return mpfr_integer_p(t) != 0; };
    switch (op) {
    case OP_sign: return v.zero();
    case OP_ceil: return mpfr_equal_p(h, v);
    case OP_floor: return mpfr_equal_p(l, v);
    case OP_trunc: return (!l.zero() && mpfr_equal_p(l, v)) || (!h.zero() && mpfr_equal_p(h, v));
    default: return half(l) || half(h);
    }
}
Range range(int op, IV const* a, int p) {
    Range R; R.ldec = 4;
    for (int i = 0; i < arity(op); ++i) if (a[i].empty) return R;
    Hp const& l = a[0].lo; Hp const& h = a[0].hi;
    Hp t;
    if (is_step(op)) {
        R.r.empty = false; step(op, R.r.lo, l); step(op, R.r.hi, h);
        R.ldec = !mpfr_equal_p(R.r.lo, R.r.hi) ? 8 : touches_jump(op, l, h, R.r.lo) ? 12 : 16;
        return R;
    }
    switch (op) {
    case OP_pos: R.r = a[0]; R.ldec = 16; break;
    case OP_neg: R.r.empty = false; mpfr_neg(R.r.lo, h, MPFR_RNDN); mpfr_neg(R.r.hi, l, MPFR_RNDN); R.ldec = 16; break;
    case OP_abs: case OP_sqr: {
        R.r.empty = false; R.ldec = 16; Hp u, v; mpfr_abs(u, l, MPFR_RNDN); mpfr_abs(v, h, MPFR_RNDN);
        if (l.sgn() <= 0 && h.sgn() >= 0) mpfr_set_zero(R.r.lo, 1); else mpfr_min(R.r.lo, u, v, MPFR_RNDN);
        mpfr_max(R.r.hi, u, v, MPFR_RNDN);
        if (op == OP_sqr) { mpfr_sqr(R.r.lo, R.r.lo, MPFR_RNDD); mpfr_sqr(R.r.hi, R.r.hi, MPFR_RNDU); }
        break; }
    case OP_exp: case OP_exp2: case OP_exp10: case OP_atan: case OP_sinh: case OP_tanh: case OP_asinh:
        mono(op, R, l, h, false); R.ldec = 16; break;
    case OP_cosh:
        R.r.empty = false; R.ldec = 16;
        { Hp u, v; mpfr_abs(u, l, MPFR_RNDN); mpfr_abs(v, h, MPFR_RNDN);
          if (l.sgn() <= 0 && h.sgn() >= 0) mpfr_set_ui(R.r.lo, 1, MPFR_RNDN); else { mpfr_min(t, u, v, MPFR_RNDN); mpfr_cosh(R.r.lo, t, MPFR_RNDD); }
          mpfr_max(t, u, v, MPFR_RNDN); mpfr_cosh(R.r.hi, t, MPFR_RNDU); }
        break;
    case OP_sqrt:
        if (h.sgn() < 0) return R;
        R.ldec = l.sgn() >= 0 ? 16 : 4;
        mpfr_set_zero(t, 1); mono(op, R, l.sgn() > 0 ? l : t, h, false); break;
    case OP_log: case OP_log2: case OP_log10:
        if (h.sgn() <= 0) return R;
        R.ldec = l.sgn() > 0 ? 16 : 4;
        mpfr_set_zero(t, 1); mono(op, R, l.sgn() > 0 ? l : t, h, false); break;
    case OP_asin: case OP_acos: case OP_atanh: {
        bool open = op == OP_atanh; Hp m1, p1; mpfr_set_si(m1, -1, MPFR_RNDN); mpfr_set_si(p1, 1, MPFR_RNDN);
        int cl = mpfr_cmp(h, m1), ch = mpfr_cmp(l, p1);
        if (cl < 0 || ch > 0 || (open && (cl == 0 || ch == 0))) return R;
        bool in = open ? (mpfr_cmp(l, m1) > 0 && mpfr_cmp(h, p1) < 0) : (mpfr_cmp(l, m1) >= 0 && mpfr_cmp(h, p1) <= 0);
        R.ldec = in ? 16 : 4;
        mono(op, R, mpfr_cmp(l, m1) > 0 ? l : m1, mpfr_cmp(h, p1) < 0 ? h : p1, op == OP_acos);
        break; }
    case OP_acosh: {
        Hp p1; mpfr_set_si(p1, 1, MPFR_RNDN);
        if (mpfr_cmp(h, p1) < 0) return R;
        R.ldec = mpfr_cmp(l, p1) >= 0 ? 16 : 4;
        mono(op, R, mpfr_cmp(l, p1) > 0 ? l : p1, h, false); break; }
    case OP_recip:
        if (l.zero() && h.zero()) return R;
        R.r.empty = false; R.ldec = l.sgn() > 0 || h.sgn() < 0 ? 16 : 4;
        if (l.sgn() < 0 && h.sgn() > 0) { mpfr_set_inf(R.r.lo, -1); mpfr_set_inf(R.r.hi, 1); }
        else {
            if (h.zero()) mpfr_set_inf(R.r.lo, -1); else mpfr_ui_div(R.r.lo, 1, h, MPFR_RNDD);
            if (l.zero()) mpfr_set_inf(R.r.hi, 1); else mpfr_ui_div(R.r.hi, 1, l, MPFR_RNDU);
        }
        break;
    case OP_sin: case OP_cos: {
        R.r.empty = false; R.ldec = 16;
        mpfr_set_si(R.r.lo, -1, MPFR_RNDN); mpfr_set_si(R.r.hi, 1, MPFR_RNDN);
        if (l.inf() || h.inf()) break;
        mpz_t qa, qb; mpz_init(qa); mpz_init(qb); quadrant(qa, l); quadrant(qb, h);
        bool max = has_k(qa, qb, op == OP_sin ? 1 : 0, 4), min = has_k(qa, qb, op == OP_sin ? 3 : 2, 4);
        mpz_clear(qa); mpz_clear(qb);
        F1 f = f1(op); Hp u, v;
        if (!min) { f(u, l, MPFR_RNDD); f(v, h, MPFR_RNDD); mpfr_min(R.r.lo, u, v, MPFR_RNDN); }
        if (!max) { f(u, l, MPFR_RNDU); f(v, h, MPFR_RNDU); mpfr_max(R.r.hi, u, v, MPFR_RNDN); }
        break; }
    case OP_tan: {
        R.r.empty = false; bool pole = l.inf() || h.inf();
        if (!pole) { mpz_t qa, qb; mpz_init(qa); mpz_init(qb); quadrant(qa, l); quadrant(qb, h); pole = has_k(qa, qb, 1, 2); mpz_clear(qa); mpz_clear(qb); }
        if (pole) { mpfr_set_inf(R.r.lo, -1); mpfr_set_inf(R.r.hi, 1); R.ldec = 4; }
        else { mpfr_tan(R.r.lo, l, MPFR_RNDD); mpfr_tan(R.r.hi, h, MPFR_RNDU); R.ldec = 16; }
        break; }
    case OP_add: R.r.empty = false; R.ldec = 16; mpfr_add(R.r.lo, l, a[1].lo, MPFR_RNDD); mpfr_add(R.r.hi, h, a[1].hi, MPFR_RNDU); break;
    case OP_sub: R.r.empty = false; R.ldec = 16; mpfr_sub(R.r.lo, l, a[1].hi, MPFR_RNDD); mpfr_sub(R.r.hi, h, a[1].lo, MPFR_RNDU); break;
    case OP_min: R.r.empty = false; R.ldec = 16; mpfr_min(R.r.lo, l, a[1].lo, MPFR_RNDD); mpfr_min(R.r.hi, h, a[1].hi, MPFR_RNDU); break;
    case OP_max: R.r.empty = false; R.ldec = 16; mpfr_max(R.r.lo, l, a[1].lo, MPFR_RNDD); mpfr_max(R.r.hi, h, a[1].hi, MPFR_RNDU); break;
    case OP_mul: {
        R.r.empty = false; R.ldec = 16; bool f0 = true, f2 = true;
        for (int i = 0; i < 4; ++i) {
            Hp const& x = i & 1 ? h : l; Hp const& y = i & 2 ? a[1].hi : a[1].lo;
            mul0(t, x, y, MPFR_RNDD); mn(R.r.lo, t, f0); mul0(t, x, y, MPFR_RNDU); mx(R.r.hi, t, f2);
        }
        break; }
    case OP_div: {
        Hp const& b0 = a[1].lo; Hp const& b1 = a[1].hi;
        if (b0.zero() && b1.zero()) return R;
        R.r.empty = false; R.ldec = b0.sgn() > 0 || b1.sgn() < 0 ? 16 : 4;
        if (l.zero() && h.zero()) break;                    // {0}
        if (b0.sgn() < 0 && b1.sgn() > 0) { mpfr_set_inf(R.r.lo, -1); mpfr_set_inf(R.r.hi, 1); break; }
        // denominators on one side of zero: x * (1/b), 1/0 = inf on that side
        bool f0 = true, f2 = true; int side = b1.sgn() > 0 ? 1 : -1;
        for (int i = 0; i < 4; ++i) {
            Hp const& x = i & 1 ? h : l; Hp const& y = i & 2 ? b1 : b0;
            if (y.zero()) {
                if (x.zero()) { mpfr_set_zero(t, 1); } else mpfr_set_inf(t, x.sgn() * side);
                mn(R.r.lo, t, f0); mx(R.r.hi, t, f2);
            } else {
                div0(t, x, y, MPFR_RNDD); mn(R.r.lo, t, f0); div0(t, x, y, MPFR_RNDU); mx(R.r.hi, t, f2);
            }
        }
        break; }
    case OP_fma: {
        R.r.empty = false; R.ldec = 16; bool f0 = true, f2 = true; Hp const& z0 = a[2].lo; Hp const& z1 = a[2].hi;
        for (int i = 0; i < 4; ++i) {
            Hp const& x = i & 1 ? h : l; Hp const& y = i & 2 ? a[1].hi : a[1].lo;
            bool zero = x.zero() || y.zero(), inf = !zero && (x.inf() || y.inf());
            if (z0.inf()) mpfr_set(t, z0, MPFR_RNDN);
            else if (zero) mpfr_set(t, z0, MPFR_RNDN);
            else if (inf) mpfr_set_inf(t, x.sgn() * y.sgn());
            else mpfr_fma(t, x, y, z0, MPFR_RNDD);
            mn(R.r.lo, t, f0);
            if (z1.inf()) mpfr_set(t, z1, MPFR_RNDN);
            else if (zero) mpfr_set(t, z1, MPFR_RNDN);
            else if (inf) mpfr_set_inf(t, x.sgn() * y.sgn());
            else mpfr_fma(t, x, y, z1, MPFR_RNDU);
            mx(R.r.hi, t, f2);
        }
        break; }
    case OP_pown: {
        if (p == 0) { R.r.empty = false; R.ldec = 16; mpfr_set_ui(R.r.lo, 1, MPFR_RNDN); mpfr_set_ui(R.r.hi, 1, MPFR_RNDN); break; }
        bool has0 = l.sgn() <= 0 && h.sgn() >= 0;
        if (p > 0) {
            R.r.empty = false; R.ldec = 16;
            if (p % 2) { mpfr_pow_si(R.r.lo, l, p, MPFR_RNDD); mpfr_pow_si(R.r.hi, h, p, MPFR_RNDU); }
            else {
                Hp u, v; mpfr_abs(u, l, MPFR_RNDN); mpfr_abs(v, h, MPFR_RNDN);
                if (has0) mpfr_set_zero(R.r.lo, 1); else { mpfr_min(t, u, v, MPFR_RNDN); mpfr_pow_si(R.r.lo, t, p, MPFR_RNDD); }
                mpfr_max(t, u, v, MPFR_RNDN); mpfr_pow_si(R.r.hi, t, p, MPFR_RNDU);
            }
        } else {
            if (l.zero() && h.zero()) return R;
            R.r.empty = false; R.ldec = has0 ? 4 : 16;
            if (p % 2) {
                if (l.sgn() < 0 && h.sgn() > 0) { mpfr_set_inf(R.r.lo, -1); mpfr_set_inf(R.r.hi, 1); }
                else {
                    if (h.zero()) mpfr_set_inf(R.r.lo, -1); else mpfr_pow_si(R.r.lo, h, p, MPFR_RNDD);
                    if (l.zero()) mpfr_set_inf(R.r.hi, 1); else mpfr_pow_si(R.r.hi, l, p, MPFR_RNDU);
                }
            } else {
                Hp u, v; mpfr_abs(u, l, MPFR_RNDN); mpfr_abs(v, h, MPFR_RNDN);
                mpfr_max(t, u, v, MPFR_RNDN); mpfr_pow_si(R.r.lo, t, p, MPFR_RNDD);
                if (has0) mpfr_set_inf(R.r.hi, 1); else { mpfr_min(t, u, v, MPFR_RNDN); mpfr_pow_si(R.r.hi, t, p, MPFR_RNDU); }
            }
        }
        if (R.r.lo.zero()) mpfr_set_zero(R.r.lo, 1);
        if (R.r.hi.zero()) mpfr_set_zero(R.r.hi, 1);
        break; }
    case OP_pow: {
        Hp const& y0 = a[1].lo; Hp const& y1 = a[1].hi;
        if (h.sgn() < 0) return R;
        R.ldec = l.sgn() > 0 || (l.zero() && y0.sgn() > 0) ? 16 : 4;
        if (h.zero()) {                                       // only x = 0 remains: needs y > 0
            if (y1.sgn() <= 0) return R;
            R.r.empty = false; break;                         // {0}
        }
        R.r.empty = false; Hp z; Hp const& x0 = l.sgn() > 0 ? l : z;
        bool f0 = true, f2 = true;
        for (int i = 0; i < 4; ++i) {
            Hp const& x = i & 1 ? h : x0; Hp const& y = i & 2 ? y1 : y0;
            mpfr_pow(t, x, y, MPFR_RNDD); mn(R.r.lo, t, f0); mpfr_pow(t, x, y, MPFR_RNDU); mx(R.r.hi, t, f2);
        }
        break; }
    case OP_atan2: {
        // a[0] = y, a[1] = x
        Hp const& x0 = a[1].lo; Hp const& x1 = a[1].hi;
        bool only0 = l.zero() && h.zero() && x0.zero() && x1.zero();
        if (only0) return R;
        R.r.empty = false;
        bool y0in = l.sgn() <= 0 && h.sgn() >= 0, x0in = x0.sgn() <= 0 && x1.sgn() >= 0;
        bool cut = y0in && x0.sgn() < 0;                      // meets the negative x axis
        bool below = cut && l.sgn() < 0;
        R.ldec = y0in && x0in ? 4 : below ? 8 : cut ? 12 : 16;
        bool f0 = true, f2 = true;
        if (below) { mpfr_const_pi(t, MPFR_RNDU); mpfr_neg(t, t, MPFR_RNDN); mn(R.r.lo, t, f0); }
        if (cut) { mpfr_const_pi(t, MPFR_RNDU); mx(R.r.hi, t, f2); }
        for (int i = 0; i < 4; ++i) {
            Hp y(i & 1 ? h : l), x(i & 2 ? x1 : x0);
            if (y.zero()) mpfr_set_zero(y, 1);
            if (x.zero()) mpfr_set_zero(x, 1);
            if (y.zero() && x.zero()) continue;
            mpfr_atan2(t, y, x, MPFR_RNDD); mn(R.r.lo, t, f0);
            mpfr_atan2(t, y, x, MPFR_RNDU); mx(R.r.hi, t, f2);
        }
        break; }
    default: abort();
    }
    if (!R.r.empty) {
        if (R.r.lo.zero()) mpfr_set_zero(R.r.lo, 1);
        if (R.r.hi.zero()) mpfr_set_zero(R.r.hi, 1);
    }
    return R;
}

// ---------------------------------------------------------------- sets
IV hull2(IV const& a, IV const& b) {
    if (a.empty) return b;
    if (b.empty) return a;
    IV r(a); if (cmp(b.lo, r.lo) < 0) r.lo = b.lo;
    if (cmp(b.hi, r.hi) > 0) r.hi = b.hi;
    return r;
}
IV inter(IV const& a, IV const& b) {
    IV r; if (a.empty || b.empty) return r;
    r = a; if (cmp(b.lo, r.lo) > 0) r.lo = b.lo;
    if (cmp(b.hi, r.hi) < 0) r.hi = b.hi;
    if (cmp(r.lo, r.hi) > 0) return IV();
    return r;
}

IV cancel(int op, IV const& a, IV const& b0) {
    IV b(b0);
    if (op == OP_cancel_plus && !b.empty) { Hp t(b.lo); mpfr_neg(b.lo, b.hi, MPFR_RNDN); mpfr_neg(b.hi, t, MPFR_RNDN); }
    IV ent; ent.empty = false; mpfr_set_inf(ent.lo, -1); mpfr_set_inf(ent.hi, 1);
    bool aub = !a.empty && (a.lo.inf() || a.hi.inf()), bub = !b.empty && (b.lo.inf() || b.hi.inf());
    if (aub || bub) return ent;
    if (a.empty) return IV();
    if (b.empty) return ent;
    // exact widths: bounds have exponents >= -16445 and <= 16384
    Hp wa(34000), wb(34000); mpfr_sub(wa, a.hi, a.lo, MPFR_RNDN); mpfr_sub(wb, b.hi, b.lo, MPFR_RNDN);
    if (mpfr_cmp(wa, wb) < 0) return ent;
    IV r; r.empty = false; mpfr_sub(r.lo, a.lo, b.lo, MPFR_RNDD); mpfr_sub(r.hi, a.hi, b.hi, MPFR_RNDU);
    return r;
}

// ---------------------------------------------------------------- preimages
static void add_br(Pre& o, Hp const& lod, Hp const& lou, Hp const& hid, Hp const& hiu, bool lopen = false, bool hopen = false) {
    Br b; b.lod = lod; b.lou = lou; b.hid = hid; b.hiu = hiu; b.lo_open = lopen; b.hi_open = hopen; o.br.push_back(b);
}
static Br neg_br(Br const& b) {
    Br r; mpfr_neg(r.lod, b.hiu, MPFR_RNDN); mpfr_neg(r.lou, b.hid, MPFR_RNDN); mpfr_neg(r.hid, b.lou, MPFR_RNDN); mpfr_neg(r.hiu, b.lod, MPFR_RNDN);
    r.lo_open = b.hi_open; r.hi_open = b.lo_open; return r;
}
static void div_enc(Hp& d, Hp& u, Hp const& a, Hp const& b) { div0(d, a, b, MPFR_RNDD); div0(u, a, b, MPFR_RNDU); }

void preimage(int op, IV const& c, IV const& x, IV const* b, int p, Pre& out) {
    if (c.empty || x.empty) return;
    if (op >= OP_sqr_rev && op <= OP_pown_rev) op += OP_sqr_revx - OP_sqr_rev;
    if (op == OP_mul_rev || op == OP_mul_rev_to_pair) op = OP_mul_revx;
    Hp z; Hp minf, pinf; mpfr_set_inf(minf, -1); mpfr_set_inf(pinf, 1);
    switch (op) {
    case OP_sqr_revx: case OP_abs_revx: case OP_cosh_revx: {
        Hp base; if (op == OP_cosh_revx) mpfr_set_ui(base, 1, MPFR_RNDN);
        if (cmp(c.hi, base) < 0) return;
        Hp c0 = cmp(c.lo, base) > 0 ? c.lo : base;
        Br r;
        auto g = [&](Hp& d, Hp& u, Hp const& v) {
            if (op == OP_abs_revx) { d = v; u = v; }
            else if (op == OP_sqr_revx) { mpfr_sqrt(d, v, MPFR_RNDD); mpfr_sqrt(u, v, MPFR_RNDU); }
            else { mpfr_acosh(d, v, MPFR_RNDD); mpfr_acosh(u, v, MPFR_RNDU); }
        };
        g(r.lod, r.lou, c0); g(r.hid, r.hiu, c.hi);
        out.br.push_back(neg_br(r)); out.br.push_back(r);
        break; }
    case OP_pown_revx: {
        if (p == 0) { if (cmpsi(c.lo, 1) <= 0 && cmpsi(c.hi, 1) >= 0) add_br(out, minf, minf, pinf, pinf); return; }
        long n = p; bool odd = n % 2 != 0;
        auto root = [&](Hp& d, Hp& u, Hp const& v) {             // v >= 0 ; v^(1/n)
            if (n > 0) { mpfr_rootn_ui(d, v, (unsigned long)n, MPFR_RNDD); mpfr_rootn_ui(u, v, (unsigned long)n, MPFR_RNDU); }
            else if (v.zero()) { mpfr_set_inf(d, 1); mpfr_set_inf(u, 1); }
            else if (v.inf()) { mpfr_set_zero(d, 1); mpfr_set_zero(u, 1); }
            else { mpfr_rootn_si(d, v, n, MPFR_RNDD); mpfr_rootn_si(u, v, n, MPFR_RNDU); }
        };
        // solutions x > 0 (x >= 0 for n > 0) from the non-negative part of c
        auto positive = [&](Hp const& lo, Hp const& hi, Br& r) -> bool {
            if (hi.sgn() < 0) return false;
            Hp l0 = lo.sgn() > 0 ? lo : Hp();
            if (n > 0) { root(r.lod, r.lou, l0); root(r.hid, r.hiu, hi); }
            else {
                if (hi.zero()) return false;                    // x^n > 0
                root(r.lod, r.lou, hi); root(r.hid, r.hiu, l0);
                r.lo_open = hi.inf();                            // x = 0 is not a solution
            }
            return true;
        };
        Br rp, rn; bool hasp = positive(c.lo, c.hi, rp);
        if (odd) {
            Hp nl, nh; mpfr_neg(nl, c.hi, MPFR_RNDN); mpfr_neg(nh, c.lo, MPFR_RNDN);
            if (positive(nl, nh, rn)) out.br.push_back(neg_br(rn));
        } else if (hasp) out.br.push_back(neg_br(rp));
        if (hasp) out.br.push_back(rp);
        break; }
    case OP_sin_revx: case OP_cos_revx: case OP_tan_revx: {
        Hp c0(c.lo), c1(c.hi);
        if (op != OP_tan_revx) {
            if (cmpsi(c.lo, 1) > 0 || cmpsi(c.hi, -1) < 0) return;
            if (cmpsi(c0, -1) < 0) mpfr_set_si(c0, -1, MPFR_RNDN);
            if (cmpsi(c1, 1) > 0) mpfr_set_si(c1, 1, MPFR_RNDN);
        }
        // base branch offsets within one half period
        Hp ad, au, bd, bu;
        F1 inv = op == OP_sin_revx ? mpfr_asin : op == OP_cos_revx ? mpfr_acos : mpfr_atan;
        bool dec = op == OP_cos_revx;
        inv(ad, dec ? c1 : c0, MPFR_RNDD); inv(au, dec ? c1 : c0, MPFR_RNDU);
        inv(bd, dec ? c0 : c1, MPFR_RNDD); inv(bu, dec ? c0 : c1, MPFR_RNDU);
        out.unb_lo = x.lo.inf(); out.unb_hi = x.hi.inf();
        std::vector<std::string> done;
        for (int end = 0; end < 2; ++end) {
            Hp const& e = end ? x.hi : x.lo;
            mpz_t k, kk, k2; mpz_init(k); mpz_init(kk); mpz_init(k2);
            if (e.inf()) mpz_set_ui(k, 0); else { quadrant(k, e); mpz_fdiv_q_2exp(k, k, 1); }   // floor(e / pi)
            mpfr_prec_t prec = PREC + std::max<mpfr_exp_t>(0, e.inf() || e.zero() ? 0 : mpfr_get_exp(e.v));
            if (!e.inf()) for (int d = -2; d <= 3; ++d) {
                if (d < 0) mpz_sub_ui(kk, k, -d); else mpz_add_ui(kk, k, d);
                mpz_mul_ui(k2, kk, 2);
                Hp kl, kh; kpi2(k2, kl, kh, prec + 64);
                Hp pd(prec), pu(prec), qd(prec), qu(prec);
                bool oddk = mpz_odd_p(kk);
                bool lopen = false, hopen = false;
                if (op == OP_tan_revx) { lopen = c0.inf(); hopen = c1.inf(); }
                if (op == OP_sin_revx && oddk) {
                    mpfr_sub(pd, kl, bu, MPFR_RNDD); mpfr_sub(pu, kh, bd, MPFR_RNDU);
                    mpfr_sub(qd, kl, au, MPFR_RNDD); mpfr_sub(qu, kh, ad, MPFR_RNDU);
                } else if (op == OP_cos_revx && oddk) {
                    mpz_add_ui(k2, k2, 2); kpi2(k2, kl, kh, prec + 64);              // (k+1) pi - acos
                    mpfr_sub(pd, kl, bu, MPFR_RNDD); mpfr_sub(pu, kh, bd, MPFR_RNDU);
                    mpfr_sub(qd, kl, au, MPFR_RNDD); mpfr_sub(qu, kh, ad, MPFR_RNDU);
                } else {
                    mpfr_add(pd, kl, ad, MPFR_RNDD); mpfr_add(pu, kh, au, MPFR_RNDU);
                    mpfr_add(qd, kl, bd, MPFR_RNDD); mpfr_add(qu, kh, bu, MPFR_RNDU);
                }
                char* s = mpz_get_str(nullptr, 16, kk); std::string key(s); free(s);
                if (std::find(done.begin(), done.end(), key) != done.end()) continue;
                done.push_back(key);
                add_br(out, pd, pu, qd, qu, lopen, hopen);
            }
            mpz_clear(k); mpz_clear(kk); mpz_clear(k2);
        }
        if (out.br.empty()) { add_br(out, minf, minf, pinf, pinf); break; }          // x is the entire line
        std::sort(out.br.begin(), out.br.end(), [](Br const& a, Br const& b2) { return mpfr_less_p(a.lod.v, b2.lod.v) != 0; });
        break; }
    case OP_mul_revx: {
        IV const& B = *b;
        if (B.empty) return;
        bool b0 = B.lo.sgn() <= 0 && B.hi.sgn() >= 0, c0 = c.lo.sgn() <= 0 && c.hi.sgn() >= 0;
        if (b0 && c0) { add_br(out, minf, minf, pinf, pinf); return; }
        if (b0 && B.lo.zero() && B.hi.zero()) return;
        if (!b0) {
            // c / b, one sided b: use corners
            Br r; bool f0 = true, f1_ = true, f2 = true, f3 = true; Hp t;
            for (int i = 0; i < 4; ++i) {
                Hp const& u = i & 1 ? c.hi : c.lo; Hp const& v = i & 2 ? B.hi : B.lo;
                div0(t, u, v, MPFR_RNDD); mn(r.lod, t, f0); mx(r.hid, t, f2);
                div0(t, u, v, MPFR_RNDU); mn(r.lou, t, f1_); mx(r.hiu, t, f3);
            }
            // a zero bound not attained (b unbounded, c not containing 0) is open
            if (!c0) { r.lo_open = r.lod.zero() && r.lou.zero(); r.hi_open = r.hid.zero() && r.hiu.zero(); }
            out.br.push_back(r); return;
        }
        // 0 in b, 0 not in c; n = bound of c next to zero
        bool pos = c.lo.sgn() > 0; Hp const& n = pos ? c.lo : c.hi;
        // negative solutions come from b of opposite sign
        Hp const& bneg = pos ? B.lo : B.hi; Hp const& bpos = pos ? B.hi : B.lo;
        if (!bneg.zero()) { Br r; r.lod = minf; r.lou = minf; div_enc(r.hid, r.hiu, n, bneg); r.hi_open = bneg.inf(); out.br.push_back(r); }
        if (!bpos.zero()) { Br r; r.hid = pinf; r.hiu = pinf; div_enc(r.lod, r.lou, n, bpos); r.lo_open = bpos.inf(); out.br.push_back(r); }
        break; }
    default: abort();
    }
}

void solve(Pre const& pre, IV const& x, Sol& s) {
    s.empty = true; s.unsure = false;
    if (x.empty) return;
    for (size_t i = 0; i < pre.br.size(); ++i) {
        Br const& b = pre.br[i];
        // is x ∩ branch certainly nonempty?  certainly empty?
        int cl = b.lo_open ? (mpfr_cmp(x.hi.v, b.lou.v) > 0) : (mpfr_cmp(x.hi.v, b.lou.v) >= 0);
        int ch = b.hi_open ? (mpfr_cmp(x.lo.v, b.hid.v) < 0) : (mpfr_cmp(x.lo.v, b.hid.v) <= 0);
        int xl = b.lo_open ? (mpfr_cmp(x.hi.v, b.lod.v) <= 0) : (mpfr_cmp(x.hi.v, b.lod.v) < 0);
        int xh = b.hi_open ? (mpfr_cmp(x.lo.v, b.hiu.v) >= 0) : (mpfr_cmp(x.lo.v, b.hiu.v) > 0);
        // a branch that may itself be empty (lo > hi) cannot occur by construction
        if (xl || xh) continue;
        if (!(cl && ch)) { s.unsure = true; continue; }
        Hp const& ld_ = mpfr_cmp(x.lo.v, b.lod.v) > 0 ? x.lo : b.lod; Hp const& lu_ = mpfr_cmp(x.lo.v, b.lou.v) > 0 ? x.lo : b.lou;
        Hp const& hd_ = mpfr_cmp(x.hi.v, b.hid.v) < 0 ? x.hi : b.hid; Hp const& hu_ = mpfr_cmp(x.hi.v, b.hiu.v) < 0 ? x.hi : b.hiu;
        if (s.empty) { s.lod = ld_; s.lou = lu_; s.hid = hd_; s.hiu = hu_; s.empty = false; }
        else {
            if (cmp(ld_, s.lod) < 0) s.lod = ld_;
            if (cmp(lu_, s.lou) < 0) s.lou = lu_;
            if (cmp(hd_, s.hid) > 0) s.hid = hd_;
            if (cmp(hu_, s.hiu) > 0) s.hiu = hu_;
        }
    }
    if (pre.unb_lo) { s.empty = false; mpfr_set_inf(s.lod, -1); mpfr_set_inf(s.lou, -1); if (pre.unb_hi) { mpfr_set_inf(s.hid, 1); mpfr_set_inf(s.hiu, 1); } }
    if (pre.unb_hi) { s.empty = false; mpfr_set_inf(s.hid, 1); mpfr_set_inf(s.hiu, 1); }
}

IV outer(Pre const& pre, IV const& x, int t) {
    IV r;
    for (size_t i = 0; i < pre.br.size(); ++i) {
        IV b; b.empty = false;
        set_ld(b.lo, round_to(t, pre.br[i].lod.v, 'D')); set_ld(b.hi, round_to(t, pre.br[i].hiu.v, 'U'));
        r = hull2(r, inter(x, b));
    }
    if (pre.unb_lo && !x.empty) { r = hull2(r, inter(x, r.empty ? x : r)); r.empty = false; mpfr_set_inf(r.lo, -1); }
    if (pre.unb_hi && !x.empty) { if (r.empty) r = x; mpfr_set_inf(r.hi, 1); }
    return r;
}

// ---------------------------------------------------------------- text
std::string show(Hp const& x) { char b[200]; mpfr_snprintf(b, sizeof b, "%.40Rg", x.v); return b; }
std::string show(IV const& x) { return x.empty ? "[empty]" : "[" + show(x.lo) + "," + show(x.hi) + "]"; }
std::string hex(ld x) { char b[80]; snprintf(b, sizeof b, "%La", x); return b; }

}
