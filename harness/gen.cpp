#include "mon.hpp"
#include <climits>
#include <algorithm>
namespace mon {
using namespace ref;
static ld pi_val(int t, Rng& r, int kind) {
    // a bound next to k * pi/2
    long k; 
    switch (kind) {
    case 0: k = r.range(0, 12); break;
    case 1: k = r.range(0, 3000); break;
    default: k = (long)(r.next() >> r.range(8, 60)); break;
    }
    Hp a, b; mpz_t z; mpz_init_set_si(z, k); Wide w; kpi2(z, a, b, 400); mpz_clear(z);
    ld v = round_to(t, a.v, r.chance(50) ? 'D' : 'U');
    if (r.chance(30)) v = next_of(t, v, r.chance(50) ? INFINITY : -INFINITY);
    return r.chance(50) ? v : -v;
}
static ld round_near(int t, ld v) { Hp h; Wide w; set_ld(h, v); return round_to(t, h.v, 'N'); }
ld value(Rng& r, int t, int hint) {
    Fmt f = fmt(t); ld v;
    int k = r.range(0, 99);
    bool sgn = r.chance(50);
    if (k < 8) { static const ld s[] = {0, 1, 2, 0.5L, 1.5L, 3, 4, 0.25L, 10, 100}; v = s[r.below(10)]; }
    else if (k < 12) v = min_sub_of(t) * (ld)r.range(1, 5);
    else if (k < 15) { v = min_norm_of(t); int j = r.range(0, 2); if (j == 1) v = next_of(t, v, 0); if (j == 2) v = next_of(t, v, 1); }
    else if (k < 19) { v = max_of(t); for (int j = r.range(0, 3); j > 0; --j) v = next_of(t, v, 0); if (r.chance(25)) v /= 2; }
    else if (k < 20) {                                           // limits of the integer types and of the significands
        static const int e[] = {7, 8, 15, 16, 24, 31, 31, 31, 32, 32, 53, 63, 63, 64}; v = std::ldexp((ld)1, e[r.below(14)]); if (r.chance(50)) v += (ld)r.range(-2, 2) / 2; if (r.chance(20)) v = next_of(t, round_near(t, v), r.chance(50) ? INFINITY : 0);
    }
    else if (k < 26) { v = (ld)r.range(0, 40) / 2; }
    else if (k < 30) { v = (ld)r.range(0, 4000) / 4; }
    else if (k < 40) {                                           // power of two +- ulps
        int e = r.chance(60) ? r.range(-12, 12) : r.range(f.emin_lsb, f.emax - 1);
        v = std::ldexp((ld)1, e); int j = r.range(-2, 2);
        for (; j > 0; --j) v = next_of(t, v, INFINITY);
        for (; j < 0; ++j) v = next_of(t, v, 0);
    }
    else if (k < 48) v = std::fabs(pi_val(t, r, r.chance(70) ? 0 : r.range(1, 2)));
    else if (k < 70) v = std::ldexp((ld)(r.next() >> 1), -63 + r.range(-8, 8));   // moderate
    else if (k < 76) v = std::ldexp((ld)(r.next() >> 1), -63 + r.range(-2 * f.p, 2 * f.p));                // where shortcuts for small and large arguments would start
    else if (k < 80) v = std::ldexp((ld)(r.next() >> 1), r.range(f.emin_lsb - 64, f.emax - 64));
    else if (k < 84) {                                           // thresholds of the exponential functions
        static const ld base[] = {0.69314718055994530942L, 1, 0.30102999566398119521L};
        ld th = (r.chance(50) ? (ld)f.emax : (ld)-f.emin_lsb + r.range(-1, 1)) * base[r.below(3)];
        if (r.chance(20)) th = (ld)(f.emax - f.p) * base[r.below(3)];
        if (r.chance(20)) th += 0.69314718055994530942L;
        v = round_near(t, th); for (int j = r.range(0, 3); j > 0; --j) v = next_of(t, v, r.chance(50) ? INFINITY : 0);
    }
    else if (k < 88) { v = 1; for (int j = r.range(1, 4); j > 0; --j) v = next_of(t, v, r.chance(50) ? 2 : 0); }
    else if (k < 91) { v = std::ldexp((ld)1, f.p - 1 + r.range(-2, 2)) + (ld)r.range(0, 8) / 2 - 1; }   // around the integer/half-integer limit
    else if (k < 94) { ld b = (ld)r.range(2, 12); v = 1; for (int j = r.range(1, 12); j > 0; --j) v *= b; if (r.chance(30)) v = 1 / v; if (r.chance(30)) v = next_of(TF, v, r.chance(50) ? INFINITY : 0); }
    else if (k < 97) { v = (float)std::ldexp((ld)(r.next() >> 40), -24 + r.range(-10, 10)); }            // narrow type value
    else { v = std::sqrt((ld)r.range(1, 2000)) * (r.chance(50) ? 1 : 1.0L / r.range(1, 100)); }
    if (hint >= 0 && r.chance(45)) {
        switch (hint) {
        case OP_asin: case OP_acos: case OP_atanh: case OP_asin + 1000: 
            v = r.chance(40) ? (ld)1 : std::ldexp((ld)(r.next() >> 1), -63); for (int j = r.range(0, 2); j > 0; --j) v = next_of(t, v, r.chance(50) ? 2 : 0); break;
        case OP_acosh: case OP_cosh_rev: case OP_cosh_revx: v = 1 + std::ldexp((ld)(r.next() >> 1), -63 + r.range(-40, 6)); sgn = r.chance(10); break;
        case OP_sin: case OP_cos: case OP_tan: case OP_sin_revx: case OP_cos_revx: case OP_tan_revx:
            v = r.chance(60) ? std::fabs(pi_val(t, r, r.chance(75) ? 0 : 1)) : std::ldexp((ld)(r.next() >> 1), -63 + r.range(-2, 6)); break;
        case OP_log: case OP_log2: case OP_log10: case OP_sqrt: case OP_pow: sgn = r.chance(15); break;
        case OP_exp: case OP_exp2: case OP_exp10: case OP_sinh: case OP_cosh: case OP_tanh: v = std::ldexp((ld)(r.next() >> 1), -63 + r.range(-3, t == TF ? 7 : t == TD ? 10 : 14)); break;
        case OP_sign: v = r.chance(30) ? 0 : v; break;
        default: break;
        }
    }
    v = round_near(t, v);
    if (std::isinf(v)) v = max_of(t);
    return sgn ? -v : v;
}
bool bounded(Arg const& a) { return !lib::is_empty(a) && !std::isinf(a.lo) && !std::isinf(a.hi); }
static Arg mk(ld a, ld b) { Arg r; if (a > b) std::swap(a, b); r.lo = a; r.hi = b; r.dec = 12; return r; }
static ld step(Rng&, int t, ld v, int n) { for (; n > 0; --n) v = next_of(t, v, INFINITY); for (; n < 0; ++n) v = next_of(t, v, -INFINITY); return v; }
static ld clampf(int t, ld v) { if (v > max_of(t)) return max_of(t); if (v < -max_of(t)) return -max_of(t); return v; }
Arg interval(Rng& r, int t, int op, int argi) {
    int hint = op;
    if (op == OP_sin_rev || op == OP_cos_rev || ((op == OP_sin_revx || op == OP_cos_revx) && argi == 0)) hint = OP_asin;
    if ((op == OP_tan_revx || op == OP_cosh_revx) && argi == (op == OP_tan_revx ? 0 : 1)) hint = -1;
    int k = r.range(0, 99);
    Arg a;
    if (k < 3) { a = Arg(); a.dec = 4; return a; }
    if (k < 6) a = Arg(-INFINITY, INFINITY);
    else if (k < 14) { ld v = value(r, t, hint); a = r.chance(50) ? Arg(v, INFINITY) : Arg(-INFINITY, v); }
    else if (k < 30) { ld v = value(r, t, hint); a = Arg(v, v); }
    else if (k < 42) { ld v = value(r, t, hint); a = mk(v, clampf(t, step(r, t, v, r.range(1, 3)))); }
    else if (k < 50) { ld v = value(r, t, hint); a = r.chance(50) ? mk(0, v) : mk(-std::fabs(v), std::fabs(value(r, t, hint))); }
    else if (k < 53) { ld v = value(r, t, hint); a = mk(-v, v); }
    else if (k < 65) {                                           // v +- relative width
        ld v = value(r, t, hint); ld w = std::ldexp(std::fabs(v), -r.range(0, fmt(t).p));
        a = mk(v, clampf(t, round_near(t, v + w)));
    }
    else if (k < 75) {                                           // width a multiple of pi/2
        ld v = value(r, t, OP_sin); ld w = (op == OP_tan || op == OP_tan_revx) && r.chance(60) ? 3.14159265358979323851L : std::fabs(pi_val(t, r, 0)); if (w > 3.14L && w < 3.15L && std::fabs(v) > 4 && r.chance(70)) v = round_near(t, std::fmod(v, (ld)4)); ld u = clampf(t, round_near(t, v + w));
        a = mk(v, clampf(t, step(r, t, u, r.range(-1, 1))));
    }
    else { a = mk(value(r, t, hint), value(r, t, hint)); }
    a.dec = 12;
    return a;
}
Arg near_interval(Rng& r, int t, Arg const& a0) {
    if (lib::is_empty(a0)) return interval(r, t);
    Arg a = a0;
    // bring the bounds to the type
    auto conv = [&](ld v) { Hp h; Wide w; set_ld(h, v); return round_to(t, h.v, r.chance(50) ? 'D' : 'U'); };
    a.lo = conv(a.lo); a.hi = conv(a.hi);
    auto pert = [&](ld v) -> ld {
        switch (r.range(0, 9)) {
        case 0: case 1: case 2: return v;
        case 3: return step(r, t, v, 1);
        case 4: return step(r, t, v, -1);
        case 5: return value(r, t);
        case 6: return v == 0 ? -v : v;
        case 7: return a.lo; case 8: return a.hi;
        default: return r.chance(50) ? INFINITY : -INFINITY;
        }
    };
    ld l = pert(a.lo), h = pert(a.hi);
    if (r.chance(15)) l = h = r.chance(50) ? l : h;
    if (l > h) std::swap(l, h);
    if (l == INFINITY) l = max_of(t);
    if (h == -INFINITY) h = -max_of(t);
    Arg b(l, h); b.dec = 12; return b;
}
int rnd_dec(Rng& r, Arg const& a) {
    if (lib::is_empty(a)) return 4;
    static const int d[] = {4, 8, 12, 16};
    if (bounded(a)) return r.chance(50) ? 16 : d[r.below(4)];
    return r.chance(50) ? 12 : d[r.below(3)];
}
int exponent(Rng& r) {
    int k = r.range(0, 99);
    if (k < 70) return r.range(-9, 9);
    if (k < 85) return r.range(-70, 70);
    if (k < 92) return r.range(-3000, 3000);
    if (k < 97) return (int)(uint32_t)(r.next() >> r.range(32, 52));
    static const int e[] = {INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, -1, 0};
    return e[r.below(6)];
}
bool same(Arg const& a, Arg const& b) { bool ea = lib::is_empty(a), eb = lib::is_empty(b); if (ea || eb) return ea && eb; return a.lo == b.lo && a.hi == b.hi; }
bool subset(Arg const& a, Arg const& b) { if (lib::is_empty(a)) return true; if (lib::is_empty(b)) return false; return b.lo <= a.lo && a.hi <= b.hi; }
Arg hull_to(int t, IV const& v) {
    Arg a; if (v.empty) { a.dec = -1; return a; }
    a.lo = round_to(t, v.lo.v, 'D'); a.hi = round_to(t, v.hi.v, 'U'); a.dec = -1;
    if (a.lo == INFINITY) a.lo = max_of(t);
    if (a.hi == -INFINITY) a.hi = -max_of(t);
    return a;
}
}
