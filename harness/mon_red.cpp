// Monitors P20 (reductions) and P25 (error-free sum).
#include "mon.hpp"
#include "lib_red.hpp"
#include <algorithm>
using namespace ref; using namespace mon; using namespace lib;
namespace {
// exact accumulation in fixed point: value = z * 2^-SH
const int SH = 2 * 16500;
struct Exact {
    mpz_t z; Exact() { mpz_init(z); } ~Exact() { mpz_clear(z); } Exact(Exact const&) = delete;
    static void mant(ld x, mpz_t m, int& e) { int ee; ld f = std::frexp(x, &ee); ld s = std::ldexp(std::fabs(f), 64); unsigned long long u = (unsigned long long)s; mpz_set_ui(m, (unsigned long)u); if (f < 0) mpz_neg(m, m); e = ee - 64; }
    void shift_add(mpz_t m, long e) { if (mpz_sgn(m) == 0) return; long s = e + SH; if (s >= 0) mpz_mul_2exp(m, m, s); else mpz_tdiv_q_2exp(m, m, -s); mpz_add(z, z, m); }
    void add(ld x) { mpz_t m; int e; mpz_init(m); mant(x, m, e); shift_add(m, e); mpz_clear(m); }
    void addmul(ld x, ld y) { mpz_t m, n; int e, f; mpz_init(m); mpz_init(n); mant(x, m, e); mant(y, n, f); mpz_mul(m, m, n); shift_add(m, (long)e + f); mpz_clear(m); mpz_clear(n); }
    ld round(int t, char mode) { Wide w; if (mpz_sgn(z) == 0) return 0; mpfr_t v; mpfr_init2(v, std::max<size_t>(2, mpz_sizeinbase(z, 2))); mpfr_set_z_2exp(v, z, -SH, MPFR_RNDN); ld r = round_to(t, v, mode); mpfr_clear(v); return r; }
};
ld narrow(int t, ld v) { Wide w; Hp h; set_ld(h, v); return round_to(t, h.v, 'D'); }
// fixed-point scale suffices: smallest product is 2^-32890, below that nothing exists
void terms(Case const& k, std::vector<ld>& a, std::vector<ld>& b) {
    Rng r(k.seed); int t = k.R, n = k.p; Fmt f = fmt(t);
    int style = k.aux[2];
    for (int i = 0; i < n; ++i) {
        ld x, y;
        switch (style) {
        case 0: x = (ld)r.range(-20, 20); y = (ld)r.range(-20, 20); break;
        case 1: x = mon::value(r, t); y = mon::value(r, t); break;
        case 2: { int e = r.range(-f.p - 10, f.p + 10); x = narrow(t, std::ldexp((ld)(long long)r.next(), e - 63)); y = narrow(t, std::ldexp((ld)(long long)r.next(), r.range(-5, 5) - 63)); break; }
        case 3: x = narrow(t, std::ldexp((ld)(long long)r.next(), -63 + f.emax - r.range(0, 3))); if (std::isinf(x)) x = max_of(t); y = r.chance(50) ? 1 : narrow(t, std::ldexp((ld)(long long)r.next(), -63 + r.range(0, 6))); if (r.chance(20)) x = r.chance(50) ? max_of(t) : -max_of(t); break;      // near overflow
        case 4: x = std::ldexp((ld)r.range(-9, 9), f.emin_lsb); if (r.chance(30)) x = narrow(t, std::ldexp((ld)(long long)r.next(), f.emin_lsb - 63 + r.range(0, f.p + 3))); y = r.chance(40) ? (ld)r.range(-3, 3) : std::ldexp((ld)r.range(-9, 9), -r.range(0, 6)); break;               // subnormals
        case 5: { int e = r.range(f.emin_lsb / 2 - f.p, f.emin_lsb / 2 + f.p); x = narrow(t, std::ldexp((ld)(long long)r.next(), e - 63)); y = narrow(t, std::ldexp((ld)(long long)r.next(), f.emin_lsb - e + r.range(-3, f.p) - 63)); break; }   // products around the subnormal range
        case 6: { int e = r.range(f.emax / 2 - 3, f.emax / 2 + 3); x = narrow(t, std::ldexp((ld)(long long)r.next(), e - 63)); y = narrow(t, std::ldexp((ld)(long long)r.next(), f.emax - e + r.range(-2, 2) - 63)); break; }                     // products around overflow
        case 7: { x = std::ldexp((ld)1, r.range(-2, 2)); if (r.chance(50)) x = next_of(t, x, r.chance(50) ? 9 : 0); if (r.chance(50)) x = -x; y = std::ldexp((ld)1, r.chance(50) ? 0 : -r.range(0, 2 * f.p)); break; }                           // halfway cases
        default: x = r.chance(80) ? mon::value(r, t) : r.chance(40) ? INFINITY : r.chance(50) ? -INFINITY : NAN; y = r.chance(70) ? (ld)r.range(-2, 2) : r.chance(30) ? INFINITY : mon::value(r, t);
        }
        if (i && r.chance(style == 8 ? 10 : 25)) { int j = (int)r.below(i); x = -a[j]; y = b[j]; if (r.chance(40)) { x = a[j]; y = -b[j]; } }          // cancellation
        if (i && r.chance(5)) x = (ld)0 * (r.chance(50) ? 1 : -1);
        a.push_back(x); b.push_back(y);
    }
    // drive the total to (nearly) zero: append the negated rounded exact sum
    if (k.aux[3] && n > 1 && style != 8) {
        bool prod = k.aux[0] == R_DOT; Exact e; bool ok = true;
        for (int i = 0; i < n; ++i) { if (!std::isfinite(a[i]) || !std::isfinite(b[i])) ok = false; else if (prod) e.addmul(a[i], b[i]); else e.add(a[i]); }
        if (ok) { ld s = e.round(t, r.chance(50) ? 'N' : 'D'); if (std::isfinite(s)) { a.push_back(-s); b.push_back(1); if (r.chance(50)) std::swap(a.back(), a[r.below(a.size())]), void(); } }
    }
    for (size_t i = 0; i < a.size(); ++i) { if (std::isfinite(b[i]) && std::isinf(narrow(t, b[i]))) b[i] = 1; }
}
const char MODE[] = {'D', 'U', 'N', 'Z'};
bool gen_P20(Ctx& c, Case& k) {
    Rng& r = c.rng; k.R = r.range(0, 2); k.aux[0] = r.range(0, R_KINDS - 1); k.aux[1] = r.range(0, 5); k.aux[2] = r.range(0, 8); k.aux[3] = r.chance(30); k.aux[4] = r.range(0, 3);
    k.p = r.chance(3) ? 0 : r.chance(70) ? r.range(1, 6) : r.chance(90) ? r.range(7, 40) : r.range(41, 300); k.seed = r.next(); return true;
}
std::string list(std::vector<ld> const& v) { std::string s; for (size_t i = 0; i < v.size() && i < 12; ++i) s += (i ? "," : "") + hex(v[i]); if (v.size() > 12) s += ",.."; return s; }
void judge_P20(Ctx& c, Case const& k) {
    std::vector<ld> a, b; terms(k, a, b); int kind = k.aux[0], t = k.R; size_t n = a.size();
    // specified value of the exact sum
    bool nan = false, pinf = false, ninf = false; Exact e;
    for (size_t i = 0; i < n; ++i) {
        ld x = a[i], y = b[i];
        switch (kind) {
        case R_SUM: y = 1; break; case R_SUM_ABS: x = std::fabs(x); y = 1; break; case R_SUM_SQR: y = x; break; default: break;
        }
        if (std::isnan(x) || std::isnan(y)) nan = true;
        else if (std::isinf(x) || std::isinf(y)) { if (x == 0 || y == 0) nan = true; else if ((x > 0) == (y > 0)) pinf = true; else ninf = true; }
        else e.addmul(x, y);
    }
    Rng r(k.seed ^ 77);
    for (int rep = 0; rep < 2; ++rep) {
        if (rep) { std::vector<size_t> p(n); for (size_t i = 0; i < n; ++i) p[i] = i; for (size_t i = n; i > 1; --i) std::swap(p[i - 1], p[r.below(i)]); std::vector<ld> a2, b2; for (size_t i : p) { a2.push_back(a[i]); b2.push_back(b[i]); } a = a2; b = b2; if (n < 2) break; }
        int container = rep ? r.range(0, 5) : k.aux[1];
        for (int q = 0; q < 4; ++q) {
            int rnd = (q + k.aux[4]) % 4; if (n > 40 && q > 1) break;
            if (r.chance(25)) { mpfr_set_emin(r.range(-20000, -100)); mpfr_set_emax(r.range(100, 20000)); mpfr_set_default_rounding_mode((mpfr_rnd_t)r.range(0, 3)); }
            mark(c, k, rnd); bool modified; int exc; ld got = reduce(t, kind, container, rnd, a, b, modified, exc); ++c.calls; ++c.checks;
            mpfr_set_default_rounding_mode(MPFR_RNDN);
            bool zero = false; ld want;
            if (nan || (pinf && ninf)) want = NAN; else if (pinf) want = INFINITY; else if (ninf) want = -INFINITY;
            else { zero = mpz_sgn(e.z) == 0; want = zero ? (rnd == 0 ? (ld)-0.0L : (ld)0) : e.round(t, MODE[rnd]); }
            std::string where = std::string(type_name(t)) + " " + rkind_name(kind) + " mode " + MODE[rnd] + " container " + std::to_string(container) + " n=" + std::to_string(n) + " a=" + list(a) + (kind == R_DOT ? " b=" + list(b) : "");
            if (exc) { c.violation("exception", where); return; }
            if (modified) { c.violation("input modified", where); return; }
            bool ok = std::isnan(want) ? std::isnan(got) : got == want && (!zero || std::signbit(got) == std::signbit(want));
            if (!ok) { c.violation(zero && got == 0 ? "wrong sign of zero" : "wrong reduction", where + " = " + hex(got) + " expected " + hex(want)); return; }
            if (nan || pinf || ninf) c.tick("special results"); else if (zero) c.tick("exact zeros"); else if (std::isinf(want) || std::fabs(want) == max_of(t)) c.tick("overflow or extreme"); else if (std::fabs(want) < min_norm_of(t)) c.tick("subnormal results"); else c.tick("finite results");
        }
    }
    if (n > 1 && !nan) c.nontrivial(hash(k));
    c.tick(std::string(rkind_name(kind)) + " " + type_name(t));
}
// ---- P25 ----
bool gen_P25(Ctx& c, Case& k) {
    Rng& r = c.rng; int t = k.R = r.range(0, 2); Fmt f = fmt(t); ld a = mon::value(r, t), b;
    switch (r.range(0, 7)) {
    case 0: b = mon::value(r, t); break;
    case 1: b = narrow(t, std::ldexp(a, -r.range(0, f.p + 3))); break;
    case 2: b = narrow(t, std::ldexp((ld)(long long)r.next(), std::max(-16300, std::min(16300, (int)std::logb(a == 0 ? 1 : a) - r.range(-f.p - 2, f.p + 2) - 63)))); break;
    case 3: b = -a; for (int j = r.range(0, 3); j > 0; --j) b = next_of(t, b, r.chance(50) ? INFINITY : -INFINITY); break;
    case 4: { a = narrow(t, std::ldexp((ld)(long long)r.next(), f.emin_lsb - 63 + r.range(0, f.p + 2))); b = narrow(t, std::ldexp((ld)(long long)r.next(), f.emin_lsb - 63 + r.range(0, f.p + 2))); break; }
    case 5: { a = r.chance(50) ? max_of(t) : narrow(t, std::ldexp((ld)(long long)(r.next() >> 1), f.emax - 63)); if (r.chance(50)) a = -a; b = narrow(t, std::ldexp((ld)(long long)r.next(), f.emax - 63 - r.range(0, f.p + 3))); if (r.chance(50)) b = (a > 0 ? -1 : 1) * std::fabs(b); break; }
    case 6: { a = std::ldexp((ld)1, r.range(f.emin_lsb + 1, f.emax - 1)); b = std::ldexp((ld)1, std::max(f.emin_lsb, (int)std::logb(a) - f.p + r.range(-2, 2))); if (r.chance(50)) b = -b; if (r.chance(50)) b = next_of(t, b, a); if (r.chance(50)) a = next_of(t, a, r.chance(50) ? INFINITY : 0); break; }
    default: b = (ld)r.range(-3, 3); a = (ld)r.range(-3, 3); 
    }
    if (std::isinf(a)) a = max_of(t);
    if (std::isinf(b)) b = -max_of(t);
    if (r.chance(50)) std::swap(a, b);
    k.x[0].lo = a; k.x[0].hi = b; return true;
}
void judge_P25(Ctx& c, Case const& k) {
    int t = k.R; ld a = k.x[0].lo, b = k.x[0].hi, s, er; int exc;
    Exact e; e.add(a); e.add(b); ld want = e.round(t, 'N'); if (std::isinf(want)) { c.tick("overflowing sums (not judged)"); }
    mark(c, k, 0); two_sum(t, a, b, s, er, exc); ++c.calls; ++c.checks;
    std::string where = std::string("two_sum<") + type_name(t) + ">(" + hex(a) + "," + hex(b) + ")";
    if (exc) { c.violation("exception", where); return; }
    if (std::isinf(want)) return;
    if (s != want) { c.violation("wrong sum", where + " = " + hex(s) + " expected " + hex(want)); return; }
    Exact e2; bool fin = std::isfinite(er); if (fin) { e2.add(s); e2.add(er); }
    if (!fin || mpz_cmp(e2.z, e.z)) { c.violation("wrong error term", where + " = " + hex(s) + " error " + hex(er)); return; }
    if (er != 0) { c.nontrivial(hash(k)); c.tick("inexact sums"); } else c.tick("exact sums");
    if (std::fabs(want) < min_norm_of(t)) c.tick("subnormal sums");
}
}
namespace mon {
Monitor const monitors[] = {
    {"P20", gen_P20, judge_P20, "sequences of nine styles (integers, arbitrary, halfway, near overflow, subnormal, products out of range, special values) with cancellation, all four roundings, several containers and a shuffled order, compared with an exact integer accumulation; non-trivial: distinct sequence of at least two terms without NaN", nullptr},
    {"P25", gen_P25, judge_P25, "pairs of finite numbers including neighbours, negations, subnormals, ties and values next to overflow; non-trivial: distinct pair whose sum is inexact", nullptr},
    {nullptr, nullptr, nullptr, nullptr, nullptr}};
}
