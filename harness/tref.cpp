#include "tref.hpp"
namespace tref {
using namespace ref;
Z pow10(unsigned long n) { Z r; mpz_ui_pow_ui(r.get_mpz_t(), 10, n); return r; }
Q scale10(Q const& q, long e) { if (e >= 0) return q * Q(pow10(e)); return q / Q(pow10(-e)); }
Q scale2(Q const& q, long e) { Q r; if (e >= 0) mpq_mul_2exp(r.get_mpq_t(), q.get_mpq_t(), e); else mpq_div_2exp(r.get_mpq_t(), q.get_mpq_t(), -e); return r; }
Z qfloor(Q const& q) { Z r; mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
Z qceil(Q const& q) { Z r; mpz_cdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
long ilog10(Q const& q) {
    Q a = abs(q); long e = (long)((double)((long)mpz_sizeinbase(a.get_num_mpz_t(), 2) - (long)mpz_sizeinbase(a.get_den_mpz_t(), 2)) * 0.30102999566398120);
    e -= 2; while (a >= scale10(Q(1), e + 1)) ++e; while (a < scale10(Q(1), e)) --e; return e;
}
Q q_of(long double v) { Wide w; Hp h; set_ld(h, v); Q q; mpfr_get_q(q.get_mpq_t(), h.v); return q; }
Q Num::value() const { if (rat) return q; Q m(mant); long e = exp.get_si(); if (sgn(mant) == 0) return Q(0); return base == 10 ? scale10(m, e) : scale2(m, e); }
int compare(Num const& a, Num const& b, bool& sure) {
    sure = true;
    int sa = a.sign(), sb = b.sign(); if (sa != sb) return sa < sb ? -1 : 1; if (sa == 0) return 0;
    if (a.exact() && b.exact()) return cmp(a.value(), b.value());
    if (a.exact() || b.exact()) { bool big = a.exact() ? b.exp > 0 : a.exp > 0; int r = a.exact() ? (big ? -1 : 1) : (big ? 1 : -1); return sa > 0 ? r : -r; }
    if ((a.exp > 0) != (b.exp > 0)) { int r = a.exp > 0 ? 1 : -1; return sa > 0 ? r : -r; }
    if (a.base == b.base) {
        Z d = a.exp - b.exp; if (d > 20000) return sa; if (d < -20000) return -sa;
        long e = d.get_si(); Q x(a.mant), y(b.mant); x = a.base == 10 ? scale10(x, e) : scale2(x, e); return cmp(x, y);
    }
    Wide w; mpfr_t x, y, t; mpfr_inits2(400, x, y, t, (mpfr_ptr)0);
    auto lg = [&](mpfr_t r, Num const& n) { mpfr_set_z(r, n.mant.get_mpz_t(), MPFR_RNDN); mpfr_abs(r, r, MPFR_RNDN); mpfr_log2(r, r, MPFR_RNDN); mpfr_set_ui(t, 10, MPFR_RNDN); if (n.base == 10) mpfr_log2(t, t, MPFR_RNDN); else mpfr_set_ui(t, 1, MPFR_RNDN); mpfr_mul_z(t, t, n.exp.get_mpz_t(), MPFR_RNDN); mpfr_add(r, r, t, MPFR_RNDN); };
    lg(x, a); lg(y, b); mpfr_sub(t, x, y, MPFR_RNDN); int r = mpfr_sgn(t); if (mpfr_cmp_d(t, 1e-9) < 0 && mpfr_cmp_d(t, -1e-9) > 0) sure = false;
    mpfr_clears(x, y, t, (mpfr_ptr)0); return sa > 0 ? r : -r;
}
ld round_q(int t, Q const& q, char mode) {
    Wide w; mpfr_t v; mpfr_init2(v, 400); mpfr_set_q(v, q.get_mpq_t(), mode == 'D' ? MPFR_RNDD : MPFR_RNDU); ld r = round_to(t, v, mode); mpfr_clear(v); return r;
}
ld round_num(int t, Num const& n, char mode) {
    if (n.exact()) return round_q(t, n.value(), mode);
    int s = n.sign(); bool big = n.exp > 0;
    if (big) return s > 0 ? (mode == 'D' ? max_of(t) : (ld)INFINITY) : (mode == 'D' ? -(ld)INFINITY : -max_of(t));
    return s > 0 ? (mode == 'D' ? (ld)0 : min_sub_of(t)) : (mode == 'D' ? -min_sub_of(t) : (ld)0);
}
std::string strip(std::string const& s) { size_t a = 0, b = s.size(); while (a < b && ws(s[a])) ++a; while (b > a && ws(s[b - 1])) --b; return s.substr(a, b - a); }
static bool digit(char c) { return c >= '0' && c <= '9'; }
static bool xdigit(char c) { return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static std::string lower(std::string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
// digits [. digits] with at least one digit; returns digits without the point
static bool mantissa(std::string const& s, size_t& i, bool hex, std::string& digits, long& frac) {
    size_t n = 0; digits.clear(); frac = 0; bool point = false;
    for (; i < s.size(); ++i) {
        if (hex ? xdigit(s[i]) : digit(s[i])) { digits += s[i]; ++n; if (point) ++frac; }
        else if (s[i] == '.' && !point) point = true;
        else break;
    }
    return n > 0;
}
static bool integer(std::string const& s, size_t& i, Z& z) {     // optional sign, digits
    size_t j = i; bool neg = false; if (j < s.size() && (s[j] == '+' || s[j] == '-')) neg = s[j++] == '-';
    size_t k = j; while (k < s.size() && digit(s[k])) ++k;
    if (k == j) return false;
    z = Z(s.substr(j, k - j), 10); if (neg) z = -z; i = k; return true;
}
static bool number(std::string const& s, Num& n) {
    size_t i = 0; bool neg = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
    std::string d; long fr; n = Num();
    if (i + 1 < s.size() && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) {
        i += 2; if (!mantissa(s, i, true, d, fr)) return false;
        if (i >= s.size() || (s[i] != 'p' && s[i] != 'P')) return false;
        ++i; Z e; if (!integer(s, i, e) || i != s.size()) return false;
        n.rat = false; n.base = 2; n.mant = Z(d, 16); if (neg) n.mant = -n.mant; n.exp = e - 4 * fr; return true;
    }
    size_t start = i; if (!mantissa(s, i, false, d, fr)) return false;
    if (i == s.size()) { n.rat = false; n.base = 10; n.mant = Z(d, 10); if (neg) n.mant = -n.mant; n.exp = -fr; return true; }
    if (s[i] == 'e' || s[i] == 'E') {
        ++i; Z e; if (!integer(s, i, e) || i != s.size()) return false;
        n.rat = false; n.base = 10; n.mant = Z(d, 10); if (neg) n.mant = -n.mant; n.exp = e - fr; return true;
    }
    // rational: integer ws / ws digits, denominator not zero
    size_t j = start; while (j < s.size() && digit(s[j])) ++j; if (j == start) return false;
    Z num(s.substr(start, j - start), 10); while (j < s.size() && ws(s[j])) ++j;
    if (j >= s.size() || s[j] != '/') return false;
    ++j; while (j < s.size() && ws(s[j])) ++j;
    size_t k = j; while (k < s.size() && digit(s[k])) ++k; if (k == j || k != s.size()) return false;
    Z den(s.substr(j), 10); if (den == 0) return false;
    if (neg) num = -num; n.rat = true; n.q = Q(num, den); n.q.canonicalize(); return true;
}
static int decoration(std::string const& s, bool& unspec) {          // text after the underscore
    unspec = false;
    std::string l = lower(s);
    if (l == "ill") return 0; if (l == "trv") return 4; if (l == "def") return 8; if (l == "dac") return 12; if (l == "com") return 16;
    if (!s.empty() && ws(s[0])) { unspec = true; return -1; }        // white space after the underscore: not specified
    bool all = !s.empty(); for (char c : s) if (!digit(c)) all = false;
    if (all) { if (s.size() > 1 && s[0] == '0') { unspec = true; return -1; } Z z(s, 10); if (z == 0 || z == 4 || z == 8 || z == 12 || z == 16) return (int)z.get_si(); }
    return -1;
}
Lit parse(std::string const& s0, bool full) {
    Lit r; std::string s = strip(s0); if (s.empty()) return r;
    std::string tail; bool has_dec = false; int maxdec = 16; Lit v;
    if (s[0] == '[') {
        size_t e = s.find(']'); if (e == std::string::npos) return r;
        std::string c = strip(s.substr(1, e - 1)); tail = s.substr(e + 1);
        size_t k = c.find(',');
        if (k != std::string::npos) {
            if (c.find(',', k + 1) != std::string::npos) return r;
            std::string a = strip(c.substr(0, k)), b = strip(c.substr(k + 1)), la = lower(a), lb = lower(b);
            v.kind = INTERVAL;
            if (a.empty() || la == "-inf" || la == "-infinity") v.lo_inf = true; else if (!number(a, v.lo)) return r;
            if (b.empty() || lb == "inf" || lb == "infinity" || lb == "+inf" || lb == "+infinity") v.hi_inf = true; else if (!number(b, v.hi)) return r;
            if (v.lo_inf || v.hi_inf) maxdec = 12;
            else if (!full && !v.lo.rat && !v.hi.rat && v.lo.sign() * v.hi.sign() > 0 && ((v.lo.exp > 900000 && v.hi.exp > 900000) || (v.lo.exp < -900000 && v.hi.exp < -900000))) { r.kind = UNSPECIFIED; return r; }
            else { bool sure; int o = compare(v.lo, v.hi, sure); if (!sure) { r.kind = UNSPECIFIED; return r; } if (o > 0) return r; }
        } else {
            std::string l = lower(c);
            if (l.empty() || l == "empty") { v.kind = EMPTY; maxdec = 4; }
            else if (l == "entire") { v.kind = ENTIRE; v.lo_inf = v.hi_inf = true; maxdec = 12; }
            else if (l == "nai") { v.kind = NAI; maxdec = -1; }
            else { v.kind = INTERVAL; if (!number(c, v.lo)) return r; v.hi = v.lo; }
        }
    } else {
        size_t i = 0; bool neg = false; if (s[i] == '+' || s[i] == '-') neg = s[i++] == '-';
        std::string d; long fr; if (!mantissa(s, i, false, d, fr)) return r;
        if (i >= s.size() || s[i] != '?') return r;
        ++i; Z m(d, 10); if (neg) m = -m; Z rad; bool inf = false; Z ex = -fr;
        if (i < s.size() && s[i] == '?') { inf = true; ++i; }
        else { size_t j = i; while (j < s.size() && digit(s[j])) ++j; if (j == i) { rad = 5; m *= 10; ex -= 1; } else rad = Z(s.substr(i, j - i), 10); i = j; }
        char dir = 0; if (i < s.size() && (s[i] == 'u' || s[i] == 'U' || s[i] == 'd' || s[i] == 'D')) dir = s[i++] | 32;
        if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; Z e; if (!integer(s, i, e)) return r; ex += e; }
        tail = s.substr(i);
        v.kind = INTERVAL; v.uncertain = true; v.lo.rat = v.hi.rat = false; v.lo.base = v.hi.base = 10; v.lo.exp = v.hi.exp = ex;
        v.lo.mant = dir == 'u' ? m : m - rad; v.hi.mant = dir == 'd' ? m : m + rad;
        if (inf) { maxdec = 12; if (dir != 'u') v.lo_inf = true; if (dir != 'd') v.hi_inf = true; v.lo.mant = v.hi.mant = m; }
    }
    if (!tail.empty()) {
        if (tail[0] != '_') return r;
        bool un; int d = decoration(tail.substr(1), un); if (un) { r.kind = UNSPECIFIED; return r; }
        if (d <= 0 || d > maxdec) return r;
        v.dec = d; has_dec = true;
    }
    (void)has_dec; return v;
}
Arg expect(int t, Lit const& l) {
    Arg a;
    switch (l.kind) {
    case NAI: a = Arg(NAN, NAN, 0); return a;
    case EMPTY: a = Arg(NAN, NAN, 4); return a;
    default: break;
    }
    a.lo = l.lo_inf ? -(ld)INFINITY : round_num(t, l.lo, 'D'); a.hi = l.hi_inf ? (ld)INFINITY : round_num(t, l.hi, 'U');
    int d = l.dec < 0 ? 16 : l.dec; if (d == 16 && (std::isinf(a.lo) || std::isinf(a.hi))) d = 12; a.dec = d; return a;
}
bool printed(std::string const& s, Printed& p) {
    p = Printed(); p.neg = p.inf = p.hex = p.has_exp = p.upper = p.lower = false; p.frac = p.sig = 0; p.e = 0;
    for (char c : s) { if (c >= 'A' && c <= 'Z') p.upper = true; if (c >= 'a' && c <= 'z') p.lower = true; }
    size_t i = 0; if (i < s.size() && (s[i] == '-' || s[i] == '+')) { if (s[i] == '+') return false; p.neg = true; ++i; }
    std::string l = lower(s.substr(i)); if (l == "inf") { p.inf = true; return true; }
    std::string d; long fr;
    if (l.size() > 2 && l[0] == '0' && l[1] == 'x') { p.hex = true; i += 2; }
    size_t st = i; if (!mantissa(s, i, p.hex, d, fr)) return false;
    std::string body = s.substr(st, i - st); size_t dot = body.find('.'); p.intpart = dot == std::string::npos ? body : body.substr(0, dot);
    if (p.intpart.empty() || (dot != std::string::npos && fr == 0)) return false;
    p.frac = (int)fr; size_t z = d.find_first_not_of('0'); p.sig = z == std::string::npos ? 0 : (int)(d.size() - z);
    Z m(d, p.hex ? 16 : 10); if (p.neg) m = -m; Z e = 0;
    if (i < s.size()) { char c = s[i] | 32; if (c != (p.hex ? 'p' : 'e')) return false; ++i; if (i >= s.size() || (s[i] != '+' && s[i] != '-')) return false; if (!integer(s, i, e) || i != s.size()) return false; p.has_exp = true; }
    if (p.hex && !p.has_exp) return false;
    if (e > 100000 || e < -100000) return false;
    p.e = e.get_si(); p.v = p.hex ? scale2(Q(m), p.e - 4 * fr) : scale10(Q(m), p.e - fr); return true;
}
}
