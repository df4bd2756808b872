// Monitors P17 (text output), P18 (text input) and P19 (stream histories).
#include "mon.hpp"
#include "lib_text.hpp"
#include "tref.hpp"
#include <sstream>
#include <streambuf>
#include <algorithm>
using namespace ref; using namespace mon; using namespace lib; using namespace libtext;
using tref::Q; using tref::Z;
namespace {
// ---- model of a stream's settings ----------------------------------------------------
struct Set {
    bool upper; unsigned sw; int rep, num; unsigned w, prec; int special; bool punct, uexp, decnum, ovlnum;
    Set() : upper(false), sw(0), rep(0), num(0), w(0), prec(0), special(0), punct(true), uexp(false), decnum(false), ovlnum(false) {}
    void apply(Manip m) {
        switch (m.kind) {
        case M_LOWER: upper = false; break; case M_UPPER: upper = true; break; case M_STRING_WIDTH: sw = m.arg; break;
        case M_INF_SUP: case M_UNCERTAIN: case M_UNCERTAIN_UP: case M_UNCERTAIN_DOWN: rep = m.kind - M_INF_SUP; break;
        case M_DECSCI: case M_DECIMAL: case M_SCIENTIFIC: case M_HEX: num = m.kind - M_DECSCI; break;
        case M_WIDTH: w = m.arg; break; case M_PRECISION: prec = m.arg; break;
        case M_SPECIAL_TEXT: case M_SPECIAL_BOUNDS: case M_SPECIAL_NO_BOUNDS: special = m.kind - M_SPECIAL_TEXT; break;
        case M_PUNCT: punct = true; break; case M_NO_PUNCT: punct = false; break; case M_UEXP: uexp = true; break; case M_NO_UEXP: uexp = false; break;
        case M_DEC_ALPHA: decnum = false; break; case M_DEC_NUMERIC: decnum = true; break; case M_OVL_ALPHA: ovlnum = false; break; case M_OVL_NUMERIC: ovlnum = true; break;
        }
    }
    // every aspect, set explicitly
    void configure(std::ostream& os) const {
        Manip m[] = {{upper ? M_UPPER : M_LOWER, 0}, {M_STRING_WIDTH, sw}, {M_INF_SUP + rep, 0}, {M_DECSCI + num, 0}, {M_WIDTH, w}, {M_PRECISION, prec}, {M_SPECIAL_TEXT + special, 0},
                     {punct ? M_PUNCT : M_NO_PUNCT, 0}, {uexp ? M_UEXP : M_NO_UEXP, 0}, {decnum ? M_DEC_NUMERIC : M_DEC_ALPHA, 0}, {ovlnum ? M_OVL_NUMERIC : M_OVL_ALPHA, 0}};
        for (Manip const& x : m) manip(os, x);
    }
    std::string str() const {
        static const char* r[] = {"inf_sup", "uncertain", "uncertain_up", "uncertain_down"}; static const char* n[] = {"decimal_scientific", "decimal", "scientific", "hex"}; static const char* s[] = {"text", "bounds", "no_bounds"};
        std::ostringstream o; o << r[rep] << "," << n[num] << ",width=" << w << ",precision=" << prec << ",string_width=" << sw << ",special=" << s[special] << (upper ? ",upper" : "") << (punct ? "" : ",no_punctuation") << (uexp ? ",uncertain_exponent" : "") << (decnum ? ",dec_numeric" : "");
        return o.str();
    }
};
unsigned small_len(Rng& r, bool wide) { int k = r.range(0, 99); if (k < 45) return 0; if (k < 75) return r.range(1, 12); if (k < 94) return r.range(1, 45); if (k < 99 || !wide) return r.range(46, 130); return r.range(131, 2500); }
Manip random_manip(Rng& r) { Manip m; m.kind = r.range(0, M_COUNT - 1); m.arg = has_arg(m.kind) ? r.chance(25) ? r.range(1, 6) : small_len(r, true) : 0; return m; }
Set random_set(Rng& r) {
    Set s; s.upper = r.chance(40); s.sw = small_len(r, true); s.rep = r.chance(50) ? 0 : r.range(1, 3); s.num = r.range(0, 3); s.w = small_len(r, true); s.prec = small_len(r, true); s.special = r.range(0, 2);
    s.punct = r.chance(75); s.uexp = r.chance(50); s.decnum = r.chance(30); s.ovlnum = r.chance(50); return s;
}
// ---- value to print -------------------------------------------------------------------
Arg print_value(Rng& r, int t, bool dec) {
    Arg a;
    switch (r.range(0, 9)) {
    case 0: { ld v = std::ldexp((ld)r.range(-999999, 999999), -r.range(0, 20)); v = (ld)(float)v; a = Arg(v, v); break; }
    case 1: { ld v = (ld)r.range(-2000, 2000) / 100; v = t == TF ? (ld)(float)v : t == TD ? (ld)(double)v : v; a = Arg(v, v); if (r.chance(50)) a.hi = next_of(t, v, INFINITY); break; }
    case 2: {                                                     // next to a power of ten
        ld v = 1; for (int i = r.range(0, t == TF ? 37 : 60); i > 0; --i) v *= 10; if (r.chance(50)) v = 1 / v; v = t == TF ? (ld)(float)v : t == TD ? (ld)(double)v : v;
        for (int i = r.range(0, 3); i > 0; --i) v = next_of(t, v, r.chance(50) ? 0 : INFINITY); if (r.chance(40)) v = -v;
        a = Arg(v, v); if (r.chance(50)) { ld u = mon::value(r, t); a = Arg(std::min(u, v), std::max(u, v)); } break;
    }
    case 3: { ld v = mon::value(r, t), w = std::ldexp(std::fabs(v), -r.range(1, 30)); Hp h; { Wide wd; set_ld(h, v + w); ld u = round_to(t, h.v, 'N'); if (std::isinf(u)) u = max_of(t); a = Arg(std::min(v, u), std::max(v, u)); } break; }
    case 4: a = Arg(-(ld)r.range(0, 9), (ld)r.range(0, 12000)); if (r.chance(30)) a.lo = -0.0L; break;
    default: a = mon::interval(r, t);
    }
    if (dec) { if (r.chance(4)) a = Arg(NAN, NAN, 0); else a.dec = rnd_dec(r, a); } else a.dec = -1;
    return a;
}
// ---- P17 oracle ------------------------------------------------------------------------
std::string dec_text(Set const& s, int d) { if (s.decnum) return std::to_string(d); static const char* n[] = {"ill", "trv", "def", "dac", "com"}; std::string t = n[d / 4]; if (s.upper) for (char& c : t) c -= 32; return t; }
std::string cased(Set const& s, std::string t) { if (s.upper) for (char& c : t) if (c >= 'a' && c <= 'z') c -= 32; return t; }
// text of one bound; empty string: fine
std::string bad_bound(Set const& s, std::string const& b, ld v, bool lower) {
    tref::Printed p;
    if (!tref::printed(b, p)) return "not a number: '" + b + "'";
    if (s.upper ? p.lower : p.upper) return "letter case of '" + b + "'";
    if (std::isinf(v)) return p.inf && p.neg == (v < 0) ? "" : "infinite bound printed as '" + b + "'";
    if (p.inf) return "finite bound printed as '" + b + "'";
    unsigned n = s.prec ? s.prec : 6; Q q = tref::q_of(v);
    if ((lower && p.v > q) || (!lower && p.v < q)) return "'" + b + "' does not enclose the bound " + hex(v);
    auto grid = [&](Q const& unit) { Z z = lower ? tref::qfloor(q / unit) : tref::qceil(q / unit); return p.v == Q(z) * unit; };
    switch (s.num) {
    case 3: {
        if (!p.hex) return "not hexadecimal: '" + b + "'";
        if (!s.prec) return p.v == q ? "" : "'" + b + "' is not exactly the bound " + hex(v);
        if (p.frac != (int)n) return "number of hexadecimal digits of '" + b + "'";
        if (p.intpart.size() != 1 || (q != 0 && p.intpart == "0")) return "hexadecimal digits of '" + b + "'";
        return grid(tref::scale2(Q(1), p.e - 4 * (long)n)) ? "" : "'" + b + "' is wider than necessary for " + hex(v);
    }
    case 1:
        if (p.hex || p.has_exp) return "not in decimal notation: '" + b + "'";
        if (p.frac != (int)n) return "number of fractional digits of '" + b + "'";
        return grid(tref::scale10(Q(1), -(long)n)) ? "" : "'" + b + "' is wider than necessary for " + hex(v);
    case 2:
        if (p.hex || !p.has_exp || p.intpart.size() != 1) return "not in scientific notation: '" + b + "'";
        if (p.frac != (int)n) return "number of fractional digits of '" + b + "'";
        if (q == 0) return p.v == 0 ? "" : "zero bound printed as '" + b + "'";
        if (p.v != 0 && p.intpart == "0") return "not normalised: '" + b + "'";
        return grid(tref::scale10(Q(1), tref::ilog10(q) - (long)n)) ? "" : "'" + b + "' is wider than necessary for " + hex(v);
    default:
        if (p.hex) return "not decimal: '" + b + "'";
        if (q == 0) return p.v == 0 ? "" : "zero bound printed as '" + b + "'";
        if (p.sig > (int)n && !(p.sig > 0 && p.v.get_den() == 1 && !p.has_exp)) return "more than the requested digits in '" + b + "'";
        return grid(tref::scale10(Q(1), tref::ilog10(q) - (long)n + 1)) ? "" : "'" + b + "' is wider than necessary for " + hex(v);
    }
}
std::string bad_inf_sup(Set const& s, std::string t, Arg const& a, size_t& min_len) {
    bool special = lib::is_empty(a) || (a.lo == -INFINITY && a.hi == INFINITY);
    std::string body = t; min_len = 0;
    if (s.punct) { if (t.size() < 2 || t[0] != '[' || t.back() != ']') return "brackets"; body = t.substr(1, t.size() - 2); }
    if (special && s.special != 1) {
        std::string c = tref::strip(body);
        min_len = 2 * (size_t)s.w + 1 + (s.punct ? 2 : 0);
        if (s.special == 2 && s.punct) return c == (lib::is_empty(a) ? "" : ",") ? "" : "special value without bounds printed as '" + t + "'";
        return c == cased(s, lib::is_empty(a) ? "empty" : "entire") ? "" : "special value printed as '" + t + "'";
    }
    std::string l, u;
    if (s.punct) { size_t k = body.find(','); if (k == std::string::npos) return "no comma"; l = body.substr(0, k); u = body.substr(k + 1); }
    else {
        // blanks only before a bound: the last word is the upper bound, the first the lower bound
        std::string c = body; size_t e = c.size(); while (e && c[e - 1] == ' ') --e; if (e != c.size()) return "blanks at the end";
        size_t k = c.rfind(' '); if (k == std::string::npos) return "no separator";
        u = c.substr(k + 1); size_t j = k; while (j && c[j - 1] == ' ') --j; l = c.substr(0, j);
    }
    auto field = [&](std::string& f) { size_t k = 0; while (k < f.size() && f[k] == ' ') ++k; size_t n = f.size(); f = f.substr(k); return n; };
    size_t nl = field(l), nu = field(u);
    if (s.punct && (nl < s.w || nu < s.w)) return "width of a bound";
    min_len = std::max<size_t>(s.w, l.size()) + std::max<size_t>(s.w, u.size()) + 1 + (s.punct ? 2 : 0);
    if (l.find(' ') != std::string::npos || u.find(' ') != std::string::npos) return "blanks inside a bound";
    ld lo = lib::is_empty(a) ? (ld)INFINITY : a.lo, hi = lib::is_empty(a) ? -(ld)INFINITY : a.hi;
    std::string e = bad_bound(s, l, lo, true); if (e.empty()) e = bad_bound(s, u, hi, false);
    return e;
}
std::string bad_uncertain(Set const& s, std::string const& t0, Arg const& a) {
    std::string t = t0; size_t k = 0; while (k < t.size() && t[k] == ' ') ++k; t = t.substr(k);
    for (char c : t) { if (s.upper ? (c >= 'a' && c <= 'z') : (c >= 'A' && c <= 'Z')) return "letter case"; }
    tref::Lit l = tref::parse(t);
    if (l.kind != tref::INTERVAL || !l.uncertain || l.dec >= 0) return "not an uncertain literal";
    size_t q = t.find('?'); bool inf = t.size() > q + 1 && t[q + 1] == '?'; bool unb = std::isinf(a.lo) || std::isinf(a.hi);
    if (inf != unb) return unb ? "unbounded interval printed with a finite radius" : "bounded interval printed with an infinite radius";
    bool up = t.find_first_of("uU") != std::string::npos, down = t.find_first_of("dD") != std::string::npos;
    if (!unb && (up != (s.rep == 2) || down != (s.rep == 3))) return "direction letter";
    std::string m = t.substr(0, q); size_t dot = m.find('.'); size_t frac = dot == std::string::npos ? 0 : m.size() - dot - 1;
    if (frac != (s.prec ? s.prec : 6)) return "number of fractional digits";
    bool has_e = t.find_first_of("eE") != std::string::npos; if (has_e != s.uexp) return "exponent";
    if (l.lo_inf != std::isinf(a.lo) && std::isinf(a.lo)) return "does not enclose the lower bound";
    if (l.hi_inf != std::isinf(a.hi) && std::isinf(a.hi)) return "does not enclose the upper bound";
    if (!l.lo_inf) { if (!l.lo.exact()) return "exponent out of range"; if (l.lo.value() > tref::q_of(a.lo)) return "does not enclose the lower bound"; }
    if (!l.hi_inf) { if (!l.hi.exact()) return "exponent out of range"; if (l.hi.value() < tref::q_of(a.hi)) return "does not enclose the upper bound"; }
    return "";
}
// complete text of an interval; empty result: fine
std::string bad_text(Set const& s, std::string t, Arg const& a, bool dec, bool& padded) {
    padded = true; size_t len = t.size(), min_len = 0, extra = 0;
    if (dec && is_nai(a)) {
        std::string b = t;
        if (s.punct) { if (t.size() < 2 || t[0] != '[' || t.back() != ']') return "brackets"; b = t.substr(1, t.size() - 2); }
        if (tref::strip(b) != cased(s, "nai")) return "NaI printed as '" + t + "'";
        min_len = 2 * (size_t)s.w + 1 + (s.punct ? 2 : 0); padded = len >= std::max<size_t>(s.sw, min_len) && len <= std::max<size_t>(s.sw, std::max<size_t>(min_len, 12)); return "";
    }
    if (dec && !lib::is_empty(a)) {
        std::string d = (s.punct ? "_" : " ") + dec_text(s, a.dec);
        if (t.size() < d.size() || t.substr(t.size() - d.size()) != d) return "decoration (expected '" + d + "') in '" + t + "'";
        t.resize(t.size() - d.size()); extra = d.size();
    }
    std::string e;
    if (s.rep != 0 && !lib::is_empty(a)) e = bad_uncertain(s, t, a); else e = bad_inf_sup(s, t, a, min_len);
    if (!e.empty() && e.size() < 60) e += " in '" + t + "'";
    padded = len >= std::max<size_t>(s.sw, min_len + extra) && (min_len == 0 || len <= std::max<size_t>(s.sw, std::max<size_t>(min_len + extra, 12 + extra)));
    return e;
}
bool gen_P17(Ctx& c, Case& k) {
    Rng& r = c.rng; k.aux[7] = 101; k.R = k.t[0] = r.range(0, 2); k.aux[0] = r.range(0, 1); k.aux[1] = r.range(0, 1); k.x[0] = print_value(r, k.R, k.aux[0]); k.seed = r.next(); return true;
}
// now and then under a C locale with another decimal point
void locale_of(Case const& k) { ambient.point = k.seed % 8 ? '.' : ','; }
void judge_P17(Ctx& c, Case const& k) {
    locale_of(k); if (ambient.point != '.') c.tick("C locale with a decimal comma");
    Rng r(k.seed); Arg a = k.x[0]; bool dec = k.aux[0]; int level = k.aux[1];
    int reps = 3;
    for (int i = 0; i < reps; ++i) {
        Set s = random_set(r); std::ostringstream os; 
        if (r.chance(30)) { int n = r.range(1, 12); Set u; for (int j = 0; j < n; ++j) { Manip m = random_manip(r); u.apply(m); manip(os, m); } s = u; }
        else s.configure(os);
        Out o; mark(c, k, level); libtext::write(os, k.R, level, dec, a, o); ++c.calls; ++c.checks;
        std::string t = os.str(); std::string what = s.str() + ": " + show(k.R, a, dec) + " -> '" + (t.size() > 300 ? t.substr(0, 300) + "..." : t) + "'";
        if (i == 0) c.note = what;
        if (o.exc) { c.violation("exception while writing", what + " " + o.what); continue; }
        if (!os.good()) { c.violation("stream failed while writing", what); continue; }
        if (o.flags) { c.violation("flag raised while writing", what); continue; }
        bool padded; std::string e = bad_text(s, t, a, dec, padded);
        if (!e.empty()) { c.violation(e.substr(0, e.find('\'')), e + " | " + what); continue; }
        if (!padded) { c.violation("width", what); continue; }
        c.tick(s.rep == 0 || lib::is_empty(a) ? "inf-sup texts" : "uncertain texts"); if (t.size() > 200) c.tick("texts longer than 200 characters");
        if (!lib::is_empty(a) && !(std::isinf(a.lo) && std::isinf(a.hi))) { uint64_t h = hash(k); h = h * 31 + i; c.nontrivial(h); }
    }
}
// ---- literals -----------------------------------------------------------------------
std::string digits_of(Rng& r, int t, Q& q) {                     // decimal number near a number of the type, exact or truncated
    ld v = mon::value(r, t); if (r.chance(15)) { v = r.chance(50) ? max_of(t) : min_sub_of(t); if (r.chance(50)) v = -v; }
    q = tref::q_of(v); if (r.chance(25)) { ld w = next_of(t, v, INFINITY); if (std::isfinite(w)) q = (q + tref::q_of(w)) / 2; }   // half way
    if (q == 0) return r.chance(50) ? "0" : r.chance(50) ? "-0.0" : "0e5";
    long e = tref::ilog10(q); bool neg = sgn(q) < 0; Q a = abs(q);
    int n = r.chance(70) ? r.range(1, 25) : r.chance(92) ? r.range(1, 120) : r.range(120, 1300);
    Z m = tref::qfloor(tref::scale10(a, n - 1 - e)); if (r.chance(30)) m += r.range(-1, 1);
    long ex = e - n + 1; std::string d = m.get_str();
    while (d.size() > 1 && d.back() == '0' && r.chance(60)) { d.pop_back(); ++ex; }
    std::string s;
    if ((ex >= -40 && ex <= 20 && r.chance(60)) || (ex >= -1400 && ex <= 700 && r.chance(3))) {   // plain
        if (ex >= 0) s = d + std::string(ex, '0'); else if ((long)d.size() > -ex) s = d.substr(0, d.size() + ex) + "." + d.substr(d.size() + ex); else s = std::string(r.chance(70) ? "0" : "") + "." + std::string(-ex - d.size(), '0') + d;
        if (ex >= 0 && r.chance(20)) s += "."; if (r.chance(10)) s = std::string(r.chance(90) ? r.range(1, 9) : r.range(10, 700), '0') + s; if (s.find('.') != std::string::npos && r.chance(10)) s += std::string(r.chance(90) ? 1 : r.range(2, 700), '0');
    } else {
        int k = r.range(0, (int)d.size()); s = d.substr(0, k); std::string f = d.substr(k); if (!f.empty()) s += "." + f; else if (r.chance(20)) s += ".";
        long x = ex + (long)f.size(); s += (r.chance(80) ? "e" : "E") + std::string(x >= 0 && r.chance(30) ? "+" : "") + std::to_string(x);
    }
    return (neg ? "-" : r.chance(15) ? "+" : "") + s;
}
std::string hex_of(Rng& r, int t) {
    ld v = mon::value(r, t); char b[80]; static const char* up = "0123456789abcdefABCDEF";
    if (r.chance(40)) { snprintf(b, sizeof b, "%La", v); std::string s = b; if (s.find("inf") != std::string::npos) return "0x1p0"; if (r.chance(30)) { size_t p = s.find('p'); if (s.find('.') == std::string::npos) s.insert(p, "."), ++p; s.insert(p, std::string(1, up[r.below(22)]) + (r.chance(50) ? "1" : "")); } if (r.chance(20)) for (char& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
    std::string s = r.chance(30) ? "-" : r.chance(20) ? "+" : ""; s += r.chance(80) ? "0x" : "0X"; int n = r.range(0, 14), f = r.range(n ? 0 : 1, 20);
    for (int i = 0; i < n; ++i) s += up[r.below(22)]; if (f || r.chance(30)) { s += "."; if (!n && !f) s += "1"; } for (int i = 0; i < f; ++i) s += up[r.below(22)];
    int e = r.chance(70) ? r.range(-80, 80) : r.range(fmt(t).emin_lsb - 40, fmt(t).emax + 10);
    s += (r.chance(80) ? "p" : "P") + std::string(e >= 0 && r.chance(30) ? "+" : "") + std::to_string(e); return s;
}
std::string blanks(Rng& r) {
    if (r.chance(75)) return ""; static const char* w[] = {" ", "  ", "\t", "\n", " \t ", "\r\n", "\v", "\f"}; if (r.chance(90)) return w[r.below(8)];
    std::string s; for (int i = r.range(2, 40); i > 0; --i) s += w[r.below(8)]; return s;
}
std::string rat_of(Rng& r) {
    auto num = [&](int n) { std::string s; for (int i = 0; i < n; ++i) s += char('0' + r.below(10)); if (s.empty()) s = "1"; return s; };
    std::string w1 = blanks(r), w2 = blanks(r);
    return std::string(r.chance(30) ? "-" : r.chance(20) ? "+" : "") + num(r.range(1, r.chance(80) ? 8 : 60)) + w1 + "/" + w2 + (r.chance(10) ? std::string(r.range(1, 5), '0') : "") + (r.chance(95) ? std::string(1, char('1' + r.below(9))) : "0") + num(r.range(0, r.chance(80) ? 7 : 50));
}
std::string huge_of(Rng& r) { std::string s = r.chance(30) ? "-" : ""; bool hx = r.chance(30); s += hx ? "0x1." + std::to_string(r.range(0, 9)) + "p" : std::to_string(r.range(0, 9)) + (r.chance(50) ? "." + std::to_string(r.range(0, 99)) : "") + "e"; if (r.chance(50)) s += "-"; static const char* e[] = {"5000", "99999", "1000000", "99999999", "2147483647", "2147483648", "4294967296", "99999999999", "9223372036854775808", "123456789012345678901234567890"}; return s + e[r.below(10)]; }
std::string number_text(Rng& r, int t) { int k = r.range(0, 99); Q q; if (k < 60) return digits_of(r, t, q); if (k < 78) return hex_of(r, t); if (k < 96) return rat_of(r); return huge_of(r); }
std::string rcase(Rng& r, std::string s) { int k = r.range(0, 3); if (k == 0) for (char& c : s) c = toupper(c); if (k == 1) for (char& c : s) if (r.chance(50)) c = toupper(c); return s; }
std::string dec_literal(Rng& r) { static const char* d[] = {"trv", "def", "dac", "com", "ill", "0", "4", "8", "12", "16"}; int i = r.range(0, 9); if ((i == 4 || i == 5) && r.chance(70)) i = 3; if (r.chance(3)) { static const char* x[] = {"1004", "1008", "1012", "1016", "20", "12345678901016", "4294967300", "4294967312", "18446744073709551632", "comm", "co", "tr", "deff", "160", "412"}; return std::string("_") + x[r.below(15)]; } return "_" + rcase(r, d[i]); }
std::string nearly(Rng& r, std::string w) {                     // mostly the word itself
    if (w.empty() || r.chance(92)) return w; switch (r.range(0, 3)) { case 0: return w.substr(0, r.range(1, (int)w.size())); case 1: return w + w.substr(r.below(w.size())); case 2: { size_t p = r.below(w.size()); return w.substr(0, p) + w[p] + w.substr(p); } default: return w.substr(0, r.below(w.size())) + w.substr(w.size() - 1); }
}
std::string literal(Rng& r, int t) {
    int k = r.range(0, 99); std::string s;
    if (k < 6) { static const char* w[] = {"empty", "entire", "nai", ""}; s = "[" + blanks(r) + rcase(r, nearly(r, w[r.below(4)])) + blanks(r) + "]"; }
    else if (k < 22) s = "[" + blanks(r) + number_text(r, t) + blanks(r) + "]";
    else if (k < 68) {
        std::string a = number_text(r, t), b = number_text(r, t);
        switch (r.range(0, 9)) { case 0: b = a; break; case 1: a = ""; break; case 2: b = ""; break; case 3: a = rcase(r, nearly(r, r.chance(50) ? "-inf" : "-infinity")); break; case 4: b = rcase(r, nearly(r, r.chance(50) ? "inf" : r.chance(50) ? "+infinity" : "infinity")); break; case 5: a = rcase(r, "-inf"); b = rcase(r, "inf"); break; default: break; }
        tref::Lit l = tref::parse("[" + a + "," + b + "]");
        if (l.kind == tref::REJECT && r.chance(85)) std::swap(a, b);
        s = "[" + blanks(r) + a + blanks(r) + "," + blanks(r) + b + blanks(r) + "]";
    } else {
        Q q; std::string m = digits_of(r, t, q); size_t e = m.find_first_of("eE"); if (e != std::string::npos) m.resize(e);
        if (r.chance(40)) m = std::string(r.chance(30) ? "-" : r.chance(20) ? "+" : "") + std::to_string(r.range(0, 99999)) + (r.chance(60) ? "." + std::to_string(r.range(0, 9999)) : r.chance(30) ? "." : "");
        s = m + "?"; int z = r.range(0, 9); if (z < 2) s += "?"; else if (z < 8) s += std::to_string(r.chance(80) ? r.range(0, 30) : r.range(0, 1000000)) + (r.chance(5) ? std::string(r.chance(90) ? r.range(1, 60) : r.range(60, 900), '7') : "");
        if (r.chance(50)) { static const char* d[] = {"u", "d", "U", "D"}; s += d[r.below(4)]; }
        if (r.chance(50)) { s += r.chance(50) ? "e" : "E"; if (r.chance(30)) s += "+"; else if (r.chance(50)) s += "-"; s += r.chance(90) ? std::to_string(r.range(0, r.chance(70) ? 20 : 5200)) : r.chance(50) ? "2147483648" : "99999999999999999999"; }
    }
    if (r.chance(35)) s += dec_literal(r);
    return s;
}
std::string mutate(Rng& r, std::string s) {
    static const std::string al = "[],_?+-.eExXpP/0123456789abcdefinfINFnaiydutrvcom \t\n;\"'()\x80\xff*$^\\{}|\x01";
    int n = r.chance(70) ? 1 : r.range(2, 4);
    for (int i = 0; i < n; ++i) {
        size_t p = r.below(s.size() + 1);
        switch (r.range(0, 5)) {
        case 0: s.insert(p, 1, al[r.below(al.size())]); break;
        case 1: if (p < s.size()) s.erase(p, 1); break;
        case 2: if (p < s.size()) s[p] = al[r.below(al.size())]; break;
        case 3: if (p < s.size()) { size_t q = r.below(s.size()); std::swap(s[p], s[q]); } break;
        case 4: s = s.substr(0, p); break;
        case 5: { size_t q = r.below(s.size() + 1); if (p < q && s.size() + (q - p) < 900) s.insert(q, s.substr(p, q - p)); break; }
        }
    }
    return s;
}
// recorded defects, each one with its own input and expected value
struct FailSource : std::streambuf {        // throws after `most` characters
    std::string s; size_t i, most; char c; FailSource(std::string const& t, size_t n) : s(t), i(0), most(n), c(0) {}
    int underflow() { if (i >= most) throw 42; c = s[i++]; setg(&c, &c, &c + 1); return (unsigned char)c; }
};
struct Finding { const char* text; const char* what; };
const Finding findings[] = {
    {"[2e2000000,1e2000001]", "valid literal [2e2000000,1e2000001] rejected"},
};
bool gen_P18(Ctx& c, Case& k) {
    Rng& r = c.rng; k.aux[7] = 102; k.R = r.range(0, 2); std::string s;
    if (c.shard == 0 && c.made < sizeof findings / sizeof *findings) { k.aux[6] = 1 + (int)c.made++; std::strcpy(k.txt, "finding"); return true; }
    do { s = literal(r, k.R); if (r.chance(30)) s = mutate(r, s); if (r.chance(8)) s = blanks(r) + s; if (r.chance(8)) s += blanks(r); } while (s.size() > 1000);
    std::strncpy(k.txt, s.c_str(), sizeof k.txt - 1); k.seed = r.next(); return true;
}
bool same_arg(Arg const& a, Arg const& b, bool dec) { bool ea = std::isnan(a.lo) && std::isnan(a.hi), eb = std::isnan(b.lo) && std::isnan(b.hi); if (ea != eb) return false; if (!ea && !(a.lo == b.lo && a.hi == b.hi)) return false; return !dec || a.dec == b.dec; }
void judge_P18(Ctx& c, Case const& k) {
    locale_of(k); if (ambient.point != '.') c.tick("C locale with a decimal comma");
    if (k.aux[6]) {
        Finding const& f = findings[k.aux[6] - 1]; tref::Lit l = tref::parse(f.text, true); Arg want = tref::expect(1, l); Out o; mark(c, k, 0); construct(1, 0, true, f.text, o); ++c.calls; ++c.checks; c.note = f.text;
        if (o.exc || !same_arg(o.a, want, true)) c.violation(f.what, show(1, o.a, true) + ", expected " + show(1, want, true));
        return;
    }
    Rng r(k.seed); std::string s = k.txt; for (char& ch : s) if (ch == 1) ch = 0; tref::Lit l = tref::parse(s);    // NUL characters are kept as \x01 in the case
    if (l.kind == tref::UNSPECIFIED) { c.tick("texts without a specified meaning"); return; }
    c.tick(l.kind == tref::REJECT ? "texts to be rejected" : l.kind == tref::INTERVAL ? (l.uncertain ? "uncertain literals" : "inf-sup literals") : "named literals");
    if (l.dec >= 0) c.tick("literals with a decoration");
    bool nai_start = false; { size_t e = s.find(']'); if (l.kind == tref::REJECT && e != std::string::npos) nai_start = tref::parse(s.substr(0, e + 1)).kind == tref::NAI; }     // a rejected text that begins with a NaI: its interval part may have been taken
    bool ok = l.kind != tref::REJECT; c.note = "\"" + s + "\" -> " + (ok ? show(k.R, tref::expect(k.R, l), true) : "rejected");
    c.nontrivial(hash(k));
    for (int q = 0; q < 3; ++q) {
        int t = (k.R + q) % 3; if (q && r.chance(60)) continue;
        Arg want = ok ? tref::expect(t, l) : Arg(NAN, NAN, 0); bool nai = l.kind == tref::NAI;
        for (int dec = 0; dec < 2; ++dec) {
            int level = r.range(0, 1); Out o; mark(c, k, level); construct(t, level, dec, s, o); ++c.calls; ++c.checks;
            std::string w = std::string(type_name(t)) + (dec ? " decorated" : " bare") + (level ? " constructor" : " flavor") + " \"" + s + "\": ";
            std::string got = show(t, o.a, dec) + " flags " + std::to_string(o.flags) + ", expected " + (ok ? show(t, want, dec) : "rejection");
            if (o.exc) { c.violation("exception from a text constructor", w + o.what); continue; }
            int flags = ok ? (nai && !dec ? 4 : 0) : 1;
            if (!same_arg(o.a, want, dec)) c.violation(ok ? "wrong value of a literal" : "invalid literal accepted", w + got);
            else if (o.flags != flags && !(!ok && !dec && nai_start && o.flags == 5)) c.violation("flags of a text constructor", w + got);
            // the same text from a stream, followed by something that cannot belong to it
            std::string rest = r.chance(40) ? "" : r.pick(std::vector<std::string>{" x", ";", "\n[1,2]", ")", ",3"}); bool skip = r.chance(75); int mask = r.chance(20) ? 1 : 0;
            std::string body = s; while (!body.empty() && tref::ws(body.back())) body.pop_back();
            bool lead = !body.empty() && tref::ws(body[0]); bool sok = ok && (skip || !lead);
            // an invalid text may have a valid beginning
            if (!ok) {
                if (body.empty()) continue;
                size_t longest = 0; bool unspec = false;
                for (size_t n = 1; n <= body.size(); ++n) { tref::Kind kk = tref::parse(body.substr(0, n)).kind; if (kk == tref::UNSPECIFIED) unspec = true; if (kk != tref::REJECT && !tref::ws(body[n - 1])) longest = n; }
                if (unspec || (longest && !(longest < body.size() && body[longest] == '_' && body[longest - 1] == ']'))) continue;
            }
            std::istringstream is(body + rest); if (!skip) is >> std::noskipws; if (mask) is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
            Arg before = r.chance(50) ? Arg(-3, 7, 8) : Arg(NAN, NAN, 4); Arg a = before; Out so; mark(c, k, 2 + level); libtext::read(is, t, level, dec, a, so); ++c.calls; ++c.checks;
            std::string sw = std::string(type_name(t)) + (dec ? " decorated" : " bare") + " read from \"" + body + rest + "\"" + (skip ? "" : " (noskipws)") + ": " + show(t, a, dec) + ", expected " + (sok ? show(t, want, dec) : "failure");
            if (mask ? (so.exc != (sok ? 0 : 9)) : so.exc != 0) { c.violation(sok ? "exception from a stream" : mask ? "no exception from a failing stream with exceptions enabled" : "exception from a stream", sw + " " + so.what); continue; }
            bool fail = is.fail(); is.exceptions(std::ios_base::goodbit);
            if (fail != !sok) { c.violation(sok ? "stream rejects a valid literal" : "stream accepts an invalid literal", sw); continue; }
            if (!sok) { if (!same_arg(a, before, dec)) c.violation("failed read changed its target", sw); else if (so.flags) c.violation("flag raised by a failed read", sw); c.tick("failed stream reads"); continue; }
            if (!same_arg(a, want, dec)) { c.violation("wrong value read from a stream", sw); continue; }
            if (so.flags != (nai && !dec ? 4 : 0)) { c.violation("flags of a stream read", sw); continue; }
            std::string left; { is.clear(); char ch; while (is.get(ch)) left += ch; }
            if (left != rest) c.violation("stream position after a literal", sw + " left '" + left + "'");
            c.tick("successful stream reads");
            if (r.chance(10)) {                                  // the device fails before the end of the literal
                size_t b = 0; while (b < body.size() && tref::ws(body[b])) ++b; if (body.size() - b < 2) continue;
                FailSource src(body + rest, b + r.below(body.size() - b)); std::istream fs(&src); std::ios_base::iostate m = r.chance(60) ? std::ios_base::goodbit : r.chance(50) ? std::ios_base::badbit : std::ios_base::badbit | std::ios_base::failbit; fs.exceptions(m);
                Arg before = Arg(-3, 7, 8), a = before; Out fo; mark(c, k, 4 + level); libtext::read(fs, t, level, dec, a, fo); ++c.calls; ++c.checks;
                std::string fw = std::string(type_name(t)) + (dec ? " decorated" : " bare") + " read from \"" + body + rest + "\" whose device fails after " + std::to_string(src.most) + " characters: ";
                if (!fs.fail()) c.violation("failure of the device is not reported", fw + show(t, a, dec));
                else if (tref::parse(body.substr(0, src.most)).kind == tref::REJECT && !same_arg(a, before, dec)) c.violation("failed device changed the target", fw + show(t, a, dec));
                else if (fo.flags && same_arg(a, before, dec)) c.violation("flag raised by a failed read", fw);
                else if (!m && fo.exc) c.violation("exception although the stream has none enabled", fw + fo.what);
                else if (m && !fo.exc) c.violation("no exception although the stream has them enabled", fw);
                c.tick("reads from a failing device");
            }
        }
    }
}
// ---- P19 ----------------------------------------------------------------------------
struct Item { int kind; int t, level; bool dec; Arg a; int d; };      // kind 0 interval, 1 decoration, 2 overlap state, 3 number
const int OVL[] = {0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768};
Item random_item(Rng& r) { Item i; i.kind = r.chance(70) ? 0 : r.range(1, 3); i.t = r.range(0, 2); i.level = r.range(0, 1); i.dec = r.chance(50); i.a = print_value(r, i.t, i.dec); i.d = i.kind == 2 ? OVL[r.range(1, 16)] : i.kind == 1 ? 4 * r.range(0, 4) : r.range(-999, 999); return i; }
void put_item(std::ostream& os, Item const& i, Out& o) { if (i.kind == 0) libtext::write(os, i.t, i.level, i.dec, i.a, o); else if (i.kind == 1) write_dec(os, i.d, o); else if (i.kind == 2) write_ovl(os, i.d, o); else os << i.d; }
const char* ovl_name(int s) { static const char* n[] = {"both_empty", "first_empty", "second_empty", "before", "meets", "overlaps", "starts", "contained_by", "finishes", "equal", "finished_by", "contains", "started_by", "overlapped_by", "met_by", "after"}; for (int i = 0; i < 16; ++i) if (s == 1 << i) return n[i]; return "undefined"; }
std::string clip(std::string const& s) { return s.size() > 200 ? s.substr(0, 200) + "..." : s; }
// standard settings that must not matter
template<class S> void std_flags(S& s, Rng& r) {
    static const std::ios_base::fmtflags base[] = {std::ios_base::dec, std::ios_base::hex, std::ios_base::oct, std::ios_base::fmtflags(0)}, adj[] = {std::ios_base::left, std::ios_base::right, std::ios_base::internal, std::ios_base::fmtflags(0)}, fp[] = {std::ios_base::fixed, std::ios_base::scientific, std::ios_base::fixed | std::ios_base::scientific, std::ios_base::fmtflags(0)};
    s.setf(base[r.below(4)], std::ios_base::basefield); s.setf(adj[r.below(4)], std::ios_base::adjustfield); s.setf(fp[r.below(4)], std::ios_base::floatfield);
    static const std::ios_base::fmtflags bit[] = {std::ios_base::showbase, std::ios_base::showpos, std::ios_base::showpoint, std::ios_base::uppercase, std::ios_base::boolalpha, std::ios_base::unitbuf};
    for (auto b : bit) if (r.chance(40)) s.setf(b); else s.unsetf(b);
}
struct FailBuf : std::streambuf {          // fails or throws after `left` characters
    long left, most; bool thr; std::string got; FailBuf(long l, bool t) : left(l), most(l), thr(t) {}
    int overflow(int c) { if (left-- <= 0) { left = 0; if (thr) throw 42; return EOF; } got += (char)c; return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) { for (std::streamsize i = 0; i < n; ++i) if (overflow((unsigned char)s[i]) == EOF) return i; return n; }
};
std::string blankless(std::string s) { s.erase(std::remove(s.begin(), s.end(), ' '), s.end()); return s; }
void output_session(Ctx& c, Case const& k, Rng& r) {
    std::ostringstream os[2]; Set st[2]; std::string log;
    std::ios_base::fmtflags fl[2]; std::streamsize pr[2];
    auto standard = [&] (int j) { std_flags(os[j], r); if (r.chance(50)) os[j].precision(r.range(0, 20)); fl[j] = os[j].flags(); pr[j] = os[j].precision(); };
    for (int j = 0; j < 2; ++j) { fl[j] = os[j].flags(); pr[j] = os[j].precision(); if (r.chance(30)) standard(j); }
    int n = r.range(4, 14);
    for (int i = 0; i < n; ++i) {
        int j = r.range(0, 1); int z = r.range(0, 99);
        if (z < 50) { Manip m = random_manip(r); manip(os[j], m); st[j].apply(m); log += " " + std::to_string(j) + ":m" + std::to_string(m.kind) + (has_arg(m.kind) ? "(" + std::to_string(m.arg) + ")" : ""); c.tick("manipulators applied"); continue; }
        if (z < 54) { os[1 - j].copyfmt(os[j]); st[1 - j] = st[j]; fl[1 - j] = fl[j]; pr[1 - j] = pr[j]; log += " copyfmt" + std::to_string(j); continue; }
        if (z < 57) { standard(j); log += " " + std::to_string(j) + ":std" + std::to_string(fl[j]); c.tick("changes of standard stream settings"); continue; }
        if (z < 62) {                                            // the device fails on the way
            Item it = random_item(r); FailBuf bad(r.range(0, 24), r.chance(30)); std::ios_base::iostate mask = r.chance(40) ? std::ios_base::goodbit : r.chance(50) ? std::ios_base::badbit : std::ios_base::badbit | std::ios_base::failbit;
            std::basic_ios<char>& ios = os[j]; std::streambuf* own = ios.rdbuf(&bad); os[j].exceptions(mask); Out o; mark(c, k, 4); ++c.calls; ++c.checks;
            try { put_item(os[j], it, o); } catch (...) { o.exc = 8; }
            bool failed = !os[j].good(); os[j].exceptions(std::ios_base::goodbit); ios.rdbuf(own); os[j].width(0);
            std::ostringstream fresh; st[j].configure(fresh); Out o2; if (it.kind == 3) fresh.flags(os[j].flags()); put_item(fresh, it, o2); std::string want = fresh.str();
            std::string w = "after" + log + ": wrote " + (it.kind == 0 ? show(it.t, it.a, it.dec) : std::to_string(it.d)) + " to stream " + std::to_string(j) + " whose device fails after " + std::to_string(bad.most) + " characters: '" + clip(bad.got) + "', whole text '" + clip(want) + "'"; log += " " + std::to_string(j) + ":fail";
            if (it.kind < 3 && want.compare(0, bad.got.size(), bad.got) != 0) { c.violation("text cut short is not the beginning of the text", w); return; }
            if (it.kind < 3 && failed != (bad.got.size() < want.size())) { c.violation(failed ? "stream failed without reason" : "failure of the device is not reported", w); return; }
            if (!mask && o.exc) { c.violation("exception although the stream has none enabled", w); return; }
            if (mask && failed && !o.exc) { c.violation("no exception although the stream has them enabled", w); return; }
            if (os[j].flags() != fl[j] || os[j].precision() != pr[j]) { c.violation("failed write changed the standard settings of the stream", w); return; }
            c.tick("writes to a failing device"); continue;
        }
        Item it = random_item(r); os[j].str(""); Out o; int setw = r.chance(15) ? r.range(1, 40) : 0; std::string sw = setw ? ":setw" + std::to_string(setw) : ""; os[j].width(setw); if (setw) c.tick("writes with a standard field width"); mark(c, k, 0); put_item(os[j], it, o); ++c.calls; std::string got = os[j].str();
        std::ostringstream fresh; st[j].configure(fresh); Out o2; if (it.kind == 3) { fresh.flags(os[j].flags()); fresh.width(setw); } put_item(fresh, it, o2); ++c.calls; ++c.checks; std::string want = fresh.str();
        std::string w = "after" + log + ": wrote " + (it.kind == 0 ? show(it.t, it.a, it.dec) : std::to_string(it.d)) + " to stream " + std::to_string(j) + sw + " (" + st[j].str() + "): '" + clip(got) + "'";
        log += " " + std::to_string(j) + ":w";
        if (c.note.empty() || r.chance(5)) c.note = w;
        if (o.exc || o2.exc) { c.violation("exception while writing", w); return; }
        if (setw ? blankless(got) != blankless(want) : got != want) { c.violation("output depends on more than the settings of its stream", w + ", expected '" + clip(want) + "'"); return; }
        if (!os[j].good()) { c.violation("stream failed while writing", w); return; }
        if (os[j].flags() != fl[j] || os[j].precision() != pr[j] || os[j].width() != 0) { c.violation("writing changed the standard settings of the stream", w); return; }
        if (setw && it.kind < 3) got = tref::strip(got);
        if (it.kind == 1 && got != dec_text(st[j], it.d)) { c.violation("text of a decoration", w); return; }
        if (it.kind == 2) { std::string e = st[j].ovlnum ? std::to_string(it.d) : cased(st[j], ovl_name(it.d)); if (got != e) { c.violation("text of an overlap state", w); return; } }
        if (it.kind == 1) { int d = 4; std::istringstream is(got + " rest"); if (r.chance(30)) std_flags(is, r); Out q; read_dec(is, d, q); ++c.checks; std::string rest; is >> rest; if (q.exc || d != it.d || rest != "rest") { c.violation("decoration does not read back", w); return; } c.tick("decorations read back"); }
        if (it.kind == 0) {
            bool padded; std::string e = bad_text(st[j], got, it.a, it.dec, padded); ++c.checks;
            if (!setw && (!e.empty() || !padded)) { c.violation("text does not follow the settings", e + " " + w); return; }
            // read back
            if (st[j].punct && !(lib::is_empty(it.a) && !(it.dec && is_nai(it.a)) && got.find_first_of("iI") != std::string::npos)) {     // the bounds form of the empty set, [inf,-inf], is not a literal
                tref::Lit l = tref::parse(got);
                if (l.kind == tref::REJECT || l.kind == tref::UNSPECIFIED) { c.violation("written text is not a literal", w); return; }
                Arg exp = tref::expect(it.t, l), back; std::istringstream is(got + "|"); if (r.chance(30)) std_flags(is, r); Out q; mark(c, k, 1); back = Arg(5, 6, 4); libtext::read(is, it.t, it.level, it.dec, back, q); ++c.calls; ++c.checks;
                char ch = 0; if (is) is.get(ch);
                if (q.exc || !is || ch != '|') { c.violation("written text cannot be read", w); return; }
                if (!same_arg(back, exp, it.dec)) { c.violation("wrong value read back", w + " -> " + show(it.t, back, it.dec)); return; }
                bool cont = lib::is_empty(it.a) ? lib::is_empty(back) : !lib::is_empty(back) && back.lo <= it.a.lo && it.a.hi <= back.hi;
                if (!cont) { c.violation("value read back does not contain the original", w + " -> " + show(it.t, back, it.dec)); return; }
                if (it.dec && back.dec != it.a.dec && !(it.a.dec == 16 && back.dec == 12 && (std::isinf(back.lo) || std::isinf(back.hi)))) { c.violation("decoration does not round-trip", w + " -> " + show(it.t, back, it.dec)); return; }
                if (st[j].rep == 0 && st[j].num == 3 && st[j].prec == 0) { c.tick("exact hexadecimal round trips"); if (!lib::is_empty(it.a) && (back.lo != it.a.lo || back.hi != it.a.hi)) { c.violation("hexadecimal form does not round-trip exactly", w); return; } }
                c.tick("values read back");
            }
        }
        // the settings that are now in effect, made visible by short texts written to a copy
        if (r.chance(40)) {
            std::ostringstream pr1, pr2; pr1.copyfmt(os[j]); st[j].configure(pr2); Out p1, p2; std::string pm;
            for (int q = 0; q < 5; ++q) if (r.chance(70)) { static const Manip tiny[] = {{M_NO_PUNCT, 0}, {M_PRECISION, 1}, {M_DECSCI, 0}, {M_WIDTH, 0}, {M_INF_SUP, 0}}; manip(pr1, tiny[q]); manip(pr2, tiny[q]); pm += " m" + std::to_string(tiny[q].kind); }
            if (r.chance(30)) { Manip m = random_manip(r); manip(pr1, m); manip(pr2, m); pm += " m" + std::to_string(m.kind) + "(" + std::to_string(m.arg) + ")"; }
            Item s = it; if (r.chance(85)) { s.kind = 0; s.dec = r.chance(30); int lo = r.range(0, 4); s.a = r.chance(70) ? Arg(lo, lo + r.range(0, 4), s.dec ? 8 : -1) : print_value(r, s.t, s.dec); }
            pr1.width(0); if (s.kind == 3) pr1.flags(pr2.flags()), pr1.precision(pr2.precision()); put_item(pr1, s, p1); put_item(pr2, s, p2); c.calls += 2; ++c.checks; c.tick("probes of the settings after a write");
            if (p1.exc != p2.exc || pr1.str() != pr2.str()) { c.violation("writing changed the settings of the stream", w + "; afterwards, with" + pm + ": '" + clip(pr1.str()) + "', expected '" + clip(pr2.str()) + "'"); return; }
        }
        uint64_t h = hash(k) * 31 + i; c.nontrivial(h); c.tick("values written");
    }
}
void input_session(Ctx& c, Case const& k, Rng& r) {
    // a text of several items, read one after the other
    struct In { int kind, t, level; bool dec; tref::Lit l; int d; std::string word; char sep; };
    std::vector<In> v; std::string text; bool skip = r.chance(80); int n = r.range(1, 6);
    for (int i = 0; i < n; ++i) {
        In x; x.kind = r.chance(65) ? 0 : r.range(1, 3); x.t = r.range(0, 2); x.level = r.range(0, 1); x.dec = r.chance(50); x.d = 0; std::string s;
        if (x.kind == 0) { do { s = literal(r, x.t); x.l = tref::parse(s); } while (x.l.kind == tref::REJECT || x.l.kind == tref::UNSPECIFIED || s.size() > 300); }
        else if (x.kind == 1) { x.d = 4 * r.range(0, 4); Set st; st.upper = r.chance(50); st.decnum = r.chance(50); s = dec_text(st, x.d); }
        else if (x.kind == 2) { x.d = r.range(-99, 99); s = std::to_string(x.d); }
        else { x.word = "word" + std::to_string(r.range(0, 99)); s = x.word; }
        x.sep = ";,|)"[r.below(4)];
        if (skip && r.chance(30)) text += blanks(r);
        text += s + x.sep; v.push_back(x);
    }
    // an invalid item at the end
    std::string bad; int bt = r.range(0, 2); bool bdec = r.chance(50), bdeco = r.chance(20);
    if (r.chance(50)) {
        if (bdeco) bad = r.pick(std::vector<std::string>{"cmo", "17", "1", "xyz", "co", "-4", "99999999999", "_com", "tr", "3", "1004", "1016", "4294967300", "18446744073709551632", "c om"});
        if (bdeco && !skip && r.chance(40)) bad = (r.chance(50) ? " " : "\n") + r.pick(std::vector<std::string>{"com", "4", "trv", "16"});
        else if (!bdeco && !skip && r.chance(15)) bad = (r.chance(50) ? " " : "\t") + r.pick(std::vector<std::string>{"[1,2]", "3?", "[empty]", "[1]_com"});
        else if (!bdeco) bad = r.pick(std::vector<std::string>{"[2,1]", "[1,2", "[nai]_com", "1.5", "[1,2]_ill", "[1,2]_con", "[,3]_com", "abc", "[1,,2]", "[inf,inf]", "[-inf,-inf]", "[1 2]", "?3", "[1/0]", "[0x1]", "1.2?3e", "[empty]_com", "[1e]", "[1,2]_17", "--1?", "", "]", "[nan]", "[1,2]_", "1?2_ill", "5??u_com"});
        text += bad;
    }
    std::istringstream is(text); bool plain = true; for (auto& x : v) if (x.kind == 2) plain = false; if (plain && r.chance(40)) std_flags(is, r); if (!skip) is >> std::noskipws; c.note = "read '" + text + "'";
    for (size_t i = 0; i < v.size(); ++i) {
        In& x = v[i]; Out o; std::string w = "item " + std::to_string(i) + " of '" + text + "': "; mark(c, k, 2);
        if (x.kind == 0) {
            Arg a(1, 2, 4); libtext::read(is, x.t, x.level, x.dec, a, o); ++c.calls; ++c.checks; Arg e = tref::expect(x.t, x.l);
            if (o.exc || !is) { c.violation("valid literal in a sequence not read", w); return; }
            if (!same_arg(a, e, x.dec)) { c.violation("wrong value in a sequence", w + show(x.t, a, x.dec) + " expected " + show(x.t, e, x.dec)); return; }
        } else if (x.kind == 1) {
            int d = x.d == 4 ? 8 : 4; read_dec(is, d, o); ++c.calls; ++c.checks; if (o.exc || !is || d != x.d) { c.violation("decoration in a sequence", w + std::to_string(d)); return; }
        } else if (x.kind == 2) { int z = 0; is >> z; if (!is || z != x.d) { c.violation("text after a value is not readable", w); return; } }
        else { std::string s; char ch; while (is.peek() != x.sep && is.get(ch)) s += ch; s = tref::strip(s); if (s != x.word) { c.violation("text after a value is not readable", w + s); return; } }
        char ch = 0; is.get(ch); ++c.checks; if (!is || ch != x.sep) { c.violation("input did not consume exactly the text of the value", w); return; }
        c.tick("values read in a sequence");
    }
    if (!bad.empty() || text.size() == 0) {
        Out o; std::string w = "'" + bad + "' in '" + text + "': "; mark(c, k, 3); ++c.calls; ++c.checks;
        if (bdeco) { int d = r.chance(50) ? 12 : 4, e = d; read_dec(is, d, o); if (o.exc || !is.fail() || d != e) { c.violation("failed read of a decoration", w + std::to_string(d)); return; } }
        else { Arg b(-1, 4, 8), a = b; libtext::read(is, bt, r.range(0, 1), bdec, a, o); if (o.exc || !is.fail() || !same_arg(a, b, bdec)) { c.violation("failed read", w + show(bt, a, bdec)); return; } }
        c.tick("failed reads");
        // a failed stream stays failed and keeps later targets unchanged
        Arg b(-1, 4, 8), a = b; libtext::read(is, bt, 1, bdec, a, o); if (!is.fail() || !same_arg(a, b, bdec)) { c.violation("read from a failed stream", w); return; }
    }
    c.nontrivial(hash(k));
}
bool gen_P19(Ctx& c, Case& k) { k.aux[7] = 103; k.aux[0] = c.rng.chance(55); k.seed = c.rng.next(); return true; }
void judge_P19(Ctx& c, Case const& k) { locale_of(k); if (ambient.point != '.') c.tick("C locale with a decimal comma"); Rng r(k.seed); if (k.aux[0]) output_session(c, k, r); else input_session(c, k, r); }
}
namespace mon {
static std::string hexs(int t, Arg const& a, Out const& o) { (void)t; char b[200]; snprintf(b, sizeof b, "{%La,%La,%d} flags %d exception %d", a.lo, a.hi, a.dec, o.flags, o.exc); std::string s = b; size_t p; while ((p = s.find("-nan")) != std::string::npos) s.erase(p, 1); return s; }
void text_write(Rng& r, std::string& what, std::string& seen) {
    std::ostringstream os; random_set(r).configure(os); int n = r.range(0, 3); for (int i = 0; i < n; ++i) manip(os, random_manip(r));
    Item it = random_item(r); Out o; if (ambient.locale && it.kind != 3) os.imbue(foreign_locale()); put_item(os, it, o); what = "write " + (it.kind == 0 ? show(it.t, it.a, it.dec) : std::to_string(it.d)); seen = os.str() + (os.good() ? "" : " failed") + " flags " + std::to_string(o.flags) + " exception " + std::to_string(o.exc);
}
static std::string short_text(Rng& r, int t) { std::string s; do { s = literal(r, t); if (r.chance(30)) s = mutate(r, s); } while (s.size() > 200 || s.find("99999") != std::string::npos || s.find("1000000") != std::string::npos || s.find("147483") != std::string::npos || s.find("67296") != std::string::npos || s.find("5808") != std::string::npos || s.find("567890") != std::string::npos); return s; }
std::string any_literal(Rng& r, int t, bool huge) { if (!huge) return short_text(r, t); std::string s = literal(r, t); return r.chance(50) ? mutate(r, s) : s; }
void text_read(Rng& r, std::string& what, std::string& seen) {
    int t = r.range(0, 2), level = r.range(0, 1); bool dec = r.chance(50); std::string s = short_text(r, t) + r.pick(std::vector<std::string>{"", " x", ";", "\n"}); std::istringstream is(s); if (r.chance(20)) is >> std::noskipws; if (ambient.locale) is.imbue(foreign_locale());
    Arg a(-1, 2, 8); Out o; libtext::read(is, t, level, dec, a, o); bool fail = is.fail(); is.clear(); std::string rest; std::getline(is, rest, '\0'); what = "read \"" + s + "\""; seen = hexs(t, a, o) + (fail ? " failed" : "") + " rest " + (fail ? "" : rest);
}
void text_construct(Rng& r, std::string& what, std::string& seen) { int t = r.range(0, 2); bool dec = r.chance(50); std::string s = short_text(r, t); Out o; construct(t, r.range(0, 1), dec, s, o); what = "construct from \"" + s + "\""; seen = hexs(t, o.a, o); }
void text_decoration(Rng& r, std::string& what, std::string& seen) {
    std::ostringstream os; random_set(r).configure(os); if (ambient.locale) os.imbue(foreign_locale()); int d = 4 * r.range(0, 4), e = 8; Out o, q; write_dec(os, d, o); std::istringstream is(os.str()); read_dec(is, e, q); what = "decoration " + std::to_string(d); seen = os.str() + " " + std::to_string(e) + (is.fail() ? " failed" : "");
}
#ifndef VERIF_NO_TABLE
Monitor const monitors[] = {
    {"P17", gen_P17, judge_P17, "intervals (next to powers of ten, short decimals, special and extreme values of every bound type) written with three random settings each; non-trivial: distinct value/setting pair with a finite bound", nullptr},
    {"P18", gen_P18, judge_P18, "literals generated from the grammar around representable numbers, half-way points and range limits, 30 % of them mutated; each given to constructors and streams; non-trivial: distinct text with a specified meaning", nullptr},
    {"P19", gen_P19, judge_P19, "histories of manipulators, writes, copyfmt and read-backs on two streams, and sequences of values read from one stream; non-trivial: distinct session step", nullptr},
    {nullptr, nullptr, nullptr, nullptr, nullptr}};
#endif
}
