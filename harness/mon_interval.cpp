// Monitors for the interval operations: P01-P14 (without construction), P22, P23.
#include "mon_misc.hpp"
#include <algorithm>
#include <climits>
#include <cfenv>
using namespace ref; using namespace mon; using namespace lib;
namespace {
std::vector<int> FWD, ARITH, ELEM, REVT, ALLI;
std::vector<int> BOOL2, NUMS;
struct Init { Init() {
    for (int o = 0; o <= OP_fma; ++o) { FWD.push_back(o); (is_elementary(o) ? ELEM : ARITH).push_back(o); }
    for (int o = OP_sqr_rev; o <= OP_pown_revx; ++o) REVT.push_back(o);
    for (int o = 0; o < OP_COUNT; ++o) ALLI.push_back(o);
#define X(n) BOOL2.push_back(L_##n);
    LIB_BOOL2(X) LIB_BOOL2P(X) BOOL2.push_back(L_not_equal);
#undef X
#define X(n) NUMS.push_back(L_##n);
    LIB_NUM(X) NUMS.push_back(L_mid_rad);
#undef X
} } init_;

int tmax(Case const& k) { int m = k.R; for (int i = 0; i < op_arity(k.op); ++i) m = std::max(m, k.t[i]); return m; }
void set_type(Case& k, int t) { k.R = k.t[0] = k.t[1] = k.t[2] = t; }
int rnd_type(Rng& r) { static const int w[] = {TF, TF, TD, TD, TD, TL, TL}; return w[r.below(7)]; }
// operands for operation k.op in the types already chosen; decorations random
// bounds at which the case distinctions meet; drawn for all operands together, so that the combinations are covered
Arg corner(Rng& r, int t) {
    if (r.chance(1)) { Arg e; e.dec = 4; return e; }
    int f = r.chance(75) ? t : r.range(0, t);                   // of the type itself or of a narrower one
    auto val = [&](int i) -> ld { ld s = i < 8 ? -1 : 1; switch (i < 8 ? i : 16 - i) { case 0: return s * INFINITY; case 1: return s * max_of(f); case 2: return s * 2; case 3: return s; case 4: return s / 2; case 5: return s * min_norm_of(f); case 6: return s * min_sub_of(f); case 7: return s * 3 / 2; default: return 0; } };
    ld a = val(r.range(0, 16)), b = r.chance(12) ? a : val(r.range(0, 16)); if (a > b) std::swap(a, b);
    if (a == INFINITY) a = max_of(f); if (b == -INFINITY) b = -max_of(f);
    return Arg(a, b, 12);
}
void operands(Rng& r, Case& k, bool allow_nai) {
    int n = op_arity(k.op);
    if (r.chance(n == 1 ? 4 : 18)) {
        for (int i = 0; i < n; ++i) { k.x[i] = corner(r, k.t[i]); k.x[i].dec = rnd_dec(r, k.x[i]); }
        if (k.op < OP_COUNT && has_int(k.op)) k.p = exponent(r);
        return;
    }
    for (int i = 0; i < n; ++i) {
        if (i && r.chance(30)) k.x[i] = near_interval(r, k.t[i], k.x[r.below(i)]);
        else k.x[i] = interval(r, k.t[i], k.op, i);
        k.x[i].dec = rnd_dec(r, k.x[i]);
        if (allow_nai && r.chance(2)) { k.x[i] = Arg(NAN, NAN, 0); }
    }
    if (k.op < OP_COUNT && has_int(k.op)) k.p = exponent(r);
    if (k.op < OP_COUNT && has_int(k.op) && (k.p > 64 || k.p < -64) && r.chance(40)) {   // a huge exponent: all that matters is close to one
        for (int i = 0; i < n; ++i) {
            auto near1 = [&]() { ld v = 1; for (int j = r.range(0, 3); j > 0; --j) v = next_of(k.t[i], v, r.chance(50) ? 0 : 2); return v; };
            ld a = near1(), b = near1(); if (a > b) std::swap(a, b);
            switch (r.range(0, 5)) { case 0: a = r.chance(50) ? 0 : -INFINITY; break; case 1: b = r.chance(50) ? INFINITY : 2; break; case 2: a = -b; break; default: break; }
            if (r.chance(30)) { ld z = a; a = -b; b = -z; }
            k.x[i].lo = a; k.x[i].hi = b; k.x[i].dec = rnd_dec(r, k.x[i]);
        }
    }
    if (is_rev(k.op) && r.chance(60)) {
        // make c meet the image of x
        int xi = k.op == OP_mul_revx ? 2 : 1;
        if (n > xi && !is_empty(k.x[xi]) && k.op >= OP_sqr_revx && k.op <= OP_pown_revx) {
            static const int fwd[] = {OP_sqr, OP_abs, OP_sin, OP_cos, OP_tan, OP_cosh, OP_pown};
            int f = fwd[k.op - OP_sqr_revx];
            Wide w; IV a = iv(k.x[xi]); if (r.chance(50)) { ld m = r.chance(50) ? k.x[xi].lo : k.x[xi].hi; if (std::isfinite(m)) a = IV(m, m); }
            Range R = range(f, &a, k.p);
            Arg c = hull_to(k.t[0], R.r);
            if (!is_empty(c)) {
                if (r.chance(40)) { c.lo = next_of(k.t[0], c.lo, r.chance(50) ? INFINITY : -INFINITY); if (c.lo > c.hi) c.lo = c.hi; }
                if (r.chance(20)) c.lo = c.hi;
                if (r.chance(20)) c = near_interval(r, k.t[0], c);
                if (c.lo <= c.hi && c.lo < INFINITY && c.hi > -INFINITY) { k.x[0] = c; k.x[0].dec = rnd_dec(r, c); }
            }
        }
    }
    if ((k.op == OP_cancel_plus || k.op == OP_cancel_minus) && r.chance(60) && bounded(k.x[1])) {
        // a = b + z, or a of (nearly) the same width as b
        Wide w; IV b = iv(k.x[1]); Arg z = r.chance(50) ? interval(r, k.t[0]) : Arg(0, 0);
        if (r.chance(50)) { ld v = value(r, k.t[0]); z = Arg(v, v); }
        if (bounded(z)) {
            IV a[2] = {b, iv(z)}; Range R = range(k.op == OP_cancel_plus ? OP_sub : OP_add, a, 0);
            if (k.op == OP_cancel_plus) { Hp t(R.r.lo); IV q[2] = {iv(z), b}; R = range(OP_sub, q, 0); }
            Arg s = hull_to(k.t[0], R.r);
            if (r.chance(30)) { char md = r.chance(50) ? 'D' : 'U'; s.lo = round_to(k.t[0], R.r.lo.v, md); s.hi = round_to(k.t[0], R.r.hi.v, md); }
            if (bounded(s) && s.lo <= s.hi) { k.x[0] = s; k.x[0].dec = rnd_dec(r, s); }
        }
    }
}
bool any_nai(Case const& k) { for (int i = 0; i < op_arity(k.op); ++i) if (is_nai(k.x[i])) return true; return false; }
std::string vs(Case const& k, int form, Arg const& got, Arg const& want, bool dec = false) {
    return describe(k) + " via " + form_name(form) + " returned " + show(k.R, got, dec) + " expected " + show(k.R, want, dec);
}
bool nontriv(Arg const& a) { return !is_empty(a) && !(std::isinf(a.lo) && std::isinf(a.hi)); }

// expected result of a forward operation
struct Exp { Arg e; int ldec, dec; Range R; };
void expect_fwd(Case const& k, Exp& E) {
    Wide w; IV a[3]; int n = op_arity(k.op); int d = 16;
    for (int i = 0; i < n; ++i) { a[i] = iv(k.x[i]); d = std::min(d, k.x[i].dec); }
    E.R = range(k.op, a, k.p); E.e = hull_to(k.R, E.R.r); E.ldec = E.R.ldec;
    d = std::min(d, E.ldec);
    if (d == 16 && !bounded(E.e)) d = 12;
    if (is_empty(E.e)) d = 4;
    E.dec = d; E.e.dec = d;
}
// ---- operation tables and generators --------------------------------------------
bool gen_ops(Ctx& c, Case& k, std::vector<int> const& ops, bool nai) { Rng& r = c.rng; set_type(k, rnd_type(r)); k.op = r.pick(ops); operands(r, k, nai); return true; }

int pick_forms(Ctx& c, int* f) {        // all forms for the same-type case: flavor first, others rotating
    int n = 0; f[n++] = RAW; f[n++] = RAWDEC;
    f[n++] = c.rng.chance(50) ? ST : STDEC; f[n++] = c.rng.chance(50) ? FREE : FREEDEC; f[n++] = c.rng.chance(50) ? OPR : OPRDEC; return n;
}
int all_forms(int* f) { for (int i = 0; i < NFORMS; ++i) f[i] = i; return NFORMS; }

// ---- P01 / P02: containment -------------------------------------------------------
void sample_points(Ctx& c, Case const& k, std::vector<std::vector<Hp>>& pts) {
    Rng& r = c.rng; int n = op_arity(k.op); pts.resize(n);
    for (int i = 0; i < n; ++i) {
        Arg const& a = k.x[i]; std::vector<Hp>& v = pts[i]; int t = k.t[i];
        auto add = [&](ld x) { if (std::isfinite(x) && x >= a.lo && x <= a.hi) v.push_back(hp(x)); };
        add(a.lo); add(a.hi); add(0); add(1); add(-1); add(next_of(t, 0, 1)); add(next_of(t, a.lo, INFINITY)); add(next_of(t, a.hi, -INFINITY));
        if (std::isfinite(a.lo) && std::isfinite(a.hi)) add(a.lo / 2 + a.hi / 2);
        add(value(r, t)); add(value(r, t, k.op));
        if (std::isinf(a.lo)) add(-max_of(t));
        if (std::isinf(a.hi)) add(max_of(t));
        // interior points that are not representable in the bound type
        if (bounded(a) && a.lo < a.hi) {
            Hp l = hp(a.lo), h = hp(a.hi), q; mpfr_sub(q, h, l, MPFR_RNDN); mpfr_mul_d(q, q, r.unit(), MPFR_RNDN); mpfr_add(q, q, l, MPFR_RNDN);
            if (cmp(q, l) >= 0 && cmp(q, h) <= 0) v.push_back(q);
            if (k.op == OP_sin || k.op == OP_cos || k.op == OP_tan) {       // next to the critical points
                mpz_t z; mpz_init(z); quadrant(z, l); mpz_add_ui(z, z, 1 + (k.op == OP_sin ? 0 : 0));
                for (int j = 0; j < 4; ++j) {
                    Hp d, u; kpi2(z, d, u, PREC + 64 + std::max<long>(0, l.zero() ? 0 : mpfr_get_exp(l.v)));
                    if (cmp(d, l) >= 0 && cmp(d, h) <= 0) v.push_back(d);
                    if (cmp(u, l) >= 0 && cmp(u, h) <= 0) v.push_back(u);
                    mpz_add_ui(z, z, 1);
                }
                mpz_clear(z);
            }
        }
    }
}
void judge_contain(Ctx& c, Case const& k) {
    if (any_nai(k)) return;
    Exp E; expect_fwd(k, E);
    int forms[NFORMS]; int nf = c.replaying ? all_forms(forms) : pick_forms(c, forms);
    Out first; std::vector<Out> outs; std::vector<int> used;
    for (int i = 0; i < nf; ++i) {
        Out o; if (!observe(c, k, forms[i], o)) continue;
        ++c.checks;
        if (o.kind != K_INTERVAL || o.exc) { c.violation("exception", describe(k) + " via " + form_name(forms[i]) + " threw " + o.what); continue; }
        if (!mon::subset(E.e, o.a)) { c.violation("range not enclosed", vs(k, forms[i], o.a, E.e)); continue; }
        if (E.R.r.empty && !is_empty(o.a)) { c.violation("not empty outside the domain", vs(k, forms[i], o.a, E.e)); continue; }
        outs.push_back(o); used.push_back(forms[i]);
    }
    if (outs.empty()) return;
    Arg res = outs[0].a; for (auto& o : outs) if (!mon::same(res, o.a)) { c.violation("entry points disagree", vs(k, used[&o - &outs[0]], o.a, res)); break; }
    if (E.R.r.empty) { c.tick("empty results"); return; }
    if (nontriv(E.e)) c.nontrivial(hash(k));
    c.tick(std::string("op ") + lib::op_name(k.op));
    // pointwise observation, independent of the range computation
    Wide w; std::vector<std::vector<Hp>> pts; sample_points(c, k, pts);
    int n = op_arity(k.op); Hp lo, hi, rl = hp(res.lo), rh = hp(res.hi); bool e = is_empty(res);
    int tries = n == 1 ? (int)pts[0].size() : 8;
    for (int j = 0; j < tries; ++j) {
        Hp x[3]; bool ok = true;
        for (int i = 0; i < n; ++i) { if (pts[i].empty()) { ok = false; break; } x[i] = pts[i][n == 1 ? j : c.rng.below(pts[i].size())]; }
        if (!ok) break;
        if (!point(k.op, x, k.p, lo, hi)) continue;
        ++c.checks; c.tick("points checked");
        bool bad = e || cmp(hi, rl) < 0 || cmp(lo, rh) > 0;
        if (bad) { c.violation("point not enclosed", describe(k) + " = " + show(k.R, res, false) + " does not contain the value " + ref::show(lo) + " at x=" + ref::show(x[0]) + (n > 1 ? ", y=" + ref::show(x[1]) : "")); break; }
        if (cmp(hi, E.R.r.lo) < 0 || cmp(lo, E.R.r.hi) > 0) { fprintf(stderr, "HARNESS-ERROR reference range misses a point: %s\n", describe(k).c_str()); exit(2); }
    }
}
bool gen_P01(Ctx& c, Case& k) { return gen_ops(c, k, ARITH, false); }
bool gen_P02(Ctx& c, Case& k) { return gen_ops(c, k, ELEM, false); }

// ---- P03: tightness ---------------------------------------------------------------
void judge_P03(Ctx& c, Case const& k) {
    if (any_nai(k)) return;
    Exp E; expect_fwd(k, E);
    int forms[NFORMS]; int nf = c.replaying ? all_forms(forms) : pick_forms(c, forms);
    for (int i = 0; i < nf; ++i) {
        Out o; if (!observe(c, k, forms[i], o)) continue;
        ++c.checks;
        if (o.kind != K_INTERVAL || o.exc) { c.violation("exception", describe(k) + " via " + form_name(forms[i]) + " threw " + o.what); continue; }
        if (!mon::same(E.e, o.a)) c.violation("not the tightest enclosure", vs(k, forms[i], o.a, E.e));
    }
    if (nontriv(E.e)) c.nontrivial(hash(k));
    c.tick(std::string("op ") + lib::op_name(k.op));
}
bool gen_P03(Ctx& c, Case& k) { return gen_ops(c, k, FWD, false); }

// ---- reverse operations -------------------------------------------------------------
bool is_trig_rev(int op) { return op == OP_sin_rev || op == OP_cos_rev || op == OP_tan_rev || op == OP_sin_revx || op == OP_cos_revx || op == OP_tan_revx; }
struct RevExp { IV c, x, b; Pre pre; Sol sol; Arg outer; bool outer_ok; };
void expect_rev(Case const& k, RevExp& E) {
    bool mul = k.op == OP_mul_rev || k.op == OP_mul_revx;
    bool one = k.op == OP_mul_rev || (k.op >= OP_sqr_rev && k.op <= OP_pown_rev);
    E.c = iv(k.x[mul ? 1 : 0]); if (mul) E.b = iv(k.x[0]);
    E.x = one ? IV(-INFINITY, INFINITY) : iv(k.x[mul ? 2 : 1]);
    preimage(k.op, E.c, E.x, mul ? &E.b : nullptr, k.p, E.pre);
    solve(E.pre, E.x, E.sol);
    IV o = outer(E.pre, E.x, tmax(k)); E.outer = hull_to(k.R, o); E.outer_ok = true;
}
// magnitude up to which the accuracy of the trigonometric reverse functions is asserted
const ld MODERATE = 1000;
void judge_rev_result(Ctx& c, Case const& k, int form, RevExp const& E, Arg const& got, bool tight) {
    bool one = k.op == OP_mul_rev || (k.op >= OP_sqr_rev && k.op <= OP_pown_rev);
    Arg const* x = one ? nullptr : &k.x[k.op == OP_mul_revx ? 2 : 1];
    ++c.checks;
    if (!E.sol.empty) {
        Arg want; want.lo = round_to(k.R, E.sol.lou.v, 'D'); want.hi = round_to(k.R, E.sol.hid.v, 'U'); want.dec = -1;
        bool bad = is_empty(got);
        if (!bad) { Hp l = hp(got.lo), h = hp(got.hi); bad = cmp(l, E.sol.lou) > 0 || cmp(h, E.sol.hid) < 0; }
        if (bad) { c.violation("solution lost", vs(k, form, got, want)); return; }
    }
    Arg none; none.dec = -1;
    if (E.pre.br.empty() && !is_empty(got)) { c.violation("not empty without solution", vs(k, form, got, none)); return; }
    if (x && !is_empty(got)) {
        Wide w; Arg xr = hull_to(k.R, iv(*x));
        if (is_empty(*x) || !mon::subset(got, xr)) { c.violation("result is not a part of x", vs(k, form, got, xr)); return; }
    }
    if (!tight) return;
    if (!is_trig_rev(k.op)) {
        if (!mon::subset(got, E.outer)) c.violation("wider than one outward rounding", vs(k, form, got, E.outer));
    } else if (!is_empty(got) && x && bounded(*x)) {
        ld mag = std::max(std::fabs(x->lo), std::fabs(x->hi));
        if (mag > MODERATE) return;
        // a few units in the last place at the magnitude of the argument (at least that of pi)
        ld ulp = std::ldexp((ld)1, 1 - fmt(k.R).p) * std::max(mag, (ld)4) * (ld)(8 + mag);
        // solutions that miss x by no more than the tolerance may be reported at the bound of x
        IV xx = iv(*x); Hp T = hp(ulp); mpfr_sub(xx.lo, xx.lo, T, MPFR_RNDD); mpfr_add(xx.hi, xx.hi, T, MPFR_RNDU);
        Pre pre; Wide w; preimage(k.op, E.c, xx, nullptr, k.p, pre);
        Arg o = hull_to(k.R, outer(pre, xx, tmax(k)));
        if (is_empty(o)) { c.violation("more than a few ulps too wide", vs(k, form, got, o)); return; }
        if (got.lo < o.lo - ulp || got.hi > o.hi + ulp) c.violation("more than a few ulps too wide", vs(k, form, got, o));
        c.tick("trig accuracy checked");
    }
}
void judge_rev(Ctx& c, Case const& k, bool mixed) {
    bool nai = any_nai(k); RevExp E; { Wide w; if (!nai) expect_rev(k, E); }
    int forms[NFORMS]; int nf = mixed ? 4 : all_forms(forms); for (int i = 0; i < nf; ++i) forms[i] = i;
    for (int i = 0; i < nf; ++i) {
        int f = forms[i]; if (nai && !decorated(f)) continue;
        Out o; if (!observe(c, k, f, o)) continue;
        if (o.kind != K_INTERVAL || o.exc) { c.violation("exception", describe(k) + " via " + form_name(f) + " threw " + o.what); continue; }
        if (nai) { if (o.a.dec != 0 || !is_empty(o.a)) { Arg w; w.dec = 0; c.violation("NaI operand", vs(k, f, o.a, w, true)); } continue; }
        if (decorated(f) && o.a.dec != 4) { Arg w = o.a; w.dec = 4; c.violation("decoration", vs(k, f, o.a, w, true)); }
        Wide w; judge_rev_result(c, k, f, E, o.a, true);
    }
    if (!nai && nontriv(E.outer)) c.nontrivial(hash(k));
    if (!nai && !E.sol.empty) c.tick("with solutions"); else c.tick("without solutions");
    c.tick(std::string("op ") + lib::op_name(k.op));
}
bool gen_P11(Ctx& c, Case& k) { return gen_ops(c, k, REVT, true); }
void judge_P11(Ctx& c, Case const& k) { judge_rev(c, k, false); }

// ---- P12 ------------------------------------------------------------------------------
void judge_pair(Ctx& c, Case const& k, bool mixed) {
    bool nai = any_nai(k); Pre pre; Arg w1, w2; w1.dec = w2.dec = -1; int d = 4;
    if (!nai) {
        Wide w; IV b = iv(k.x[0]), cc = iv(k.x[1]), ent(-INFINITY, INFINITY);
        preimage(k.op, cc, ent, &b, 0, pre);
        Arg* dst[2] = {&w1, &w2};
        for (size_t i = 0; i < pre.br.size() && i < 2; ++i) { IV q; q.empty = false; q.lo = pre.br[i].lod; q.hi = pre.br[i].hiu; *dst[i] = hull_to(k.R, q); }
        bool zero = is_empty(k.x[0]) || (k.x[0].lo <= 0 && k.x[0].hi >= 0);
        d = std::min(std::min(k.x[0].dec, k.x[1].dec), zero ? 4 : 16);
        if (d == 16 && !bounded(w1)) d = 12;
    }
    int nf = mixed ? 4 : NFORMS;
    for (int f = 0; f < nf; ++f) {
        if (nai && !decorated(f)) continue;
        Out o; if (!observe(c, k, f, o)) continue;
        ++c.checks;
        if (o.kind != K_PAIR || o.exc) { c.violation("exception", describe(k) + " via " + form_name(f) + " threw " + o.what); continue; }
        if (nai) { if (o.a.dec != 0 || !is_empty(o.a) || o.b.dec != 0) { Arg w; w.dec = 0; c.violation("NaI operand", vs(k, f, o.a, w, true)); } continue; }
        if (!mon::same(o.a, w1)) c.violation("first part", vs(k, f, o.a, w1));
        else if (!mon::same(o.b, w2)) c.violation("second part", vs(k, f, o.b, w2));
        if (decorated(f)) {
            Arg a = o.a; a.dec = d; Arg b = o.b; b.dec = 4;
            if (o.a.dec != d) c.violation("decoration of the first part", vs(k, f, o.a, a, true));
            if (o.b.dec != 4) c.violation("decoration of the second part", vs(k, f, o.b, b, true));
        }
    }
    if (!nai) { c.tick(pre.br.size() == 2 ? "two parts" : pre.br.size() == 1 ? "one part" : "no part"); if (nontriv(w1)) c.nontrivial(hash(k)); }
    c.tick(std::string("op ") + lib::op_name(k.op));
}
const std::vector<int> MULREV = {OP_mul_rev, OP_mul_revx, OP_mul_rev_to_pair};
void gen_mulrev_operands(Rng& r, Case& k) {
    operands(r, k, true);
    if (r.chance(50)) {          // signs and zeros matter
        for (int i = 0; i < 2; ++i) if (!is_empty(k.x[i]) && r.chance(60)) {
            Arg& a = k.x[i];
            switch (r.range(0, 5)) {
            case 0: if (a.hi > 0) { a.lo = 0; } break;
            case 1: if (a.lo < 0) { a.hi = 0; } break;
            case 2: if (std::isfinite(a.lo) && a.lo > 0) { a.lo = -a.lo; } break;
            case 3: a.lo = a.hi = 0; break;
            case 4: if (a.lo > 0) a.hi = INFINITY; else if (a.hi < 0) a.lo = -INFINITY; break;
            default: if (std::isfinite(a.lo) && std::isfinite(a.hi)) { ld t = -a.lo; a.lo = -a.hi; a.hi = t; } break;
            }
            a.dec = rnd_dec(r, a);
        }
    }
}
bool gen_P12(Ctx& c, Case& k) { Rng& r = c.rng; set_type(k, rnd_type(r)); k.op = r.pick(MULREV); gen_mulrev_operands(r, k); return true; }
void judge_P12(Ctx& c, Case const& k) { if (k.op == OP_mul_rev_to_pair) judge_pair(c, k, false); else judge_rev(c, k, false); }

// ---- P09 / P13: exact set operations, cancellation ---------------------------------------
void judge_setop(Ctx& c, Case const& k, bool mixed) {
    bool nai = any_nai(k); Arg want; want.dec = -1;
    if (!nai) {
        Wide w; IV a = iv(k.x[0]), b = iv(k.x[1]), r;
        if (k.op == OP_intersection) r = inter(a, b); else if (k.op == OP_convex_hull) r = hull2(a, b); else r = cancel(k.op, a, b);
        want = hull_to(k.R, r);
    }
    int nf = mixed ? 4 : NFORMS;
    for (int f = 0; f < nf; ++f) {
        if (nai && !decorated(f)) continue;
        Out o; if (!observe(c, k, f, o)) continue;
        ++c.checks;
        if (o.kind != K_INTERVAL || o.exc) { c.violation("exception", describe(k) + " via " + form_name(f) + " threw " + o.what); continue; }
        if (nai) { if (o.a.dec != 0 || !is_empty(o.a)) { Arg w; w.dec = 0; c.violation("NaI operand", vs(k, f, o.a, w, true)); } continue; }
        if (!mon::same(o.a, want)) c.violation("wrong set", vs(k, f, o.a, want));
        if (decorated(f) && o.a.dec != 4) { Arg w = o.a; w.dec = 4; c.violation("decoration", vs(k, f, o.a, w, true)); }
    }
    if (!nai) { c.tick(is_empty(want) ? "empty results" : !bounded(want) ? "unbounded results" : "bounded results"); if (nontriv(want)) c.nontrivial(hash(k)); }
    c.tick(std::string("op ") + lib::op_name(k.op));
}
const std::vector<int> SETOPS = {OP_intersection, OP_convex_hull}, CANCEL = {OP_cancel_plus, OP_cancel_minus};
void mixed_types(Rng& r, Case& k) { k.R = r.range(0, 2); for (int i = 0; i < 3; ++i) k.t[i] = r.range(0, 2); }
bool gen_P09(Ctx& c, Case& k) { Rng& r = c.rng; set_type(k, rnd_type(r)); if (r.chance(35)) mixed_types(r, k); k.op = r.pick(SETOPS); operands(r, k, true); if (r.chance(40) && !is_nai(k.x[0])) { k.x[1] = near_interval(r, k.t[1], k.x[0]); k.x[1].dec = rnd_dec(r, k.x[1]); } return true; }
bool is_same_type(Case const& k) { for (int i = 0; i < op_arity(k.op); ++i) if (k.t[i] != k.R) return false; return true; }
void judge_P09(Ctx& c, Case const& k) { judge_setop(c, k, !is_same_type(k)); }
bool gen_P13(Ctx& c, Case& k) { Rng& r = c.rng; set_type(k, rnd_type(r)); if (r.chance(30)) mixed_types(r, k); k.op = r.pick(CANCEL); operands(r, k, true); return true; }
void judge_P13(Ctx& c, Case const& k) { judge_setop(c, k, !is_same_type(k)); }

// ---- P07: relations -----------------------------------------------------------------------
bool relation(int op, Arg const& a, Arg const& b) {
    bool ea = is_empty(a), eb = is_empty(b); const ld inf = INFINITY;
    switch (op) {
    case L_equal: return (ea && eb) || (!ea && !eb && a.lo == b.lo && a.hi == b.hi);
    case L_not_equal: return !relation(L_equal, a, b);
    case L_subset: return ea || (!eb && b.lo <= a.lo && a.hi <= b.hi);
    case L_superset: return relation(L_subset, b, a);
    case L_less: return (ea && eb) || (!ea && !eb && a.lo <= b.lo && a.hi <= b.hi);
    case L_greater: return relation(L_less, b, a);
    case L_precedes: return ea || eb || a.hi <= b.lo;
    case L_succeeds: return relation(L_precedes, b, a);
    case L_interior: return ea || (!eb && (b.lo < a.lo || b.lo == -inf) && (a.hi < b.hi || b.hi == inf));
    case L_contains_interior: return relation(L_interior, b, a);
    case L_strictly_less: return (ea && eb) || (!ea && !eb && (a.lo < b.lo || (a.lo == -inf && b.lo == -inf)) && (a.hi < b.hi || (a.hi == inf && b.hi == inf)));
    case L_strictly_greater: return relation(L_strictly_less, b, a);
    case L_strictly_precedes: return ea || eb || a.hi < b.lo;
    case L_strictly_succeeds: return relation(L_strictly_precedes, b, a);
    case L_disjoint: return ea || eb || a.hi < b.lo || b.hi < a.lo;
    }
    return false;
}
const std::vector<int> BOOL1 = {L_is_empty, L_is_entire, L_is_nai};
bool gen_P07(Ctx& c, Case& k) {
    Rng& r = c.rng; set_type(k, rnd_type(r)); k.op = r.chance(8) ? r.pick(BOOL1) : r.pick(BOOL2);
    if (op_arity(k.op) == 2 && r.chance(40)) { k.t[0] = r.range(0, 2); k.t[1] = r.range(0, 2); k.R = k.t[0]; }
    operands(r, k, true);
    if (op_arity(k.op) == 2 && r.chance(60) && !is_nai(k.x[0])) { k.x[1] = near_interval(r, k.t[1], k.x[0]); k.x[1].dec = rnd_dec(r, k.x[1]); if (r.chance(2)) k.x[1] = Arg(NAN, NAN, 0); }
    // signed zeros
    for (int i = 0; i < op_arity(k.op); ++i) { if (k.x[i].lo == 0 && r.chance(50)) k.x[i].lo = -0.0L; if (k.x[i].hi == 0 && r.chance(50)) k.x[i].hi = -0.0L; }
    return true;
}
void judge_P07(Ctx& c, Case const& k) {
    bool nai = any_nai(k), want;
    if (op_arity(k.op) == 2) want = nai ? k.op == L_not_equal : relation(k.op, k.x[0], k.x[1]);
    else if (k.op == L_is_nai) want = is_nai(k.x[0]);
    else if (nai) want = false;
    else if (k.op == L_is_empty) want = is_empty(k.x[0]);
    else want = k.x[0].lo == -INFINITY && k.x[0].hi == INFINITY;
    for (int f = 0; f < NFORMS; ++f) {
        if (nai && !decorated(f)) continue;
        Out o; if (!observe(c, k, f, o)) continue;
        ++c.checks; c.tick(o.tf ? "observed true" : "observed false");
        if (o.kind != K_BOOL || o.exc) { c.violation("exception", describe(k) + " via " + form_name(f) + " threw " + o.what); continue; }
        if (o.tf != want) c.violation("wrong truth value", describe(k) + " via " + form_name(f) + " returned " + (o.tf ? "true" : "false"));
    }
    if (!nai && !is_empty(k.x[0]) && (op_arity(k.op) == 1 || !is_empty(k.x[1]))) c.nontrivial(hash(k));
    c.tick(std::string("op ") + lib::op_name(k.op));
}
// ---- P08 ----------------------------------------------------------------------------------
int overlap_state(Arg const& a, Arg const& b) {
    bool ea = is_empty(a), eb = is_empty(b);
    if (ea && eb) return 1 << 0;
    if (ea) return 1 << 1;
    if (eb) return 1 << 2;
    if (a.hi < b.lo) return 1 << 3;
    if (b.hi < a.lo) return 1 << 15;
    if (a.lo == b.lo) return a.hi == b.hi ? 1 << 9 : a.hi < b.hi ? 1 << 6 : 1 << 12;
    if (a.hi == b.hi) return a.lo > b.lo ? 1 << 8 : 1 << 10;
    if (a.hi == b.lo) return 1 << 4;
    if (a.lo == b.hi) return 1 << 14;
    if (a.lo < b.lo) return a.hi < b.hi ? 1 << 5 : 1 << 11;
    return a.hi > b.hi ? 1 << 13 : 1 << 7;
}
const std::vector<int> P08OPS = {L_overlap, L_overlap, L_overlap, L_is_member, L_is_member, L_is_singleton, L_is_common_interval};
bool gen_P08(Ctx& c, Case& k) {
    Rng& r = c.rng; set_type(k, rnd_type(r)); k.op = r.pick(P08OPS);
    if (k.op == L_overlap && r.chance(40)) { k.t[0] = r.range(0, 2); k.t[1] = r.range(0, 2); k.R = k.t[0]; }
    operands(r, k, true);
    if (k.op == L_overlap && r.chance(70) && !is_nai(k.x[0])) { k.x[1] = near_interval(r, k.t[1], k.x[0]); k.x[1].dec = rnd_dec(r, k.x[1]); if (r.chance(2)) k.x[1] = Arg(NAN, NAN, 0); }
    for (int i = 0; i < op_arity(k.op); ++i) { if (k.x[i].lo == 0 && r.chance(50)) k.x[i].lo = -0.0L; if (k.x[i].hi == 0 && r.chance(50)) k.x[i].hi = -0.0L; }
    if (k.op == L_is_member) {
        k.mt = r.range(0, 2);
        switch (r.range(0, 6)) {
        case 0: k.m = NAN; break; case 1: k.m = r.chance(50) ? INFINITY : -INFINITY; break; case 2: k.m = value(r, k.mt); break;
        default: { ld b = is_empty(k.x[0]) ? 0 : r.chance(50) ? k.x[0].lo : k.x[0].hi; k.m = b;
            if (k.mt == TF) k.m = (float)b; else if (k.mt == TD) k.m = (double)b;
            if (r.chance(60)) k.m = next_of(k.mt, k.m, r.chance(50) ? INFINITY : -INFINITY);
            if (r.chance(10)) k.m = -k.m;
            break; }
        }
    }
    return true;
}
void judge_P08(Ctx& c, Case const& k) {
    bool nai = any_nai(k); int st = 0; bool want = false; Arg const& a = k.x[0];
    if (!nai) {
        if (k.op == L_overlap) st = overlap_state(a, k.x[1]);
        else if (k.op == L_is_member) want = !is_empty(a) && std::isfinite(k.m) && a.lo <= k.m && k.m <= a.hi;
        else if (k.op == L_is_singleton) want = !is_empty(a) && a.lo == a.hi;
        else want = bounded(a);
    }
    for (int f = 0; f < NFORMS; ++f) {
        if (nai && !decorated(f)) continue;
        Out o; if (!observe(c, k, f, o)) continue;
        ++c.checks;
        char b[100]; snprintf(b, sizeof b, " (m=%La as %s)", k.m, type_name(k.mt));
        if (o.exc) { c.violation("exception", describe(k) + " via " + form_name(f) + " threw " + o.what); continue; }
        if (k.op == L_overlap) { c.tick("state " + std::to_string(o.state)); if (o.state != st) c.violation("wrong overlap state", describe(k) + " via " + form_name(f) + " returned " + std::to_string(o.state) + " expected " + std::to_string(st)); }
        else { c.tick(o.tf ? "observed true" : "observed false"); if (o.tf != want) c.violation("wrong truth value", describe(k) + (k.op == L_is_member ? b : "") + " via " + form_name(f) + " returned " + (o.tf ? "true" : "false")); }
    }
    if (!nai && !is_empty(a) && (op_arity(k.op) == 1 || !is_empty(k.x[1]))) c.nontrivial(hash(k));
    c.tick(std::string("op ") + lib::op_name(k.op));
}
// ---- P10 ----------------------------------------------------------------------------------
struct NumExp { ld v, v2; ld alt, alt2; bool has_alt; };
bool eqn(ld a, ld b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
void expect_num(Case const& k, NumExp& E) {
    Arg const& a = k.x[0]; E.has_alt = false; E.v = E.v2 = E.alt = E.alt2 = NAN; int R = k.R;
    if (is_nai(a)) return;
    if (is_empty(a)) { if (k.op == L_inf) E.v = INFINITY; if (k.op == L_sup) E.v = -INFINITY; return; }
    Wide w; Hp l = hp(a.lo), h = hp(a.hi);
    switch (k.op) {
    case L_inf: E.v = round_to(R, l.v, 'D'); return;
    case L_sup: E.v = round_to(R, h.v, 'U'); return;
    case L_wid: { Hp d(34000); if (std::isinf(a.lo) || std::isinf(a.hi)) { E.v = INFINITY; return; } mpfr_sub(d, h, l, MPFR_RNDN); E.v = round_to(R, d.v, 'U'); return; }
    case L_mag: { Hp u, v; mpfr_abs(u, l, MPFR_RNDN); mpfr_abs(v, h, MPFR_RNDN); mpfr_max(u, u, v, MPFR_RNDN); E.v = round_to(R, u.v, 'U'); return; }
    case L_mig: { Hp u, v; mpfr_abs(u, l, MPFR_RNDN); mpfr_abs(v, h, MPFR_RNDN); mpfr_min(u, u, v, MPFR_RNDN); if (a.lo <= 0 && a.hi >= 0) mpfr_set_zero(u, 1); E.v = round_to(R, u.v, 'D'); return; }
    default: break;
    }
    ld m, m2; bool tie2 = false;
    int T = k.t[0];
    if (std::isinf(a.lo) && std::isinf(a.hi)) m = m2 = 0;
    else if (std::isinf(a.lo)) m = m2 = -max_of(R);
    else if (std::isinf(a.hi)) m = m2 = max_of(R);
    else {
        Hp s(34000); mpfr_add(s, l, h, MPFR_RNDN); mpfr_div_2ui(s, s, 1, MPFR_RNDN); m = m2 = round_to(R, s.v, 'N');
        ld d = round_to(R, s.v, 'D'), u = round_to(R, s.v, 'U');
        if (d != u && std::isfinite(d) && std::isfinite(u)) { Hp q(34000); mpfr_add(q, hp(d).v, hp(u).v, MPFR_RNDN); mpfr_div_2ui(q, q, 1, MPFR_RNDN); if (mpfr_equal_p(q, s)) { tie2 = true; m2 = m == d ? u : d; } }
    }
    (void)T;
    auto rad = [&](ld mm) -> ld {
        if (std::isinf(a.lo) || std::isinf(a.hi) || std::isinf(mm)) return INFINITY;
        Hp M = hp(mm), u(34000), v(34000); mpfr_sub(u, M, l, MPFR_RNDN); mpfr_sub(v, h, M, MPFR_RNDN); if (mpfr_less_p(u, v)) mpfr_swap(u, v);
        return round_to(R, u.v, 'U');
    };
    if (k.op == L_mid) { E.v = m; E.alt = m2; E.has_alt = tie2; return; }
    if (k.op == L_rad) { E.v = rad(m); E.alt = rad(m2); E.has_alt = tie2; return; }
    E.v = m; E.v2 = rad(m); E.alt = m2; E.alt2 = rad(m2); E.has_alt = tie2;
}
void judge_num(Ctx& c, Case const& k, bool mixed) {
    NumExp E; expect_num(k, E); bool nai = is_nai(k.x[0]); int nf = mixed ? 4 : NFORMS;
    for (int f = 0; f < nf; ++f) {
        if (nai && !decorated(f)) continue;
        Out o; if (!observe(c, k, f, o)) continue;
        ++c.checks; char b[300];
        if (o.exc) { c.violation("exception", describe(k) + " via " + form_name(f) + " threw " + o.what); continue; }
        bool two = k.op == L_mid_rad;
        bool ok = (eqn(o.n1, E.v) && (!two || eqn(o.n2, E.v2))) || (E.has_alt && eqn(o.n1, E.alt) && (!two || eqn(o.n2, E.alt2)));
        if (!ok) { snprintf(b, sizeof b, " returned %La, %La expected %La, %La", o.n1, o.n2, E.v, E.v2); c.violation("wrong number", describe(k) + " via " + form_name(f) + b); continue; }
        if (o.n1 == 0 && !nai) { bool neg = std::signbit(o.n1); if (neg != (k.op == L_inf)) c.violation("sign of zero", describe(k) + " via " + form_name(f)); }
        if (two && o.n2 == 0 && std::signbit(o.n2)) c.violation("sign of zero", describe(k) + " via " + form_name(f));
    }
    if (bounded(k.x[0]) && k.x[0].lo < k.x[0].hi) c.nontrivial(hash(k));
    c.tick(std::string("op ") + lib::op_name(k.op));
}
bool gen_P10(Ctx& c, Case& k) {
    Rng& r = c.rng; set_type(k, rnd_type(r)); k.op = r.pick(NUMS); if (r.chance(35)) k.R = r.range(0, 2); operands(r, k, true);
    if (r.chance(15)) { ld v = value(r, k.t[0]); ld u = next_of(k.t[0], v, INFINITY); if (std::isfinite(u)) k.x[0] = Arg(v, u, 12); }
    if (r.chance(10)) { ld m = min_sub_of(k.t[0]); k.x[0] = Arg(-m * r.range(0, 5), m * r.range(0, 5), 12); }
    if (k.x[0].lo == 0 && r.chance(50)) k.x[0].lo = -0.0L;
    return true;
}
void judge_P10(Ctx& c, Case const& k) { judge_num(c, k, k.R != k.t[0]); }

// ---- P05: decorations -----------------------------------------------------------------------
std::vector<int> P05OPS;
bool gen_P05(Ctx& c, Case& k) {
    Rng& r = c.rng; if (P05OPS.empty()) { for (int j = 0; j < 3; ++j) for (int o : FWD) P05OPS.push_back(o); for (int o = OP_intersection; o < OP_COUNT; ++o) P05OPS.push_back(o); }
    set_type(k, rnd_type(r)); if (r.chance(20)) mixed_types(r, k);
    k.op = r.pick(P05OPS); operands(r, k, true);
    if (r.chance(50)) for (int i = 0; i < op_arity(k.op); ++i) if (!is_nai(k.x[i]) && !is_empty(k.x[i])) k.x[i].dec = bounded(k.x[i]) ? 16 : 12;
    return true;
}
void judge_P05(Ctx& c, Case const& k) {
    bool nai = any_nai(k), mixed = !is_same_type(k); int want = 0;
    Arg e; e.dec = -1;
    if (k.op == OP_mul_rev_to_pair) { judge_pair(c, k, mixed); return; }
    if (!nai) { if (is_forward(k.op)) { Exp E; expect_fwd(k, E); want = E.dec; e = E.e; } else want = 4; }
    static const int forms[] = {RAWDEC, STDEC, FREEDEC, OPRDEC};
    for (int f : forms) {
        if (mixed && f >= FREE) break;
        Out o; if (!observe(c, k, f, o)) continue;
        ++c.checks;
        if (o.kind != K_INTERVAL || o.exc) { c.violation("exception", describe(k) + " via " + form_name(f) + " threw " + o.what); continue; }
        if (o.a.dec != want) { Arg w = is_forward(k.op) ? e : o.a; w.dec = want; c.violation("wrong decoration", vs(k, f, o.a, w, true)); }
        c.tick("decoration " + std::to_string(o.a.dec));
    }
    if (!nai && is_forward(k.op) && want > 4) c.nontrivial(hash(k));
    c.tick(std::string("op ") + lib::op_name(k.op));
}
// ---- P04: mixed types --------------------------------------------------------------------------
std::vector<int> P04OPS;
bool gen_P04(Ctx& c, Case& k) {
    Rng& r = c.rng;
    if (P04OPS.empty()) { for (int j = 0; j < 2; ++j) for (int o : FWD) P04OPS.push_back(o); for (int j = 0; j < 6; ++j) for (int o : {OP_add, OP_sub, OP_mul, OP_div, OP_fma}) P04OPS.push_back(o);
        for (int o = OP_intersection; o < OP_COUNT; ++o) P04OPS.push_back(o);
        for (int o : NUMS) P04OPS.push_back(o);
        for (int o : BOOL2) P04OPS.push_back(o);
        P04OPS.push_back(L_overlap); P04OPS.push_back(L_overlap); }
    do { k.op = r.pick(P04OPS); mixed_types(r, k); if (k.op >= OP_COUNT && op_arity(k.op) == 2) k.R = k.t[0]; } while (is_same_type(k) || (k.op >= OP_COUNT && op_arity(k.op) == 2 && k.t[0] == k.t[1]));
    if (k.op == OP_mul_rev || k.op == OP_mul_revx || k.op == OP_mul_rev_to_pair) gen_mulrev_operands(r, k); else operands(r, k, true);
    if (op_arity(k.op) >= 2 && r.chance(25) && !is_nai(k.x[0])) { k.x[1] = near_interval(r, k.t[1], k.x[0]); k.x[1].dec = rnd_dec(r, k.x[1]); }
    return true;
}
void judge_P04(Ctx& c, Case const& k) {
    bool nai = any_nai(k); char ty[64]; snprintf(ty, sizeof ty, "types %d<-%d,%d,%d", k.R, k.t[0], op_arity(k.op) > 1 ? k.t[1] : 9, op_arity(k.op) > 2 ? k.t[2] : 9); c.tick(ty);
    if (k.op >= OP_COUNT) { if (op_arity(k.op) == 1) judge_num(c, k, true); else if (k.op == L_overlap) judge_P08(c, k); else judge_P07(c, k); return; }
    if (k.op == OP_mul_rev_to_pair) { judge_pair(c, k, true); return; }
    if (is_rev(k.op)) { judge_rev(c, k, true); return; }
    if (!is_forward(k.op)) { judge_setop(c, k, true); return; }
    Exp E; if (!nai) expect_fwd(k, E); else { E.e = Arg(NAN, NAN, 0); E.dec = 0; }
    for (int f = 0; f < 4; ++f) {
        if (nai && !decorated(f)) continue;
        Out o; if (!observe(c, k, f, o)) continue;
        ++c.checks;
        if (o.kind != K_INTERVAL || o.exc) { c.violation("exception", describe(k) + " via " + form_name(f) + " threw " + o.what); continue; }
        if (!mon::same(o.a, E.e)) c.violation("not the tightest mixed result", vs(k, f, o.a, E.e));
        if (decorated(f) && o.a.dec != E.dec) { Arg w = E.e; w.dec = E.dec; c.violation("wrong decoration", vs(k, f, o.a, w, true)); }
    }
    if (!nai && nontriv(E.e)) c.nontrivial(hash(k));
    c.tick(std::string("op ") + lib::op_name(k.op));
}
// ---- P06: well-formedness, invalid operands ------------------------------------------------------
std::vector<int> p06ops() { std::vector<int> v; for (int o = 0; o < L_COUNT; ++o) if (std::string(lib::op_name(o)) != "?") v.push_back(o); return v; }
std::vector<int> const& p06list() { static std::vector<int> const v = p06ops(); return v; }      // used by several threads
bool gen_P06(Ctx& c, Case& k) {
    Rng& r = c.rng;
    set_type(k, rnd_type(r)); k.op = r.pick(p06list());
    if (r.chance(35)) { mixed_types(r, k); if (k.op >= OP_COUNT && op_arity(k.op) == 2) k.R = k.t[0]; if (k.op == L_is_member || k.op == L_is_nai || (k.op >= L_is_empty && k.op <= L_is_singleton)) k.R = k.t[0]; }
    if (k.op == OP_mul_rev || k.op == OP_mul_revx || k.op == OP_mul_rev_to_pair) gen_mulrev_operands(r, k); else operands(r, k, true);
    k.m = value(r, k.mt = r.range(0, 2)); if (r.chance(20)) k.m = INFINITY;
    k.aux[0] = -1;
    if (r.chance(50)) {                                  // make operand aux[0] ill-formed
        int i = (int)r.below(op_arity(k.op)); k.aux[0] = i; Arg& a = k.x[i]; int t = k.t[i];
        k.aux[1] = r.range(0, 9);
        ld v = value(r, t), u = value(r, t); if (v == u) u = next_of(t, v, INFINITY); if (v < u) std::swap(u, v);
        switch (k.aux[1]) {
        case 0: a = Arg(v, u, 12); break;                                   // reversed
        case 1: a = Arg(INFINITY, INFINITY, 12); break;
        case 2: a = Arg(-INFINITY, -INFINITY, 12); break;
        case 3: a = Arg(NAN, v, 12); break;
        case 4: a = Arg(v, NAN, 12); break;
        case 5: a = Arg(INFINITY, -INFINITY, 12); break;
        case 6: a = Arg(u, v, 0); k.aux[2] = 1; break;                      // NaI decoration on a nonempty set (decorated only)
        case 9: { int d; do d = r.range(0, 255); while (d == 0 || d == 4 || d == 8 || d == 12 || d == 16); a = r.chance(20) ? Arg(NAN, NAN, d) : Arg(u, v, d); if (r.chance(20)) a.lo = -INFINITY; k.aux[2] = 1; break; }     // decoration out of range
        case 7: a = Arg(NAN, NAN, 4 * r.range(2, 4)); k.aux[2] = 1; break;   // empty with def/dac/com
        default: a = r.chance(50) ? Arg(v, INFINITY, 16) : Arg(-INFINITY, u, 16); k.aux[2] = 1; break;   // unbounded com
        }
        if (k.aux[1] <= 5 && r.chance(20)) a.dec = 4;
    }
    return true;
}
bool wellformed(Arg const& a, bool dec) {
    bool nan = std::isnan(a.lo) && std::isnan(a.hi);
    if (!nan && !(a.lo <= a.hi && a.lo < INFINITY && a.hi > -INFINITY)) return false;
    if (!dec) return true;
    if (nan) return a.dec == 0 || a.dec == 4;
    if (a.dec == 4 || a.dec == 8 || a.dec == 12) return true;
    return a.dec == 16 && std::isfinite(a.lo) && std::isfinite(a.hi);
}
void judge_P06(Ctx& c, Case const& k) {
    bool bad = k.aux[0] >= 0; bool mixed = !is_same_type(k) && !(k.op >= OP_COUNT && op_arity(k.op) == 2 && k.t[0] == k.t[1]);
    int nf = bad ? 2 : mixed ? 4 : NFORMS;
    for (int f = 0; f < nf; ++f) {
        if (!decorated(f)) { bool skip = bad && k.aux[2]; for (int i = 0; i < op_arity(k.op); ++i) if (i != k.aux[0] && is_nai(k.x[i])) skip = true; if (skip) continue; }
        Out o; if (!observe(c, k, f, o)) continue;
        ++c.checks; std::string where = describe(k) + " via " + form_name(f);
        if (o.exc) { c.violation("exception", where + " threw " + o.what); continue; }
        if (!bad) {
            if (o.flags & 8) c.violation("invalid-operand flag on valid operands", where);
            else if (o.flags) c.violation("flag signalled by an operation that signals none", where + " flags " + std::to_string(o.flags));
            if (o.kind == K_INTERVAL || o.kind == K_PAIR) {
                if (!wellformed(o.a, decorated(f)) || (o.kind == K_PAIR && !wellformed(o.b, decorated(f)))) c.violation("ill-formed result", where + " returned " + mon::show(k.R, o.a, true));
                if (decorated(f) && o.a.dec == 0 && !any_nai(k)) c.violation("NaI from valid operands", where);
            }
            c.tick("valid calls");
        } else {
            bool ok = true; std::string got;
            switch (o.kind) {
            case K_INTERVAL: ok = is_empty(o.a) && std::isnan(o.a.lo) && std::isnan(o.a.hi) && (!decorated(f) || o.a.dec == 0); got = mon::show(k.R, o.a, decorated(f)); break;
            case K_PAIR: ok = is_empty(o.a) && is_empty(o.b) && (!decorated(f) || (o.a.dec == 0 && o.b.dec == 0)); got = mon::show(k.R, o.a, decorated(f)); break;
            case K_BOOL: ok = !o.tf; got = o.tf ? "true" : "false"; break;
            case K_NUM: ok = std::isnan(o.n1); got = std::to_string((double)o.n1); break;
            case K_NUM2: ok = std::isnan(o.n1) && std::isnan(o.n2); got = std::to_string((double)o.n1); break;
            case K_STATE: ok = o.state == 0; got = std::to_string(o.state); break;
            default: break;
            }
            if (!ok) c.violation("ill-formed operand not rejected", where + " with bounds {" + ref::hex(k.x[k.aux[0]].lo) + "," + ref::hex(k.x[k.aux[0]].hi) + "} dec " + std::to_string(k.x[k.aux[0]].dec) + " returned " + got);
            else if (o.flags != 8) c.violation("invalid-operand flag", where + " ill-formed operand kind " + std::to_string(k.aux[1]) + " at position " + std::to_string(k.aux[0]) + " left flags " + std::to_string(o.flags));
            c.tick("ill-formed calls kind " + std::to_string(k.aux[1]));
        }
    }
    c.nontrivial(hash(k));
    c.tick(std::string("op ") + lib::op_name(k.op));
}
// ---- P22: history and ambient state -----------------------------------------------------------------
bool gen_P22(Ctx& c, Case& k) {
    Rng& r = c.rng; if (p06list().empty()) { Case d; gen_P06(c, d); }
    set_type(k, rnd_type(r)); k.op = r.pick(p06list());
    if (r.chance(30)) { mixed_types(r, k); if (k.op >= OP_COUNT && op_arity(k.op) == 2) k.R = k.t[0]; if (k.op == L_is_member || k.op == L_is_nai || (k.op >= L_is_empty && k.op <= L_is_singleton)) k.R = k.t[0]; }
    operands(r, k, true); k.m = value(r, k.mt = r.range(0, 2)); k.seed = r.next(); return true;
}
// a zero bound has no sign: std::floor yields -0 for positive numbers while the processor rounds downward
bool bits(ld a, ld b) { if (ambient.fpu && a == 0) return b == 0; if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); return a == b && std::signbit(a) == std::signbit(b); }
bool bits(Arg const& a, Arg const& b) { return bits(a.lo, b.lo) && bits(a.hi, b.hi) && a.dec == b.dec; }
bool identical(Out const& a, Out const& b) { return a.kind == b.kind && bits(a.a, b.a) && (a.kind != K_PAIR || bits(a.b, b.b)) && a.tf == b.tf && a.state == b.state && bits(a.n1, b.n1) && bits(a.n2, b.n2) && a.flags == b.flags && a.exc == b.exc; }
std::string disturb(Ctx& c, Rng& r) {
    int kind = r.range(0, 8); char b[100];
    switch (kind) {
    case 0: { static const mpfr_exp_t lo[] = {-5, 0, 1, -148, -1073, -16444, -20}; static const mpfr_exp_t hi[] = {2, 5, 128, 1024, 16384, 40, 1}; mpfr_exp_t e1 = lo[r.below(7)], e2 = hi[r.below(7)]; if (e1 > e2) std::swap(e1, e2); mpfr_set_emin(e1); mpfr_set_emax(e2); snprintf(b, sizeof b, "emin=%ld emax=%ld", (long)e1, (long)e2); c.tick("exponent range"); return b; }
    case 1: { int q = r.range(0, 4); mpfr_set_default_rounding_mode((mpfr_rnd_t)q); c.tick("default rounding"); return "default rounding " + std::to_string(q); }
    case 2: { int q = r.range(2, 300); mpfr_set_default_prec(q); c.tick("default precision"); return "default precision " + std::to_string(q); }
    case 3: { int q = r.range(0, 63); mpfr_clear_flags(); if (q & 1) mpfr_set_overflow(); if (q & 2) mpfr_set_underflow(); if (q & 4) mpfr_set_nanflag(); if (q & 8) mpfr_set_inexflag(); if (q & 16) mpfr_set_erangeflag(); if (q & 32) mpfr_set_divby0(); c.tick("mpfr flags"); return "mpfr flags " + std::to_string(q); }
    case 4: { static const char* n[] = {"nearest", "up", "down", "zero"}; ambient.fpu = r.range(1, 3); c.tick("processor rounding"); return std::string("processor rounding ") + n[ambient.fpu]; }
    default: {
        Case q; Ctx d; d.rng = Rng(r.next()); d.prop = c.prop; gen_P06(d, q); int f = q.aux[0] >= 0 ? r.range(0, 1) : r.range(0, NFORMS - 1);
        if (q.aux[0] >= 0 && !decorated(f)) { bool sk = false; for (int i = 0; i < 3; ++i) if (is_nai(q.x[i])) sk = true; if (sk) f = RAWDEC; }
        Out o; lib::call(q.op, f, q.R, q.t, q.x, q.p, o, false, q.m, q.mt); c.tick("operation history"); return "after " + describe(q);
    }
    }
}
void judge_P22(Ctx& c, Case const& k) {
    Rng r(k.seed);
    int f = r.range(0, NFORMS - 1); bool nai = any_nai(k); if (nai) f |= 1;
    Out a; Case kk = k;
    // reference observation in a pristine state
    auto pristine = []() { mpfr_set_emin(mpfr_get_emin_min()); mpfr_set_emax(mpfr_get_emax_max()); mpfr_set_default_rounding_mode(MPFR_RNDN); mpfr_set_default_prec(53); mpfr_clear_flags(); ambient = Ambient(); };
    pristine(); clear_flags();
    if (!observe(c, kk, f, a)) { f = decorated(f) ? RAWDEC : RAW; if (!observe(c, kk, f, a)) return; }
    std::string hist; int n = r.range(1, 4);
    for (int rep = 0; rep < 2; ++rep) {
        for (int i = 0; i < n; ++i) hist += disturb(c, r) + "; ";
        Out b; observe(c, kk, f, b); ++c.checks;
        if (!identical(a, b)) { c.violation("result depends on history", describe(k) + " via " + form_name(f) + " first " + mon::show(k.R, a.a, true) + " n=" + ref::hex(a.n1) + " flags " + std::to_string(a.flags) + " then " + mon::show(k.R, b.a, true) + " n=" + ref::hex(b.n1) + " flags " + std::to_string(b.flags) + " after: " + hist); break; }
        // flags are kept, not cleared, by an operation
        Out d; clear_flags(); set_flags(2); observe(c, kk, f, d, true); ++c.checks;
        if (d.flags != (2 | a.flags)) { c.violation("flag state", describe(k) + " via " + form_name(f) + " left flags " + std::to_string(d.flags)); break; }
    }
    for (int i = 0; i < 3; ++i) if (!bits(kk.x[i], k.x[i])) c.violation("operand modified", describe(k));
    if (ambient.broken) c.violation("rounding mode of the processor changed", describe(k) + " via " + form_name(f) + " after: " + hist);
    pristine();
    c.nontrivial(hash(k)); c.tick(std::string("op ") + lib::op_name(k.op));
}
// ---- P23: isotonicity ----------------------------------------------------------------------------------
std::vector<int> P23OPS;
Arg enlarge(Rng& r, int t, Arg const& a) {
    if (is_empty(a)) return r.chance(50) ? a : interval(r, t);
    Arg b = a;
    auto down = [&](ld v) -> ld { switch (r.range(0, 6)) { case 0: return v; case 1: return next_of(t, v, -INFINITY); case 2: return -INFINITY; case 3: { ld u = value(r, t); return u < v ? u : v; } case 4: return v > 0 ? 0 : v; case 5: return v > -1 ? -1 : v; default: { ld u = v - std::fabs(v) * std::ldexp((ld)1, -r.range(0, 20)); u = t == TF ? (ld)(float)u : t == TD ? (ld)(double)u : u; return u < v ? u : v; } } };
    b.lo = down(b.lo); b.hi = -down(-b.hi); return b;
}
bool gen_P23(Ctx& c, Case& k) {
    Rng& r = c.rng;
    if (P23OPS.empty()) { for (int j = 0; j < 2; ++j) for (int o : FWD) P23OPS.push_back(o); for (int o = OP_intersection; o < OP_COUNT; ++o) if (o != OP_cancel_plus && o != OP_cancel_minus) P23OPS.push_back(o); }
    set_type(k, rnd_type(r)); if (r.chance(20)) mixed_types(r, k); k.op = r.pick(P23OPS); operands(r, k, false); k.seed = r.next(); return true;
}
void judge_P23(Ctx& c, Case const& k) {
    Rng r(k.seed); bool mixed = !is_same_type(k);
    static const int cand[] = {RAW, RAWDEC, ST, STDEC}; int f = cand[r.below(4)]; (void)mixed;
    Out a; if (!observe(c, k, f, a) || a.exc) return;
    Arg ra = a.a; if (a.kind == K_PAIR && !is_empty(a.b)) { if (is_empty(ra)) ra = a.b; else { ra.lo = std::min(ra.lo, a.b.lo); ra.hi = std::max(ra.hi, a.b.hi); } }
    for (int rep = 0; rep < 2; ++rep) {
        Case q = k; bool split = rep == 1;
        if (!split) { for (int i = 0; i < op_arity(k.op); ++i) { q.x[i] = enlarge(r, k.t[i], k.x[i]); q.x[i].dec = std::min(q.x[i].dec, k.x[i].dec); if (!is_empty(q.x[i]) && !bounded(q.x[i]) && q.x[i].dec == 16) q.x[i].dec = 12; if (!is_empty(k.x[i])) {} else if (!is_empty(q.x[i])) q.x[i].dec = 4; } }
        else {
            int i = (int)r.below(op_arity(k.op)); Arg& y = q.x[i]; if (is_empty(y) || y.lo == y.hi) continue;
            ld cut; switch (r.range(0, 3)) { case 0: cut = 0; break; case 1: cut = y.lo / 2 + y.hi / 2; if (!std::isfinite(cut)) cut = 1; cut = k.t[i] == TF ? (ld)(float)cut : k.t[i] == TD ? (ld)(double)cut : cut; break; case 2: cut = next_of(k.t[i], y.lo, INFINITY); break; default: cut = value(r, k.t[i], k.op); }
            if (!(cut > y.lo && cut < y.hi)) continue;
            if (r.chance(50)) y.lo = cut; else y.hi = cut;
        }
        Out b; if (!observe(c, q, f, b) || b.exc) continue;
        Arg rb = b.a; if (b.kind == K_PAIR && !is_empty(b.b)) { if (is_empty(rb)) rb = b.b; else { rb.lo = std::min(rb.lo, b.b.lo); rb.hi = std::max(rb.hi, b.b.hi); } }
        ++c.checks; c.tick(split ? "parts compared" : "supersets compared");
        Arg small = split ? rb : ra, big = split ? ra : rb;
        if (is_trig_rev(k.op) && !is_empty(big)) {      // these are accurate to a few ulps only
            auto tol = [&](ld v) -> ld { return std::isinf(v) ? 0 : std::ldexp((ld)1, 1 - fmt(k.R).p) * std::max(std::fabs(v), (ld)4) * (8 + std::fabs(v)); };
            big.lo -= tol(big.lo); big.hi += tol(big.hi);
        }
        if (is_trig_rev(k.op) && !is_empty(small)) {    // a solution just outside of x may be reported at the bound of x
            auto at_end = [&](ld v) { for (Case const* q2 : {&k, (Case const*)&q}) for (int i = 0; i < op_arity(k.op); ++i) { Arg const& y = q2->x[i]; if (is_empty(y)) continue; ld T = std::ldexp((ld)1, 1 - fmt(k.R).p) * std::max(std::fabs(v), (ld)4) * (8 + std::fabs(v)); if (std::fabs(v - y.lo) <= T || std::fabs(v - y.hi) <= T) return true; } return false; };
            bool lo_off = is_empty(big) || small.lo < big.lo, hi_off = is_empty(big) || small.hi > big.hi;
            if ((lo_off && at_end(small.lo)) || (hi_off && at_end(small.hi))) continue;
        }
        if (!mon::subset(small, big)) { c.violation("not isotonic", describe(k) + " = " + mon::show(k.R, ra, false) + " but " + describe(q) + " = " + mon::show(k.R, rb, false)); continue; }
        if (!split && decorated(f) && b.a.dec > a.a.dec) c.violation("decoration improves on a superset", describe(k) + " = " + mon::show(k.R, a.a, true) + " but " + describe(q) + " = " + mon::show(k.R, b.a, true));
    }
    if (nontriv(ra)) c.nontrivial(hash(k));
    c.tick(std::string("op ") + lib::op_name(k.op));
}
}
namespace mon {
int interval_case(Ctx& c, Case& k, bool& bad) {
    gen_P06(c, k); bad = k.aux[0] >= 0; int n = op_arity(k.op); bool nai = false;
    for (int i = 0; i < n; ++i) if (i != k.aux[0] && is_nai(k.x[i])) nai = true;
    bool D = c.rng.chance(50) || nai || (bad && k.aux[2]);
    if (bad) return D ? RAWDEC : RAW;
    return (c.rng.chance(50) ? RAW : ST) + (D ? 1 : 0);
}
std::string text_case(Rng& r, bool& ok) {
    static const char* good[] = {"[1,2]", "[empty]", "[entire]", "[0x1p-3, 2]", " [ -1 , 1/3 ]", "[3.5]", "1.5?", "1.5?2u", "-7?d", "[,]", "[-inf,4]", "2.5?3e4", "[]"};
    static const char* bad[] = {"[2,1]", "[1,2", "foo", "", "[1;2]", "[nan,1]", "1.5", "[inf,inf]", "[1,2]_foo", "1.5??e", "[1,2,3]"};
    ok = r.chance(50); return ok ? good[r.below(sizeof good / sizeof *good)] : bad[r.below(sizeof bad / sizeof *bad)];
}
#ifndef VERIF_NO_TABLE
Monitor const monitors[] = {
    {"P14", gen_P14, judge_P14, "constructors and conversions at the flavor and class level over all source and result types; non-trivial: distinct case that is not rejected", nullptr},
    {"P15", gen_P15, judge_P15, "random walks over clear / trap / state / signal calls, constructions, operations and text input, each step compared with a model of flags and traps; non-trivial: distinct (action, signalled flag, trap mask, flag state)", nullptr},
    {"P01", gen_P01, judge_contain, "random typed operand boxes (special values, neighbours, zero-spanning, unbounded, correlated operands); non-trivial: distinct case whose exact result is neither empty nor the entire line", nullptr},
    {"P02", gen_P02, judge_contain, "as P01 for elementary functions with operands around domain edges, multiples of pi/2 and overflow thresholds; non-trivial: distinct case whose exact result is neither empty nor the entire line", nullptr},
    {"P03", gen_P03, judge_P03, "all forward operations; non-trivial: distinct case whose exact hull is neither empty nor the entire line", nullptr},
    {"P04", gen_P04, judge_P04, "operations with at least two different bound types; non-trivial: distinct case with a result that is neither empty nor entire", nullptr},
    {"P05", gen_P05, judge_P05, "decorated operations with random valid decorations and NaI; non-trivial: distinct forward case whose expected decoration is above trv", nullptr},
    {"P06", gen_P06, judge_P06, "every operation on valid operands and with one operand made ill-formed in one of nine ways; non-trivial: distinct case", nullptr},
    {"P07", gen_P07, judge_P07, "relations on correlated operand pairs of all type combinations; non-trivial: distinct case with nonempty operands", nullptr},
    {"P08", gen_P08, judge_P08, "overlap and point predicates on correlated operands; non-trivial: distinct case with nonempty operands", nullptr},
    {"P09", gen_P09, judge_P09, "set operations on correlated operands of all type combinations; non-trivial: distinct case with a result that is neither empty nor entire", nullptr},
    {"P10", gen_P10, judge_P10, "numeric functions; non-trivial: distinct bounded interval with positive width", nullptr},
    {"P11", gen_P11, judge_P11, "reverse functions with c taken around the image of x in most cases; non-trivial: distinct case whose exact solution hull is neither empty nor entire", nullptr},
    {"P12", gen_P12, judge_P12, "reverse multiplication over all sign classes; non-trivial: distinct case whose exact solution hull is neither empty nor entire", nullptr},
    {"P13", gen_P13, judge_P13, "cancellation with a = b + z and with equal or nearly equal widths; non-trivial: distinct case with a result that is neither empty nor entire", nullptr},
    {"P22", gen_P22, judge_P22, "each operation observed in a pristine state and again after random operation histories and ambient MPFR settings; non-trivial: distinct case", nullptr},
    {"P23", gen_P23, judge_P23, "each operation observed on a box, a superset and a part; non-trivial: distinct case with a result that is neither empty nor entire", nullptr},
    {"P26", gen_P26, judge_P26, "random programs of two to nine operations over shared variables, run on a box, on a part of it and through constraint propagation; non-trivial: distinct program and box with a point at which an operation of it is defined", nullptr},
    {nullptr, nullptr, nullptr, nullptr, nullptr}};
#endif
}
