// Monitor P26: whole computations.  A random program (a directed acyclic graph of operations over
// shared variables) is run through the library on a box; the exact values of every intermediate at
// points of the box are followed by the reference and have to lie in what the library computed, also
// after parts of the box are taken and after constraint propagation with the reverse operations.
#include "mon_misc.hpp"
#include <algorithm>
using namespace ref; using namespace lib;
namespace mon {
namespace {
struct Node { int op, a[3], p, R, form; };      // op < 0: variable (-1) or constant (-2)
struct Prog { std::vector<Node> n; int nv; bool dec, mixed; std::string text; };
struct Val { int st; IV v; };                   // exact value at a point: 0 undefined, 1 enclosed by v, 2 unknown

int pick_op(Rng& r) {
    static const int common[] = {OP_add, OP_sub, OP_mul, OP_div, OP_sqr, OP_sqrt, OP_neg, OP_exp, OP_log, OP_sin, OP_cos, OP_fma, OP_pown, OP_min, OP_max, OP_abs, OP_recip, OP_atan2, OP_pow};
    return r.chance(70) ? common[r.below(sizeof common / sizeof *common)] : r.range(0, OP_fma);
}
std::string name(Prog const& P, int i) { return (P.n[i].op == -1 ? "x" : P.n[i].op == -2 ? "c" : "t") + std::to_string(i); }
void make(Rng& r, Prog& P) {
    P.nv = r.range(1, 3); P.dec = r.chance(50); P.mixed = r.chance(20); int t = r.range(0, 2), m = r.range(2, 9);
    auto ty = [&] { return P.mixed ? r.range(0, 2) : t; };
    for (int i = 0; i < P.nv; ++i) P.n.push_back(Node{-1, {0, 0, 0}, 0, ty(), 0});
    if (r.chance(50)) P.n.push_back(Node{-2, {0, 0, 0}, 0, ty(), 0});
    for (int i = 0; i < m; ++i) {
        Node q; q.op = pick_op(r); q.p = has_int(q.op) ? (r.chance(85) ? r.range(-4, 5) : r.range(-40, 40)) : 0; q.R = ty(); int s = (int)P.n.size();
        for (int j = 0; j < 3; ++j) q.a[j] = r.chance(55) ? s - 1 - (int)r.below(std::min(s, 2)) : (int)r.below(s);
        bool same = true; for (int j = 0; j < arity(q.op); ++j) same = same && P.n[q.a[j]].R == q.R;
        q.form = 2 * (int)r.below(same ? NFORMS / 2 : 2) + P.dec;
        P.n.push_back(q);
        P.text += name(P, s) + "=" + lib::op_name(q.op) + "(";
        for (int j = 0; j < arity(q.op); ++j) P.text += (j ? "," : "") + name(P, q.a[j]);
        P.text += (has_int(q.op) ? "," + std::to_string(q.p) : "") + ")" + (P.mixed ? std::string(":") + type_name(q.R) : "") + "; ";
    }
}
Arg small_interval(Rng& r, int t) {
    auto rnd = [&](ld v) { Wide w; Hp h; set_ld(h, v); return round_to(t, h.v, 'N'); };
    ld v = rnd(r.chance(30) ? (ld)r.range(-8, 8) / 2 : (r.unit() - (ld)0.5) * std::ldexp((ld)1, r.range(-2, 7)));
    switch (r.range(0, 5)) {
    case 0: return Arg(v, v);
    case 1: return Arg(v, next_of(t, v, INFINITY));
    case 2: { ld u = rnd(v + (ld)r.range(0, 6) / 2); return Arg(v, u); }
    case 3: return Arg(-std::fabs(v), std::fabs(rnd(v * 2)));
    default: { ld u = rnd(v + r.unit() * std::ldexp((ld)1, -r.range(-3, fmt(t).p))); return v <= u ? Arg(v, u) : Arg(u, v); }
    }
}
// one operation; the plain flavor form where this one does not exist
bool apply(Ctx& c, Case const& k, Node const& q, int op, int R, int const* t, Arg const* x, Out& o, bool dec) {
    Case s; s.seed = k.seed; s.aux[7] = 108; snprintf(s.txt, sizeof s.txt, "%s", lib::op_name(op)); s.op = op; s.R = R; s.p = q.p; for (int j = 0; j < op_arity(op); ++j) { s.t[j] = t[j]; s.x[j] = x[j]; }
    if (!observe(c, s, q.form, o) && !observe(c, s, dec ? RAWDEC : RAW, o)) return false;
    if (!dec) o.a.dec = o.b.dec = 4;
    return true;
}
std::string boxtext(Prog const& P, std::vector<Arg> const& box) { std::string s = P.dec ? "decorated " : "bare "; s += type_name(P.n[0].R); for (size_t i = 0; i < box.size(); ++i) s += " " + name(P, (int)i) + "=" + show(P.n[i].R, box[i], P.dec); return s + "; " + P.text; }
bool run(Ctx& c, Case const& k, Prog const& P, std::vector<Arg> const& box, std::vector<Arg>& res) {
    res = box; res.resize(P.n.size());
    for (size_t i = 0; i < P.n.size(); ++i) {
        Node const& q = P.n[i]; if (q.op < 0) continue;
        int t[3]; Arg x[3]; for (int j = 0; j < arity(q.op); ++j) { t[j] = P.n[q.a[j]].R; x[j] = res[q.a[j]]; }
        Out o; if (!apply(c, k, q, q.op, q.R, t, x, o, P.dec) || o.exc || o.kind != K_INTERVAL) { c.violation("step failed", boxtext(P, box) + "at " + name(P, (int)i) + " " + o.what); return false; }
        if (o.flags) { c.violation("step raised a flag", boxtext(P, box) + "at " + name(P, (int)i)); return false; }
        res[i] = o.a;
    }
    return true;
}
bool sane(Hp const& h) { return h.zero() || (!h.inf() && !h.nan() && std::labs((long)mpfr_get_exp(h.v)) < 17000); }
void exact(Prog const& P, std::vector<Hp> const& pt, std::vector<Val>& E) {
    Wide w;         // the library sets the exponent range of MPFR in every operation
    E.assign(P.n.size(), Val{2, IV()});
    for (size_t i = 0; i < P.n.size(); ++i) {
        Node const& q = P.n[i]; Val& e = E[i];
        if (q.op < 0) { e.st = 1; e.v.empty = false; e.v.lo = pt[i]; e.v.hi = pt[i]; continue; }
        IV a[3]; int st = 1; for (int j = 0; j < arity(q.op); ++j) { Val const& s = E[q.a[j]]; st = s.st == 0 || st == 0 ? 0 : std::max(st, s.st); a[j] = s.v; }
        if (st != 1) { e.st = st; continue; }
        Range R = range(q.op, a, q.p);
        if (R.r.empty) { e.st = 0; continue; }
        if (R.ldec < 8 || !sane(R.r.lo) || !sane(R.r.hi)) continue;
        e.st = 1; e.v = R.r;
    }
}
Hp sample(Rng& r, int t, Arg const& a) {
    Wide w;
    ld lo = std::max(a.lo, -max_of(t)), hi = std::min(a.hi, max_of(t)), v;
    switch (r.range(0, 7)) {
    case 0: return hp(lo);
    case 1: return hp(hi);
    case 2: v = value(r, t); break;
    case 3: v = (ld)r.range(-6, 6) / 2; break;
    case 4: v = next_of(t, lo, INFINITY); break;
    default: {
        if (std::isinf(a.lo) != std::isinf(a.hi) && r.chance(70)) { v = std::isinf(a.lo) ? hi - std::fabs(value(r, t)) : lo + std::fabs(value(r, t)); if (std::isfinite(v)) break; }
        Hp l = hp(lo), h = hp(hi), q; mpfr_sub(q, h, l, MPFR_RNDN); mpfr_mul_d(q, q, r.unit(), MPFR_RNDN); mpfr_add(q, q, l, MPFR_RNDN);
        return cmp(q, l) < 0 ? l : cmp(q, h) > 0 ? h : q; }
    }
    return hp(v < lo ? lo : v > hi ? hi : v);
}
bool meets(IV const& e, Arg const& a) {
    if (is_empty(a)) return false;
    Wide w; return cmp(e.hi, hp(a.lo)) >= 0 && cmp(e.lo, hp(a.hi)) <= 0;
}
bool step(int op) { return op == OP_sign || op == OP_ceil || op == OP_floor || op == OP_trunc || op == OP_round_ties_to_even || op == OP_round_ties_to_away; }

void contract(Ctx& c, Case const& k, Rng& r, Prog const& P, std::vector<Arg> const& box, std::vector<Arg> const& res, std::vector<Val> const& E, int target) {
    std::vector<Arg> dom = res; std::string hist;
    Node aux{0, {0, 0, 0}, 0, 0, 0}; aux.form = (r.chance(50) ? RAW : ST) + P.dec;
    auto meet = [&](int i, Arg y, int ty) -> bool {            // dom[i] := intersection(dom[i], y)
        int t[2] = {P.n[i].R, ty}; Arg x[2] = {dom[i], y}; Out o;
        if (!apply(c, k, aux, OP_intersection, P.n[i].R, t, x, o, P.dec) || o.exc) return false;
        dom[i] = o.a; return true;
    };
    auto lost = [&](int i, int from) -> bool {
        ++c.checks; c.tick("contractions checked");
        if (meets(E[i].v, dom[i])) return false;
        c.violation("solution lost by propagation", boxtext(P, box) + hist + ": " + name(P, i) + " became " + show(P.n[i].R, dom[i], false) + " from " + name(P, from) + " but the value " + ref::show(E[i].v) + " is possible");
        return true;
    };
    // the constraint: an interval around the exact value of the target
    Arg C; { Wide wd; Arg h = hull_to(P.n[target].R, E[target].v); C = Arg(h.lo, h.hi, 4); if (r.chance(50)) { ld w = std::ldexp(std::fabs(value(r, TF, OP_exp)), -r.range(0, 30)); int t = P.n[target].R; Hp a = hp(h.lo), b = hp(h.hi), q = hp(w); if (std::isfinite(h.lo)) { mpfr_sub(a, a, q, MPFR_RNDD); C.lo = round_to(t, a.v, 'D'); } if (std::isfinite(h.hi)) { mpfr_add(b, b, q, MPFR_RNDU); C.hi = round_to(t, b.v, 'U'); } } }
    hist = "with " + name(P, target) + " in " + show(P.n[target].R, C, false);
    if (!meet(target, C, P.n[target].R) || lost(target, target)) return;
    bool shrunk = false;
    for (int round = 0; round < 2; ++round) {
        for (int i = target; i >= 0; --i) {
            Node const& q = P.n[i]; if (q.op < 0 || E[i].st != 1) continue;
            int tz = q.R;
            auto back = [&](int j, int op, Arg a0, int t0, Arg a1, int t1, Arg a2, int t2) -> bool {   // operand j := op(...) meet operand j
                int x = q.a[j]; int t[3] = {t0, t1, t2}; Arg y[3] = {a0, a1, a2}; Out o; aux.p = q.p; aux.form = (r.chance(50) ? RAW : ST) + P.dec;
                int R = P.n[x].R; Arg old = dom[x];
                if (!apply(c, k, aux, op, R, t, y, o, P.dec) || o.exc) return true;
                c.tick(std::string("propagated by ") + lib::op_name(op));
                if (o.kind == K_PAIR) {
                    Arg A = o.a, B = o.b, d0 = dom[x]; meet(x, A, R); A = dom[x]; dom[x] = d0; meet(x, B, R); B = dom[x];
                    int tt[2] = {R, R}; Arg yy[2] = {A, B}; Out u; ++c.checks;
                    if (!meets(E[x].v, A) && !meets(E[x].v, B)) { dom[x] = A; lost(x, i); return false; }
                    if (!apply(c, k, aux, OP_convex_hull, R, tt, yy, u, P.dec)) return true;
                    dom[x] = u.a;
                } else meet(x, o.a, R);
                if (lost(x, i)) return false;
                if (!same(old, dom[x])) shrunk = true;
                return true;
            };
            Arg const& z = dom[i]; Arg x = dom[q.a[0]], y = dom[q.a[1]]; int tx = P.n[q.a[0]].R, ty = P.n[q.a[1]].R; Arg none; bool ok = true;
            switch (q.op) {
            case OP_add: ok = back(0, OP_sub, z, tz, y, ty, none, tz) && back(1, OP_sub, z, tz, dom[q.a[0]], tx, none, tz); break;
            case OP_sub: ok = back(0, OP_add, z, tz, y, ty, none, tz) && back(1, OP_sub, dom[q.a[0]], tx, z, tz, none, tz); break;
            case OP_mul: ok = r.chance(60) ? back(0, OP_mul_revx, y, ty, z, tz, x, tx) && back(1, OP_mul_revx, dom[q.a[0]], tx, z, tz, dom[q.a[1]], ty) : back(0, OP_mul_rev_to_pair, y, ty, z, tz, none, tz) && back(1, r.chance(50) ? OP_mul_rev : OP_mul_rev_to_pair, dom[q.a[0]], tx, z, tz, none, tz); break;
            case OP_div: ok = back(0, OP_mul, z, tz, y, ty, none, tz) && back(1, OP_mul_revx, z, tz, dom[q.a[0]], tx, dom[q.a[1]], ty); break;
            case OP_recip: ok = back(0, OP_recip, z, tz, none, tz, none, tz); break;
            case OP_neg: ok = back(0, OP_neg, z, tz, none, tz, none, tz); break;
            case OP_sqr: ok = back(0, OP_sqr_revx, z, tz, x, tx, none, tz); break;
            case OP_abs: ok = back(0, OP_abs_revx, z, tz, x, tx, none, tz); break;
            case OP_sin: ok = back(0, OP_sin_revx, z, tz, x, tx, none, tz); break;
            case OP_cos: ok = back(0, OP_cos_revx, z, tz, x, tx, none, tz); break;
            case OP_tan: ok = back(0, OP_tan_revx, z, tz, x, tx, none, tz); break;
            case OP_cosh: ok = back(0, OP_cosh_revx, z, tz, x, tx, none, tz); break;
            case OP_pown: ok = back(0, OP_pown_revx, z, tz, x, tx, none, tz); break;
            case OP_sqrt: ok = back(0, OP_sqr, z, tz, none, tz, none, tz); break;
            case OP_exp: ok = back(0, OP_log, z, tz, none, tz, none, tz); break;
            case OP_exp2: ok = back(0, OP_log2, z, tz, none, tz, none, tz); break;
            case OP_exp10: ok = back(0, OP_log10, z, tz, none, tz, none, tz); break;
            case OP_log: ok = back(0, OP_exp, z, tz, none, tz, none, tz); break;
            case OP_log2: ok = back(0, OP_exp2, z, tz, none, tz, none, tz); break;
            case OP_log10: ok = back(0, OP_exp10, z, tz, none, tz, none, tz); break;
            case OP_asin: ok = back(0, OP_sin, z, tz, none, tz, none, tz); break;
            case OP_acos: ok = back(0, OP_cos, z, tz, none, tz, none, tz); break;
            case OP_atan: ok = back(0, OP_tan, z, tz, none, tz, none, tz); break;
            case OP_sinh: ok = back(0, OP_asinh, z, tz, none, tz, none, tz); break;
            case OP_tanh: ok = back(0, OP_atanh, z, tz, none, tz, none, tz); break;
            case OP_asinh: ok = back(0, OP_sinh, z, tz, none, tz, none, tz); break;
            case OP_acosh: ok = back(0, OP_cosh, z, tz, none, tz, none, tz); break;
            case OP_atanh: ok = back(0, OP_tanh, z, tz, none, tz, none, tz); break;
            default: break;
            }
            if (!ok) return;
        }
        for (int i = 0; i <= target; ++i) {                 // and forward again
            Node const& q = P.n[i]; if (q.op < 0 || E[i].st != 1) continue;
            int t[3]; Arg x[3]; for (int j = 0; j < arity(q.op); ++j) { t[j] = P.n[q.a[j]].R; x[j] = dom[q.a[j]]; }
            Out o; if (!apply(c, k, q, q.op, q.R, t, x, o, P.dec) || o.exc) continue;
            meet(i, o.a, q.R); if (lost(i, i)) return;
        }
    }
    if (shrunk) c.tick("boxes contracted");
}
}
bool gen_P26(Ctx& c, Case& k) { k.seed = c.rng.next(); k.op = OP_add; k.aux[7] = 108; return true; }
void judge_P26(Ctx& c, Case const& k) {
    Rng r(k.seed); Prog P; make(r, P);
    size_t nb = 0; while (nb < P.n.size() && P.n[nb].op < 0) ++nb;
    std::vector<Arg> box(nb);
    bool free_set = true;
    for (size_t i = 0; i < nb; ++i) {
        Arg& a = box[i]; a = r.chance(65) ? small_interval(r, P.n[i].R) : interval(r, P.n[i].R); if (P.n[i].op == -2) { if (is_empty(a)) a = Arg(1, 1); a.lo = a.hi = std::isinf(a.lo) ? (std::isinf(a.hi) ? 1 : a.hi) : a.lo; }
        if (i && i < (size_t)P.nv && P.n[0].R == P.n[i].R && r.chance(12)) a = box[0];           // independent variables with the same range
        a.dec = rnd_dec(r, a); if (!is_empty(a) && r.chance(60)) a.dec = bounded(a) ? 16 : 12;
        if (P.dec && r.chance(2)) a = Arg(NAN, NAN, 0);
        if (is_empty(a)) free_set = false;
    }
    if (c.samples.size() < 2) c.note = boxtext(P, box);
    std::vector<Arg> res; if (!run(c, k, P, box, res)) return;
    size_t N = P.n.size();
    // not-an-interval and the empty set reach everything that depends on them; decorations never improve on the way
    for (size_t i = nb; i < N; ++i) {
        Node const& q = P.n[i]; int d = 16; bool e = false;
        for (int j = 0; j < arity(q.op); ++j) { d = std::min(d, res[q.a[j]].dec); e = e || is_empty(res[q.a[j]]); }
        ++c.checks;
        if (e && !is_empty(res[i])) { c.violation("empty operand, nonempty result", boxtext(P, box) + "at " + name(P, (int)i)); return; }
        if (!P.dec) continue;
        if (res[i].dec > d || (d == 0) != (res[i].dec == 0)) { c.violation("decoration not propagated", boxtext(P, box) + "at " + name(P, (int)i) + " = " + show(q.R, res[i], true)); return; }
        if (res[i].dec == 16 && !bounded(res[i])) { c.violation("com on an unbounded result", boxtext(P, box) + "at " + name(P, (int)i)); return; }
    }
    c.tick(P.dec ? "decorated programs" : "bare programs"); if (P.mixed) c.tick("programs of mixed types"); c.tick("operations in programs", N - nb);
    if (!free_set) { c.tick("programs with an empty or NaI operand"); return; }
    int best = -1; std::vector<Hp> bp; std::vector<Val> bE; std::vector<std::pair<bool, long>> seen(N, std::make_pair(false, 0L));
    for (int s = 0; s < 10; ++s) {
        std::vector<Hp> pt; for (size_t i = 0; i < nb; ++i) pt.push_back(sample(r, P.n[i].R, box[i]));
        std::vector<Val> E; exact(P, pt, E);
        for (size_t i = nb; i < N; ++i) {
            Node const& q = P.n[i]; bool d = P.dec && res[i].dec >= 8;
            if (E[i].st == 2) continue;
            ++c.checks; c.tick("intermediate values checked");
            std::string where = boxtext(P, box) + "at point"; 
            auto pts = [&] { for (auto& h : pt) where += " " + ref::show(h); return where; };
            if (E[i].st == 0) { if (d) { c.violation("decorated as defined, but undefined", pts() + ": " + name(P, (int)i) + " = " + show(q.R, res[i], true)); return; } c.tick("undefined points"); continue; }
            if (!meets(E[i].v, res[i])) { c.violation("value of an intermediate not enclosed", pts() + ": " + name(P, (int)i) + " = " + show(q.R, res[i], true) + " but the value is " + ref::show(E[i].v)); return; }
            if (P.dec && step(q.op) && res[i].dec >= 12 && mpfr_equal_p(E[i].v.lo, E[i].v.hi) && mpfr_fits_slong_p(E[i].v.lo.v, MPFR_RNDN)) {        // a continuous step function is constant
                long v = mpfr_get_si(E[i].v.lo.v, MPFR_RNDN);
                if (seen[i].first && seen[i].second != v) { c.violation("decorated as continuous, but takes two values of a step function", pts() + ": " + name(P, (int)i) + " = " + show(q.R, res[i], true)); return; }
                seen[i] = std::make_pair(true, v);
            }
            if ((int)i >= best && (best < (int)i || r.chance(30))) { best = (int)i; bp = pt; bE = E; }
        }
    }
    if (best < 0) return;
    c.nontrivial(hash(k)); c.tick("programs with a defined point");
    for (size_t i = nb; i < N; ++i) if (bE[i].st == 1 && !(std::isinf(res[i].lo) && std::isinf(res[i].hi))) c.tick(std::string("op ") + lib::op_name(P.n[i].op));
    // a part of the box that contains the point
    std::vector<Arg> sub = box;
    for (size_t i = 0; i < nb; ++i) {
        Wide w; Arg& a = sub[i]; int t = P.n[i].R; int how = r.range(0, 3);
        ld pl = round_to(t, bp[i].v, 'D'), ph = round_to(t, bp[i].v, 'U');
        if (how & 1) { ld m = a.lo / 2 + pl / 2; m = round_to(t, hp(std::isfinite(m) ? m : pl).v, 'D'); if (r.chance(40) || m > pl) m = pl; if (m > a.lo) a.lo = m; }
        if (how & 2) { ld m = a.hi / 2 + ph / 2; m = round_to(t, hp(std::isfinite(m) ? m : ph).v, 'U'); if (r.chance(40) || m < ph) m = ph; if (m < a.hi) a.hi = m; }
        if (!P.dec) continue;
        if (a.dec >= 12 && bounded(a)) a.dec = 16;
    }
    std::vector<Arg> rs; if (!run(c, k, P, sub, rs)) return;
    for (size_t i = nb; i < N; ++i) {
        ++c.checks; c.tick("parts compared");
        if (!mon::subset(rs[i], res[i])) { c.violation("a part of the box has a larger result", boxtext(P, box) + "at " + name(P, (int)i) + " = " + show(P.n[i].R, res[i], false) + " but on the part " + boxtext(P, sub) + show(P.n[i].R, rs[i], false)); return; }
        if (P.dec && rs[i].dec < res[i].dec) { c.violation("a part of the box has a weaker decoration", boxtext(P, box) + "at " + name(P, (int)i) + " = " + show(P.n[i].R, res[i], true) + " but on the part " + boxtext(P, sub) + show(P.n[i].R, rs[i], true)); return; }
        if (bE[i].st == 1 && !meets(bE[i].v, rs[i])) { c.violation("value of an intermediate not enclosed on a part", boxtext(P, sub) + "at " + name(P, (int)i)); return; }
    }
    contract(c, k, r, P, box, res, bE, best);
}
}
