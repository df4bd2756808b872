// Monitors P14 (construction and conversion) and P15 (exception flags and traps).
#include "mon_misc.hpp"
#include "lib_ctor.hpp"
#include <algorithm>
using namespace ref; using namespace mon; using namespace lib;
namespace {
bool pseudo(ld) { return false; }
ld anyval(Rng& r, int t) { int q = r.range(0, 99); if (q < 6) return INFINITY; if (q < 12) return -INFINITY; if (q < 15) return NAN; return value(r, t); }
ld to_type(Rng& r, int t, ld v) { if (std::isnan(v) || std::isinf(v)) return v; Hp h; Wide w; set_ld(h, v); ld u = round_to(t, h.v, r.chance(50) ? 'D' : 'U'); return u; }
bool wf(Arg const& a, bool dec) {
    bool nan = std::isnan(a.lo) && std::isnan(a.hi);
    if (!nan && !(a.lo <= a.hi && a.lo < INFINITY && a.hi > -INFINITY)) return false;
    if (!dec) return true;
    if (nan) return a.dec == 0 || a.dec == 4;
    if (a.dec == 4 || a.dec == 8 || a.dec == 12) return true;
    return a.dec == 16 && std::isfinite(a.lo) && std::isfinite(a.hi);
}
bool decorated_kind(int k) { switch (k) { case C_NUMD: case C_NUMDEC: case C_COPYD: case C_CONVD: case C_NEWDEC: case C_SETDEC: case C_EMPTYD: case C_ENTIRED: case C_NAI: case C_DEFAULTD: case C_ASSIGND: case C_HULLD: return true; } return false; }
bool valid_dec(int d) { return d == 0 || d == 4 || d == 8 || d == 12 || d == 16; }
Arg hull(int R, Arg const& a) { Wide w; if (std::isnan(a.lo)) { Arg e; e.dec = -1; return e; } return hull_to(R, iv(a)); }
// one bound brought to another format; NaN and infinities are kept, a zero has the documented sign
ld brought(int R, ld v, char mode) {
    if (std::isnan(v) || std::isinf(v)) return v;
    Wide w; Hp h; set_ld(h, v); ld u = round_to(R, h.v, mode); return u == 0 ? (mode == 'D' ? -0.0L : 0.0L) : u;
}
bool bits(ld a, ld b) { return std::isnan(a) || std::isnan(b) ? std::isnan(a) && std::isnan(b) : a == b && std::signbit(a) == std::signbit(b); }
// the specified outcome
struct Exp { Arg a; int flags; };
Exp expect(Case const& k) {
    int kind = k.aux[0], dec = k.aux[3], R = k.R; Arg const& x = k.x[0]; Exp e; e.flags = 0; Arg nai(NAN, NAN, 0), empty(NAN, NAN, 4);
    auto finish = [&](Arg h, int d) { if (std::isnan(h.lo)) { h.dec = 4; return h; } h.dec = d == 16 && (std::isinf(h.lo) || std::isinf(h.hi)) ? 12 : d; return h; };
    switch (kind) {
    case C_NUM: case C_NUMD: case C_NUMDEC: {
        if (kind == C_NUMDEC && !valid_dec(dec)) { e.a = nai; e.flags = 8; return e; }
        bool ok = !std::isnan(x.lo) && !std::isnan(x.hi) && x.lo <= x.hi && x.lo < INFINITY && x.hi > -INFINITY;
        if (kind == C_NUMDEC && (dec == 0 || (dec == 16 && (std::isinf(x.lo) || std::isinf(x.hi))))) ok = false;
        if (!ok) { e.a = kind == C_NUM ? empty : nai; e.flags = 1; return e; }
        e.a = finish(hull(R, x), kind == C_NUMDEC ? dec : 16); return e;
    }
    case C_COPY: case C_CONV: case C_ASSIGN: if (!wf(x, false)) { e.a = empty; e.flags = 8; } else e.a = finish(hull(R, x), 16); return e;
    case C_COPYD: case C_CONVD: case C_ASSIGND: if (!wf(x, true)) { e.a = nai; e.flags = 8; } else if (is_nai(x)) e.a = nai; else e.a = finish(hull(R, x), x.dec); return e;
    case C_PART: if (!wf(x, true)) { e.a = empty; e.flags = 8; } else if (is_nai(x)) { e.a = empty; e.flags = 4; } else e.a = finish(hull(R, x), 16); return e;
    case C_NEWDEC: if (!wf(x, false)) { e.a = nai; e.flags = 8; } else e.a = finish(hull(R, x), 16); return e;
    case C_SETDEC: if (!valid_dec(dec) || !wf(x, false)) { e.a = nai; e.flags = 8; } else if (dec == 0) e.a = nai; else { Arg s = x; int d = dec; if (d == 16 && (std::isinf(x.lo) || std::isinf(x.hi))) d = 12; e.a = finish(hull(R, s), d); } return e;
    case C_EMPTY: case C_EMPTYD: case C_DEFAULT: case C_DEFAULTD: e.a = empty; return e;
    case C_ENTIRE: case C_ENTIRED: e.a = Arg(-INFINITY, INFINITY, 12); return e;
    case C_NAI: e.a = nai; return e;
    case C_RNDD: case C_RNDN: case C_RNDU: e.a.lo = brought(R, x.lo, kind == C_RNDD ? 'D' : kind == C_RNDN ? 'N' : 'U'); return e;
    case C_HULL: case C_HULLD:
        if (kind == C_HULLD && is_nai(x) && std::isnan(x.lo)) { e.a = nai; return e; }
        e.a.lo = brought(R, x.lo, 'D'); e.a.hi = brought(R, x.hi, 'U'); e.a.dec = x.dec == 16 && (e.a.lo == -INFINITY || e.a.hi == INFINITY) ? 12 : x.dec; return e;
    case C_DECPART: if (!wf(x, true)) { e.a.dec = 0; e.flags = 8; } else e.a.dec = x.dec; return e;
    }
    return e;
}
void make_case(Ctx& c, Case& k) {
    Rng& r = c.rng;
    k.op = -1; k.op = 0;
    static const int kw[] = {C_NUM, C_NUM, C_NUM, C_NUMD, C_NUMD, C_NUMDEC, C_NUMDEC, C_NUMDEC, C_COPY, C_COPYD, C_CONV, C_CONV, C_CONVD, C_CONVD, C_CONVD, C_PART, C_PART, C_PART, C_NEWDEC, C_NEWDEC, C_SETDEC, C_SETDEC, C_SETDEC, C_DECPART, C_ASSIGN, C_ASSIGND, C_RNDD, C_RNDN, C_RNDU, C_HULL, C_HULLD};
    int kind = r.chance(3) ? r.range(C_EMPTY, C_DEFAULTD) : r.pick(std::vector<int>(kw, kw + sizeof kw / sizeof *kw));
    k.aux[0] = kind; k.aux[1] = r.range(0, 1); k.R = r.range(0, 2); k.t[0] = r.range(0, 2); k.t[1] = kind <= C_NUMDEC ? r.range(0, 2) : k.t[0];
    if (kind == C_COPY || kind == C_COPYD || kind == C_DECPART || kind >= C_EMPTY || (kind >= C_PART && r.chance(35))) k.t[0] = k.t[1] = k.R;
    if (kind <= C_NUMDEC && r.chance(30)) k.t[0] = k.t[1] = k.R;
    if (kind == C_ASSIGN || kind == C_ASSIGND || (kind >= C_DEFAULT)) k.aux[1] = 1;
    Arg& x = k.x[0];
    if (kind >= C_RNDD) {
        k.aux[1] = 0; k.t[0] = k.t[1] = r.range(0, 2);
        if (kind <= C_RNDU) {
            x = Arg(anyval(r, k.t[0]), 0, 12);
            if (k.R < k.t[0] && std::isfinite(x.lo) && r.chance(40)) {      // next to a number of the target or to the middle of two
                ld v = value(r, k.R), u = next_of(k.R, v, v < 0 ? 1 : -1); x.lo = r.chance(50) ? v : std::isinf(v) || std::isinf(u) ? v : v / 2 + u / 2;
                if (k.t[0] == TD) x.lo = (ld)(double)x.lo;
                for (int j = r.range(-1, 1); j != 0; j = 0) x.lo = next_of(k.t[0], x.lo, j * INFINITY);
            }
        } else {
            x = interval(r, k.t[0]); x.dec = rnd_dec(r, x);
            if (kind == C_HULL && r.chance(25)) x = Arg(anyval(r, k.t[0]), anyval(r, k.t[0]), 12);
            if (kind == C_HULLD && r.chance(4)) x = Arg(NAN, NAN, 0);
        }
    } else if (kind <= C_NUMDEC) {
        x.lo = anyval(r, k.t[0]);
        switch (r.range(0, 5)) {
        case 0: x.hi = to_type(r, k.t[1], x.lo); break;                                   // equal or an ulp of the narrower type apart
        case 1: x.hi = to_type(r, k.t[1], x.lo); if (std::isfinite(x.hi)) x.hi = next_of(k.t[1], x.hi, r.chance(60) ? INFINITY : -INFINITY); break;
        default: x.hi = anyval(r, k.t[1]); if (r.chance(60) && x.lo > x.hi && k.t[0] == k.t[1]) std::swap(x.lo, x.hi); break;
        }
        if (r.chance(4)) { x.lo = r.chance(50) ? (ld)0.0 : (ld)-0.0L; x.hi = -x.lo; }
    } else {
        x = interval(r, k.t[0]); x.dec = rnd_dec(r, x); if (r.chance(5)) x = Arg(NAN, NAN, 0);
        bool D = kind == C_COPYD || kind == C_CONVD || kind == C_PART || kind == C_DECPART || kind == C_ASSIGND;
        if (k.aux[1] == 0 && r.chance(35)) {
            ld v = value(r, k.t[0]), u = value(r, k.t[0]); if (v == u) u = next_of(k.t[0], v, -INFINITY); if (v < u) std::swap(u, v);
            switch (r.range(0, D ? 8 : 5)) {
            case 0: x = Arg(v, u, 12); break; case 1: x = Arg(INFINITY, INFINITY, 12); break; case 2: x = Arg(-INFINITY, -INFINITY, 12); break;
            case 3: x = Arg(NAN, v, 12); break; case 4: x = Arg(v, NAN, 4); break; case 5: x = Arg(INFINITY, -INFINITY, 12); break;
            case 6: x = Arg(u, v, 0); break; case 7: x = Arg(NAN, NAN, 4 * r.range(2, 4)); break; default: x = r.chance(50) ? Arg(v, INFINITY, 16) : Arg(-INFINITY, u, 16); break;
            }
        }
        if (!D && k.aux[1] && is_nai(x)) x.dec = 4;
    }
    static const int decs[] = {0, 4, 8, 12, 16, 16, 12, 4}; k.aux[3] = decs[r.below(8)];
    if (r.chance(3)) { static const int bad[] = {1, 3, 5, 15, 17, 20, 24, 31}; k.aux[3] = bad[r.below(8)]; }
}
std::string show_case(Case const& k) {
    std::string s = std::string(ckind_name(k.aux[0])) + (k.aux[1] ? " (class)" : " (flavor)") + " " + type_name(k.R) + " from " + type_name(k.t[0]); if (k.aux[0] <= C_NUMDEC) s += std::string("/") + type_name(k.t[1]);
    s += " {" + hex(k.x[0].lo) + "," + hex(k.x[0].hi) + "}";
    if (k.aux[0] > C_NUMDEC) s += " dec " + std::to_string(k.x[0].dec);
    if (k.aux[0] == C_NUMDEC || k.aux[0] == C_SETDEC) s += " requested decoration " + std::to_string(k.aux[3]);
    return s;
}
bool same_out(Case const& k, Out const& o, Exp const& e) {
    if (k.aux[0] == C_DECPART) return o.state == e.a.dec;
    if (k.aux[0] >= C_RNDD && k.aux[0] <= C_RNDU) return o.kind == K_NUM && bits(o.n1, e.a.lo);
    if (k.aux[0] == C_HULL || k.aux[0] == C_HULLD) return o.kind == K_INTERVAL && bits(o.a.lo, e.a.lo) && bits(o.a.hi, e.a.hi) && (k.aux[0] == C_HULL || o.a.dec == e.a.dec);
    if (o.kind != K_INTERVAL || !mon::same(o.a, e.a)) return false;
    if (std::isnan(o.a.lo) != std::isnan(o.a.hi)) return false;
    return !decorated_kind(k.aux[0]) || o.a.dec == e.a.dec;
}
}
namespace mon {
bool construct_step(Rng& r, std::string& what, std::string& seen) {
    Ctx d; d.rng = Rng(r.next()); Case q; make_case(d, q); Out o; what = show_case(q);
    if (!construct(q.R, q.aux[0], q.aux[1], q.t[0], q.t[1], q.x[0], q.aux[3], o, true)) { seen = "no such form"; return false; }
    bool nan = std::isnan(o.a.lo) && std::isnan(o.a.hi);
    seen = o.exc ? "exception " + std::to_string(o.exc) : nan ? "empty " + std::to_string(o.a.dec) + " state " + std::to_string(o.state) : o.kind == K_NUM ? hex(o.n1) : hex(o.a.lo) + "," + hex(o.a.hi) + " " + std::to_string(o.a.dec) + " state " + std::to_string(o.state);
    seen += " flags " + std::to_string(o.flags); return true;
}
bool gen_P14(Ctx& c, Case& k) { make_case(c, k); return true; }
void judge_P14(Ctx& c, Case const& k) {
    Out o; mark(c, k, k.aux[1]);
    if (!construct(k.R, k.aux[0], k.aux[1], k.t[0], k.t[1], k.x[0], k.aux[3], o)) return;
    ++c.calls; ++c.checks;
    Exp e = expect(k); std::string got = mon::show(k.R, o.a, decorated_kind(k.aux[0])), w = mon::show(k.R, e.a, decorated_kind(k.aux[0]));
    if (k.aux[0] >= C_RNDD) { got = k.aux[0] <= C_RNDU ? hex(o.n1) : hex(o.a.lo) + "," + hex(o.a.hi) + " dec " + std::to_string(o.a.dec); w = hex(e.a.lo) + "," + hex(e.a.hi) + " dec " + std::to_string(e.a.dec); }
    if (k.aux[0] == C_DECPART) { got = std::to_string(o.state); w = std::to_string(e.a.dec); }
    if (o.exc) c.violation("exception", show_case(k) + " threw " + o.what);
    else if (!same_out(k, o, e)) c.violation("wrong construction", show_case(k) + " = " + got + " expected " + w);
    else if (o.flags != e.flags) c.violation("wrong flags", show_case(k) + " left flags " + std::to_string(o.flags) + " expected " + std::to_string(e.flags));
    c.tick(std::string(ckind_name(k.aux[0])) + (k.aux[1] ? " class" : " flavor")); if (e.flags) c.tick("rejections"); else c.nontrivial(hash(k));
    if (std::isnan(k.x[0].lo) && k.aux[0] > C_NUMDEC) return;
}
// ---- P15: a walk over the flag and trap interface against a model ---------------------------------------
bool gen_P15(Ctx& c, Case& k) { k.seed = c.rng.next(); k.p = c.rng.range(3, 40); return true; }
void judge_P15(Ctx& c, Case const& k) {
    Ctx d; d.rng = Rng(k.seed); d.prop = c.prop; Rng& r = d.rng;
    int flags = 0, traps = 0; uint64_t states = 0; std::string trace; char b[160];
    set_trap(0); clear_flags();
    auto fail = [&](const char* what, std::string const& s) { c.violation(what, s + " after: " + (trace.size() > 900 ? trace.substr(trace.size() - 900) : trace)); set_trap(0); clear_flags(); };
    for (int i = 0; i < k.p; ++i) {
        int a = r.range(0, 14); std::string act; int want_exc = 0, got_exc = 0; int sig = 0;
        mark(c, k, a);
        switch (a) {
        case 0: { int ret = flagapi_clear(); flags = 0; act = "clear()"; if (ret != 0) { fail("wrong return value", "clear() returned " + std::to_string(ret)); return; } break; }
        case 1: case 2: { int v = r.range(0, 15); if (r.chance(40)) v = 0; int ret = flagapi_set_cwd(v, r.chance(30)); traps = v; snprintf(b, sizeof b, "set_throw_exception_cwd(%d)", v); act = b; if (ret != v) { fail("wrong return value", act + " returned " + std::to_string(ret)); return; } break; }
        case 3: { int v = r.range(0, 15); flags = v; set_flags(v); snprintf(b, sizeof b, "state()=%d", v); act = b; break; }
        case 4: case 5: { int w = r.range(0, 3); sig = 1 << w; int ret = -1; got_exc = flagapi_signal(w, ret); snprintf(b, sizeof b, "signal %d", sig); act = b; if (!got_exc && ret != (flags | sig)) { fail("wrong return value", act + " returned " + std::to_string(ret) + " instead of " + std::to_string(flags | sig)); return; } break; }
        case 6: { int x = r.range(0, 15), y = r.range(0, 15), bad = flagapi_bits(x, y); snprintf(b, sizeof b, "bit operators %d %d", x, y); act = b; if (bad) { fail("wrong bit operator", act + " operator " + std::to_string(bad)); return; } break; }
        case 7: case 8: case 9: {
            Case q; make_case(d, q); Out o; Exp e = expect(q); int f0 = flags;
            if (!construct(q.R, q.aux[0], q.aux[1], q.t[0], q.t[1], q.x[0], q.aux[3], o, true)) continue;
            sig = e.flags; got_exc = o.exc; act = show_case(q); (void)f0;
            if (!o.exc && !same_out(q, o, e)) { fail("wrong result under traps", act); return; }
            break;
        }
        case 10: case 11: {
            Case q; bool bad = false; int f = interval_case(d, q, bad); Out o; act = describe(q) + " via " + form_name(f);
            if (!lib::call(q.op, f, q.R, q.t, q.x, q.p, o, true, q.m, q.mt)) continue;
            sig = bad ? 8 : 0; got_exc = o.exc; break;
        }
        case 12: { bool ok; int form = r.range(0, 3); std::string s = text_case(r, ok); got_exc = flagapi_text(form, s); sig = ok ? 0 : 1; act = "text constructor \"" + s + "\""; break; }
        case 13: { int v = r.range(0, 15); bool t = r.chance(40); int& m = t ? traps : flags; int ret = flagapi_withdraw(v, t); m &= ~v; snprintf(b, sizeof b, "%s &= ~%d", t ? "traps" : "flags", v); act = b; if (ret != m) { fail("wrong return value", act + " gave " + std::to_string(ret)); return; } break; }
        default: { bool ok; int form = r.range(0, 3); std::string s = text_case(r, ok); bool failbit = false; got_exc = flagapi_stream(form, s, failbit); sig = 0; act = "stream input \"" + s + "\""; if (got_exc == 0 && failbit == ok) { fail("wrong stream state", act); return; } break; }
        }
        flags |= sig; if (sig & traps) want_exc = sig == 1 ? 1 : sig == 2 ? 2 : sig == 4 ? 3 : 4;
        if (trace.size() < 4000) trace += act + "; ";
        int now = get_flags(); ++c.checks; ++c.calls;
        if (got_exc != want_exc) { fail("wrong exception", "exception kind " + std::to_string(got_exc) + " expected " + std::to_string(want_exc) + " with traps " + std::to_string(traps)); return; }
        if (now != flags) { fail("wrong flags", "flags " + std::to_string(now) + " expected " + std::to_string(flags) + " with traps " + std::to_string(traps)); return; }
        if (get_trap() != traps) { fail("trap mask changed", "trap mask " + std::to_string(get_trap()) + " expected " + std::to_string(traps)); return; }
        if (flagapi_queries() != flags) { fail("wrong flag query", "queries report " + std::to_string(flagapi_queries()) + " but flags are " + std::to_string(flags)); return; }
        states |= 1ull << (flags & 15); c.nontrivial((uint64_t)a << 20 | (uint64_t)sig << 12 | (uint64_t)traps << 4 | (uint64_t)flags);
        if (want_exc) c.tick("exceptions kind " + std::to_string(want_exc));
        if (sig) c.tick("signals " + std::to_string(sig)); else c.tick("quiet actions");
    }
    set_trap(0); clear_flags(); (void)pseudo;
}
}
