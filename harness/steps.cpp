#include "steps.hpp"
#include "mon_misc.hpp"
#include "lib_red.hpp"
using namespace ref; using namespace lib;
namespace mon {
static std::string num(ld v) { char b[60]; snprintf(b, sizeof b, "%La", v); return std::isnan(v) ? "nan" : b; }
static std::string arg(Arg const& a) { return "{" + num(a.lo) + "," + num(a.hi) + "," + std::to_string(a.dec) + "}"; }
static std::string out(Out const& o) {
    std::string s;
    if (o.exc) s = "exception " + std::to_string(o.exc);
    else switch (o.kind) {
    case K_INTERVAL: s = arg(o.a); break; case K_PAIR: s = arg(o.a) + arg(o.b); break; case K_BOOL: s = o.tf ? "true" : "false"; break;
    case K_NUM: s = num(o.n1); break; case K_NUM2: s = num(o.n1) + " " + num(o.n2); break; case K_STATE: s = std::to_string(o.state); break; default: s = "-"; }
    return s + " flags " + std::to_string(o.flags);
}
void step(Rng& r, Step& s, bool traps) {
    int z = r.range(0, 99); int before = get_trap();
    s.kind = z < 40 ? S_OP : z < 50 ? S_CONSTRUCT : z < 58 ? S_WRITE : z < 64 ? S_READ : z < 68 ? S_TEXT : z < 76 ? S_REDUCE : z < 80 ? S_TWO_SUM : z < 90 ? S_FLAGS : z < 97 ? S_SHARED : S_DECORATION;
    if (s.kind == S_FLAGS && !traps) s.kind = S_OP;
    s.what.clear(); s.seen.clear();
    bool plain = s.kind != S_OP && s.kind != S_CONSTRUCT && s.kind != S_FLAGS;
    if (plain && before) set_trap(0);
    switch (s.kind) {
    case S_OP: {
        Ctx c; c.rng = Rng(r.next()); Case q; bool bad = false; int f = interval_case(c, q, bad); Out o; bool keep = traps && r.chance(50);
        s.what = describe(q) + " via " + form_name(f);
        if (call(q.op, f, q.R, q.t, q.x, q.p, o, keep, q.m, q.mt)) s.seen = out(o); else s.seen = "no such form";
        break;
    }
    case S_CONSTRUCT: construct_step(r, s.what, s.seen); break;
    case S_WRITE: text_write(r, s.what, s.seen); break;
    case S_READ: text_read(r, s.what, s.seen); break;
    case S_TEXT: text_construct(r, s.what, s.seen); break;
    case S_DECORATION: text_decoration(r, s.what, s.seen); break;
    case S_REDUCE: {
        int t = r.range(0, 2), n = r.range(0, 9), kind = r.range(0, 3), cont = r.range(0, 5), rnd = r.range(0, 3); std::vector<ld> a, b;
        for (int i = 0; i < n; ++i) { a.push_back(mon::value(r, t)); b.push_back(mon::value(r, t)); if (i && r.chance(30)) { a[i] = -a[i - 1]; b[i] = b[i - 1]; } }
        bool mod; int exc; ld v = reduce(t, kind, cont, rnd, a, b, mod, exc); s.what = std::string(type_name(t)) + " " + rkind_name(kind) + " of " + std::to_string(n) + " terms"; s.seen = num(v) + (mod ? " modified" : "") + (exc ? " exception" : "");
        break;
    }
    case S_TWO_SUM: { int t = r.range(0, 2); ld a = mon::value(r, t), b = mon::value(r, t), x = 0, e = 0; int exc; two_sum(t, a, b, x, e, exc); s.what = std::string(type_name(t)) + " two_sum " + num(a) + " " + num(b); s.seen = num(x) + " " + num(e); break; }
    case S_FLAGS: {
        int a = r.range(0, 7), v = r.range(0, 15); int ret = 0, x = 0;
        switch (a) {
        case 0: ret = flagapi_clear(); s.what = "clear"; break;
        case 1: ret = flagapi_set_cwd(v, r.chance(50)); s.what = "set_throw_exception_cwd " + std::to_string(v); break;
        case 2: ret = flagapi_set_cwd(0, false); s.what = "set_throw_exception_cwd 0"; break;
        case 3: set_flags(v); s.what = "state()=" + std::to_string(v); break;
        case 4: x = flagapi_signal(v & 3, ret); s.what = "signal " + std::to_string(1 << (v & 3)); break;
        case 6: ret = flagapi_withdraw(v, false); s.what = "withdraw flags " + std::to_string(v); break;
        case 7: ret = flagapi_withdraw(v, true); s.what = "withdraw exceptions " + std::to_string(v); break;
        default: ret = flagapi_queries(); s.what = "queries"; }
        s.seen = std::to_string(ret) + " exception " + std::to_string(x) + " flags " + std::to_string(get_flags()) + " traps " + std::to_string(get_trap());
        break;
    }
    case S_SHARED: { int w = r.range(0, SHARED_OPS - 1), i = r.range(0, SHARED_OBJECTS - 1), j = r.range(0, SHARED_OBJECTS - 1); s.what = "shared constants " + std::to_string(i) + "," + std::to_string(j) + " access " + std::to_string(w); s.seen = shared_step(w, i, j); break; }
    }
    if (plain && before) set_trap(before);
    if (traps) s.seen += " | flags " + std::to_string(get_flags()) + " traps " + std::to_string(get_trap());
}
}
