// P24: a program of several translation units that use the library.  One session is performed three times,
// with its actions spread over the units and inside one unit; what it sees must not depend on that.
#include "mon.hpp"
#include "mtu.hpp"
#include <sstream>
#include <algorithm>
using namespace ref; using namespace lib; using namespace libtext;
namespace lib { int part_of(int op); }
namespace mtu {
namespace u0 { extern Unit const the_unit; } namespace u1 { extern Unit const the_unit; } namespace u2 { extern Unit const the_unit; } namespace u3 { extern Unit const the_unit; } namespace u4 { extern Unit const the_unit; }
Unit const* unit(int i) { static Unit const* u[] = {&u0::the_unit, &u1::the_unit, &u2::the_unit, &u3::the_unit, &u4::the_unit}; return u[i]; }
}
namespace mon {
namespace {
using mtu::Unit; using mtu::unit; enum { UNITS = 5 };
struct Seen { std::string what, seen; int kind; };
enum { A_MANIP, A_COPYFMT, A_WRITE, A_WRITE_STATE, A_READ, A_TEXT, A_FLAGS, A_OP, A_REDUCE, A_TWO_SUM, A_KINDS };
const char* aname(int k) { static const char* n[] = {"manipulators", "copyfmt", "intervals written", "decorations and overlap states written", "intervals and decorations read", "text constructors", "flag and trap accesses", "operations", "reductions", "error-free sums"}; return n[k]; }
std::string num(ld v) { char b[60]; snprintf(b, sizeof b, "%La", v); return std::isnan(v) ? "nan" : b; }
std::string arg(Arg const& a) { return "{" + num(a.lo) + "," + num(a.hi) + "," + std::to_string(a.dec) + "}"; }
std::string res(Out const& o) {
    std::string s;
    switch (o.kind) { case K_INTERVAL: s = arg(o.a); break; case K_PAIR: s = arg(o.a) + arg(o.b); break; case K_BOOL: s = o.tf ? "true" : "false"; break; case K_NUM: s = num(o.n1); break; case K_NUM2: s = num(o.n1) + " " + num(o.n2); break; case K_STATE: s = std::to_string(o.state); break; default: s = "-"; }
    return s + " flags " + std::to_string(o.flags) + " exception " + std::to_string(o.exc);
}
std::string number_text(Rng& r) { switch (r.range(0, 5)) { case 0: return std::to_string(r.range(-99, 99)); case 1: return std::to_string(r.range(-99, 99)) + "." + std::to_string(r.range(0, 9999)); case 2: return std::to_string(r.range(1, 99)) + "e" + std::to_string(r.range(-40, 40)); case 3: return std::to_string(r.range(1, 9)) + "/" + std::to_string(r.range(1, 9)); case 4: return "0x1." + std::to_string(r.range(1, 999)) + "p" + std::to_string(r.range(-20, 20)); default: return r.chance(50) ? "-inf" : "0"; } }
std::string literal(Rng& r) {
    std::string s;
    switch (r.range(0, 9)) { case 0: s = "[empty]"; break; case 1: s = "[entire]"; break; case 2: s = "[nai]"; break; case 3: s = std::to_string(r.range(-99, 99)) + "." + std::to_string(r.range(0, 99)) + "?" + std::to_string(r.range(0, 50)); break; case 4: s = "[" + number_text(r) + "]"; break; case 5: s = "nonsense"; break; default: s = "[" + number_text(r) + ", " + number_text(r) + "]"; }
    static const char* d[] = {"", "", "", "_com", "_dac", "_def", "_trv", "_ill"}; return s + d[r.below(8)];
}
// unit < 0: any unit, chosen by `pick`
void session(uint64_t seed, int n, int only, Rng pick, std::vector<Seen>& log, std::vector<int>& units) {
    Rng r(seed); std::ostringstream os[2]; unit(0)->set_flags(0); unit(0)->flagapi_set_cwd(0, false); log.clear(); units.clear();
    for (int i = 0; i < n; ++i) {
        int w = (int)pick.below(UNITS); Unit const& u = *unit(only < 0 ? w : only); units.push_back(only < 0 ? w : only);
        Seen e; int z = r.range(0, 99), j = r.range(0, 1); Out o; std::ostringstream what; int trap = u.get_trap(); bool quiet = z < 72;
        if (quiet && trap) u.flagapi_set_cwd(0, false);
        if (z < 30) { Manip m; m.kind = r.range(0, M_COUNT - 1); m.arg = has_arg(m.kind) ? r.range(0, 40) : 0; u.manip(os[j], m); e.kind = A_MANIP; what << "manipulator " << m.kind << " on stream " << j; }
        else if (z < 32) { os[j].copyfmt(os[1 - j]); e.kind = A_COPYFMT; what << "copyfmt to stream " << j; }
        else if (z < 52) { int t = r.range(0, 2), lv = r.range(0, 1); bool dec = r.chance(50); Arg a = interval(r, t); a.dec = rnd_dec(r, a); os[j].str(""); u.write(os[j], t, lv, dec, a, o); e.kind = A_WRITE; what << "write " << show(t, a, dec) << " to stream " << j; e.seen = os[j].str() + (os[j].good() ? "" : " failed") + " " + res(o); os[j].clear(); }
        else if (z < 58) { os[j].str(""); e.kind = A_WRITE_STATE; if (r.chance(50)) { int d = 4 * r.range(0, 4); u.write_dec(os[j], d, o); what << "write decoration " << d; } else { int s = 1 << r.range(0, 15); u.write_ovl(os[j], s, o); what << "write overlap state " << s; } what << " to stream " << j; e.seen = os[j].str() + " " + res(o); os[j].clear(); }
        else if (z < 66) {
            int t = r.range(0, 2), lv = r.range(0, 1); bool dec = r.chance(50); std::string s = literal(r); e.kind = A_READ;
            if (r.chance(80)) { std::istringstream is(s + " rest"); Arg a(-1, 2, 8); u.read(is, t, lv, dec, a, o); what << "read " << s; e.seen = arg(a) + (is.fail() ? " failed " : " ") + res(o); }
            else { static const char* d[] = {"ill", "trv", "def", "dac", "com", "com ", "x"}; int k = r.range(0, 6), v = 8; std::istringstream is(d[k]); u.read_dec(is, v, o); what << "read decoration " << d[k]; e.seen = std::to_string(v) + (is.fail() ? " failed " : " ") + res(o); }
        }
        else if (z < 72) { int t = r.range(0, 2), lv = r.range(0, 1); bool dec = r.chance(50); std::string s = literal(r); u.construct(t, lv, dec, s, o); e.kind = A_TEXT; what << "construct from " << s; e.seen = res(o); }
        else if (z < 82) {
            e.kind = A_FLAGS; int a = r.range(0, 5), v = r.range(0, 15), ret = 0, x = 0;
            switch (a) { case 0: ret = u.flagapi_clear(); what << "clear"; break; case 1: ret = u.flagapi_set_cwd(v, r.chance(50)); what << "traps " << v; break; case 2: ret = u.flagapi_set_cwd(0, false); what << "traps 0"; break; case 3: u.set_flags(v); what << "state " << v; break; case 4: x = u.flagapi_signal(v & 3, ret); what << "signal " << (1 << (v & 3)); break; default: ret = u.flagapi_queries(); what << "queries"; }
            e.seen = std::to_string(ret) + " exception " + std::to_string(x);
        }
        else if (z < 95) {
            e.kind = A_OP; bool done = false;
            for (int q = 0; q < 40 && !done; ++q) {
                int op = r.range(0, L_COUNT - 1), form = r.range(0, NFORMS - 1); Arg x[3]; for (int k = 0; k < 3; ++k) { x[k] = interval(r, TD, op, k); x[k].dec = rnd_dec(r, x[k]); if (decorated(form) && r.chance(3)) x[k] = Arg(NAN, NAN, 0); }
                int p = exponent(r); ld m = value(r, TD);
                if (u.same_d[part_of(op)](op, form, x, p, o, true, m, TD)) { done = true; what << lib::op_name(op) << " " << form_name(form) << " " << show(TD, x[0], true); e.seen = res(o); }
            }
        }
        else if (z < 98) { e.kind = A_REDUCE; int t = r.range(0, 2), k = r.range(0, 3), ct = r.range(0, 5), rd = r.range(0, 3), cnt = r.range(0, 6); std::vector<ld> a, b; for (int q = 0; q < cnt; ++q) { a.push_back(mon::value(r, t)); b.push_back(mon::value(r, t)); } bool mod; int exc; ld v = u.reduce(t, k, ct, rd, a, b, mod, exc); what << rkind_name(k); e.seen = num(v) + (mod ? " modified" : "") + (exc ? " exception" : ""); }
        else { e.kind = A_TWO_SUM; int t = r.range(0, 2); ld a = mon::value(r, t), b = mon::value(r, t), s = 0, q = 0; int exc; u.two_sum(t, a, b, s, q, exc); what << "two_sum"; e.seen = num(s) + " " + num(q); }
        if (quiet && trap) u.flagapi_set_cwd(trap, false);
        e.what = what.str(); e.seen += " | flags " + std::to_string(u.get_flags()) + " traps " + std::to_string(u.get_trap());
        // every unit sees the same flags and traps
        for (int q = 0; q < UNITS; ++q) if (unit(q)->get_flags() != u.get_flags() || unit(q)->get_trap() != u.get_trap()) { e.seen += std::string(" but ") + unit(q)->name + " sees flags " + std::to_string(unit(q)->get_flags()) + " traps " + std::to_string(unit(q)->get_trap()); break; }
        log.push_back(e);
    }
    unit(0)->set_flags(0); unit(0)->flagapi_set_cwd(0, false);
}
}
bool gen_P24(Ctx& c, Case& k) { Rng& r = c.rng; k.aux[7] = 106; k.seed = r.next(); k.p = r.range(4, 40); k.aux[0] = r.range(0, UNITS - 1); return true; }
void judge_P24(Ctx& c, Case const& k) {
    mark(c, k, 0);
    static bool first = true;
    if (first || c.replaying) {
        first = false; std::string ref = unit(0)->late();
        for (int q = 0; q < UNITS; ++q) {
            std::string l = unit(q)->late(); c.checks += 2; c.tick("actions during static initialisation", 14);
            if (l != ref) c.violation("result depends on the translation unit", std::string(unit(q)->name) + ": " + l + " but u0: " + ref);
            if (unit(q)->early() != ref) c.violation("result differs during static initialisation", std::string(unit(q)->name) + ": " + unit(q)->early() + " but later: " + ref);
        }
    }
    c.note.clear(); std::vector<Seen> spread, one; std::vector<int> us, uo; Rng pick(k.seed ^ 0x1234567ull);
    session(k.seed, k.p, -1, pick, spread, us); session(k.seed, k.p, k.aux[0], pick, one, uo);
    // non-trivial: a manipulator, flag or trap of one unit that another unit depended on
    int lastm = -1, lastf = -1; uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < spread.size(); ++i) {
        Seen const& a = spread[i]; ++c.checks; ++c.calls; c.tick(aname(a.kind)); h = (h ^ (uint64_t)(us[i] * 16 + a.kind)) * 1099511628211ull;
        if (a.kind == A_MANIP) lastm = us[i]; else if ((a.kind == A_WRITE || a.kind == A_WRITE_STATE) && lastm >= 0 && lastm != us[i]) c.tick("writes governed by manipulators of another unit");
        if (a.kind == A_FLAGS) { if (lastf >= 0 && lastf != us[i]) c.tick("flags and traps set in another unit"); lastf = us[i]; }
        if (a.seen.find(" but u") != std::string::npos) { c.violation("units disagree about flags or traps", std::string(unit(us[i])->name) + ": " + a.what + ": " + a.seen); break; }
        if (a.what != one[i].what || a.seen != one[i].seen) { c.violation("result depends on the translation units", std::string(unit(us[i])->name) + ": " + a.what + ": " + a.seen.substr(0, 300) + " but inside " + unit(k.aux[0])->name + " alone: " + one[i].seen.substr(0, 300)); break; }
        if (c.note.size() < 400) c.note += std::string(unit(us[i])->name) + ": " + a.what + " -> " + a.seen.substr(0, 60) + "; ";
    }
    c.nontrivial(h);
}
Monitor const monitors[] = {
    {"P24", gen_P24, judge_P24, "sessions of manipulators, writes, reads, flag and trap accesses, operations and reductions spread over 5 translation units compiled with different options, compared with the same session inside one unit; non-trivial: distinct sequence of (unit, kind of action)", nullptr},
    {nullptr, nullptr, nullptr, nullptr, nullptr}};
}
