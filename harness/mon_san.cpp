// P21: hostile histories for the sanitizers, with an own account of the heap and a log of everything seen
// (compared between builds that initialise automatic variables differently).
#include "steps.hpp"
#include "mon_misc.hpp"
#include "lib_text.hpp"
#include "lib_red.hpp"
#include <sstream>
#include <streambuf>
#include <unistd.h>
using namespace ref; using namespace lib; using namespace libtext;
extern "C" { extern long verif_peak __attribute__((weak)), verif_blocks __attribute__((weak)), verif_bytes __attribute__((weak)), verif_allocs __attribute__((weak)), verif_fail_at __attribute__((weak)); long verif_hook() __attribute__((weak)); }
namespace mon {
namespace {
struct BadBuf : std::streambuf {            // fails or throws after `left` characters
    long left; bool thr; std::string got; BadBuf(long l, bool t) : left(l), thr(t) {}
    int overflow(int c) { if (left-- <= 0) { if (thr) throw 42; return EOF; } got += (char)c; return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) { for (std::streamsize i = 0; i < n; ++i) if (overflow((unsigned char)s[i]) == EOF) return i; return n; }
};
struct BadSource : std::streambuf {
    std::string s; size_t i; long left; bool thr; char c; BadSource(std::string const& t, long l, bool e) : s(t), i(0), left(l), thr(e), c(0) {}
    int underflow() { if (i >= s.size()) return EOF; if (left-- <= 0) { if (thr) throw 42; return EOF; } c = s[i++]; setg(&c, &c, &c + 1); return (unsigned char)c; }
};
std::string num(ld v) { char b[60]; snprintf(b, sizeof b, "%La", v); return std::isnan(v) ? "nan" : b; }
std::string res(Out const& o) { std::string s = o.kind == K_INTERVAL ? "{" + num(o.a.lo) + "," + num(o.a.hi) + "," + std::to_string(o.a.dec) + "}" : "-"; return s + " flags " + std::to_string(o.flags) + " exception " + std::to_string(o.exc); }
std::string garbage(Rng& r) {
    int n = r.chance(80) ? r.range(0, 60) : r.range(0, 600); std::string s; int k = r.range(0, 3); static const char al[] = "[],;?_0123456789.+-eExXpPudUD/ \t\ninfemptyentirenaicomdacdeftrvill";
    for (int i = 0; i < n; ++i) s += k == 0 ? (char)r.range(0, 255) : k == 1 ? al[r.below(sizeof al - 1)] : k == 2 ? "[1,2]?e"[r.below(7)] : (char)r.range(32, 126);
    return s;
}
void hostile(Rng& r, Step& s) {
    Out o; int t = r.range(0, 2), level = r.range(0, 1); bool dec = r.chance(50);
    switch (r.range(0, 6)) {
    case 0: {       // extreme formats
        std::ostringstream os; s.kind = 10; int n = r.range(1, 6); for (int i = 0; i < n; ++i) { Manip m; m.kind = r.range(0, M_COUNT - 1); m.arg = has_arg(m.kind) ? (r.chance(90) ? r.range(0, 400) : r.range(0, 6000)) : 0; manip(os, m); }
        if (r.chance(15)) { static const unsigned p[] = {2147483647u, 2147483648u, 4294967295u, 4294967290u}; Manip m = {M_PRECISION, p[r.below(4)]}; manip(os, m); }
        Arg a = interval(r, t); a.dec = rnd_dec(r, a); if (dec && r.chance(10)) a = Arg(NAN, NAN, 0); libtext::write(os, t, level, dec, a, o); s.what = "write " + show(t, a, dec) + " with an extreme format"; s.seen = os.str() + res(o); break; }
    case 1: {       // failing sink
        BadBuf b(r.range(0, 40), r.chance(40)); std::ostream os(&b); s.kind = 11; if (r.chance(50)) os.exceptions(std::ios::badbit | std::ios::failbit); int n = r.range(0, 4); for (int i = 0; i < n; ++i) { Manip m; m.kind = r.range(0, M_COUNT - 1); m.arg = has_arg(m.kind) ? r.range(0, 60) : 0; manip(os, m); }
        Arg a = interval(r, t); a.dec = rnd_dec(r, a); int k = r.range(0, 5); if (k == 0) write_dec(os, a.dec, o); else if (k == 1) write_ovl(os, 1 << r.range(0, 15), o); else libtext::write(os, t, level, dec, a, o);
        s.what = "write to a failing stream"; s.seen = b.got + res(o) + (os.good() ? "" : " failed"); break; }
    case 2: {       // failing source
        BadSource b(any_literal(r, t, false), r.range(0, 30), r.chance(40)); std::istream is(&b); s.kind = 12; try { if (r.chance(50)) is.exceptions(std::ios::badbit | std::ios::failbit); } catch (...) { }
        Arg a(-1, 2, 8); int d = 8; if (r.chance(15)) read_dec(is, d, o); else libtext::read(is, t, level, dec, a, o); s.what = "read from a failing stream"; s.seen = res(o) + num(a.lo) + num(a.hi) + std::to_string(d) + (is.good() ? "" : " failed"); break; }
    case 3: { std::string x = garbage(r); libtext::construct(t, level, dec, x, o); s.kind = 13; s.what = "construct from garbage"; s.seen = res(o); break; }
    case 4: { std::string x = garbage(r); std::istringstream is(x); Arg a(-1, 2, 8); int d = 8; s.kind = 14; if (r.chance(20)) read_dec(is, d, o); else libtext::read(is, t, level, dec, a, o); s.what = "read garbage"; s.seen = res(o) + num(a.lo) + num(a.hi) + std::to_string(d) + (is.good() ? "" : " failed"); break; }
    case 5: {       // sequences of any length
        int n = r.chance(90) ? r.range(0, 60) : r.range(0, 3000), kind = r.range(0, 3), cont = r.range(0, 5), rnd = r.range(0, 3); std::vector<ld> a, b; s.kind = 15;
        for (int i = 0; i < n; ++i) { a.push_back(mon::value(r, t)); b.push_back(mon::value(r, t)); if (r.chance(1)) a.back() = r.chance(50) ? INFINITY : NAN; }
        bool mod; int exc; ld v = reduce(t, kind, cont, rnd, a, b, mod, exc); s.what = std::string(rkind_name(kind)) + " of " + std::to_string(n); s.seen = num(v) + (mod ? "m" : "") + (exc ? "x" : ""); break; }
    default: { std::string x = any_literal(r, t, r.chance(4)); libtext::construct(t, level, dec, x, o); s.kind = 16; s.what = "construct from " + x; s.seen = res(o); break; }
    }
}
const char* kname(int k) { static const char* n[] = {"extreme formats", "failing sinks", "failing sources", "garbage constructed", "garbage read", "long sequences", "long literals"}; return k < S_KINDS ? step_name(k) : n[k - 10]; }
void one_(uint64_t seed, int kind, Step& s) { Rng r(seed); s.what.clear(); s.seen.clear(); if (kind) { int tr = get_trap(); set_trap(0); hostile(r, s); set_trap(tr); } else step(r, s, true); }
// valgrind computes with 64 bit numbers where the program uses 80 bit: outcomes are meaningless there, accesses are not
void one(uint64_t seed, int kind, Step& s) { static bool const tolerant = getenv("VERIF_TOLERANT") != nullptr; if (!tolerant) one_(seed, kind, s); else try { one_(seed, kind, s); } catch (...) { } }
FILE* g_log = nullptr;
uint64_t fnv(uint64_t h, std::string const& s) { for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return (h ^ 255) * 1099511628211ull; }
}
bool gen_P21(Ctx& c, Case& k) { Rng& r = c.rng; k.aux[7] = 107; k.seed = r.next(); k.p = r.range(2, 12); k.aux[0] = verif_hook && r.chance(40); return true; }
void judge_P21(Ctx& c, Case const& k) {
    static bool once = (shared_setup(), true); (void)once;
    mark(c, k, 0); Rng r(k.seed); set_trap(0); clear_flags(); uint64_t h = 1469598103934665603ull; c.note.clear();
    if (const char* l = getenv("VERIF_LOG")) if (!g_log) g_log = fopen((std::string(l) + "." + std::to_string(c.shard)).c_str(), "w");
    for (int i = 0; i < k.p; ++i) {
        uint64_t seed = r.next(); int kind = r.chance(45); mark(c, k, i);
        {
            Step s; s.kind = 0; one(seed, kind, s); ++c.calls; c.tick(kname(s.kind)); h = fnv(fnv(h, s.what), s.seen);
            if (c.note.size() < 400) c.note += s.what.substr(0, 120) + " -> " + s.seen.substr(0, 60) + "; ";
            if (g_log) { std::string w = s.what.substr(0, 120); for (char& ch : w) if ((unsigned char)ch < 32 || (unsigned char)ch > 126) ch = 63; fprintf(g_log, "%016llx\t%s\t%s\n", (unsigned long long)h, dump(k).c_str(), w.c_str()); }
        }
        if (verif_hook && k.aux[0]) {
            // the same action again and again must not make the heap grow
            int tr = get_trap(), fl = get_flags(); bool inject = Rng(seed).chance(40); long d0 = 0, d1 = 0, a0 = 0; std::string what;
            for (int q = 0; q < 4; ++q) {
                set_trap(tr); set_flags(fl); mpfr_free_cache(); long b = verif_blocks, by = verif_bytes, al = verif_allocs;
                { Step s; s.kind = 0; one(seed, kind, s); }
                mpfr_free_cache(); a0 = verif_allocs - al; d0 = verif_blocks - b; d1 = verif_bytes - by; if (d0 == 0 && d1 == 0) break;
            }
            ++c.checks; c.tick("actions with an account of the heap");
            if (d0 > 0 || d1 > 0) { Step s; s.kind = 0; one(seed, kind, s); c.violation("memory leak", s.what + ": " + std::to_string(d0) + " blocks, " + std::to_string(d1) + " bytes remain after every repetition"); return; }
            if (inject && a0 > 0) {
                // an allocation of the action fails
                Rng f(seed ^ 77); long at = 1 + (long)f.below((uint64_t)(a0 < 400 ? a0 : 400)); bool failed = false;
                for (int q = 0; q < 4; ++q) {
                    set_trap(tr); set_flags(fl); mpfr_free_cache(); long b = verif_blocks, by = verif_bytes; 
                    { Step s; s.kind = 0; verif_fail_at = at; try { one(seed, kind, s); } catch (std::bad_alloc const&) { failed = true; } catch (...) { failed = true; } if (verif_fail_at == 0) failed = true; verif_fail_at = 0; }
                    mpfr_free_cache(); d0 = verif_blocks - b; d1 = verif_bytes - by; if (d0 == 0 && d1 == 0) break;
                }
                ++c.checks; if (failed) c.tick("actions with a failing allocation");
                if (d0 > 0 || d1 > 0) { Step s; s.kind = 0; set_trap(tr); set_flags(fl); one(seed, kind, s); c.violation("memory leak after a failed allocation", s.what + ": allocation " + std::to_string(at) + " fails: " + std::to_string(d0) + " blocks, " + std::to_string(d1) + " bytes remain"); return; }
            }
            set_trap(tr); set_flags(fl);
        }
    }
    set_trap(0); clear_flags(); c.nontrivial(h);
}
void fini_P21(Ctx&) { if (g_log) fclose(g_log); g_log = nullptr; }

// ---- P27: what one action costs ---------------------------------------------------------
namespace {
double cpu() { struct timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
FILE* g_cost = nullptr;
enum { C_OP, C_WRITE, C_READ, C_REDUCE, COSTS };
const char* cost_name(int k) { static const char* n[] = {"operation", "output", "input", "reduction"}; return n[k]; }
// bounds: bytes, blocks, seconds for size n (characters written, characters read, terms)
struct Bound { double bytes, per, blocks, bper, s, sper, sq; };
Bound const bounds[COSTS] = {
    {256e3, 0, 2000, 0, 0.25, 0, 0},            // observed: 18 kB, 143, 0.002 s
    {256e3, 64, 2000, 0.5, 0.25, 2e-5, 0},      // 47 kB, 5 per character, 83, 0.002 s
    {32e6, 1500, 200e3, 60, 0.25, 1e-4, 3e-7},  // 2.6 MB (exponent 10^6), 38e3 (first compilation of the grammar), 0.013 s; 3e-8 s per square of a run of blanks (std::regex)
    {256e3, 2e3, 2000, 50, 0.25, 2e-5, 0}};     // 200 per term, 12 per term, 2e-6 s per term
std::string digits(Rng& r, int n, bool hex) { std::string s; for (int i = 0; i < n; ++i) s += hex ? "0123456789abcdef"[r.below(16)] : (char)('0' + r.below(10)); return s; }
int length(Rng& r) { return r.chance(60) ? r.range(1, 20) : r.chance(80) ? r.range(20, 400) : r.range(400, 3000); }
std::string hard_exponent(Rng& r) {
    std::string s = r.chance(50) ? "-" : r.chance(20) ? "+" : ""; if (r.chance(10)) s += std::string(r.range(1, 400), '0');
    switch (r.range(0, 6)) { case 0: return s + std::to_string(r.range(999000, 1000100)); case 1: return s + "1000000"; case 2: return s + std::to_string(r.range(0, 2147483647)); case 3: return s + std::to_string(2147483647u + (unsigned)r.range(0, 3)); case 4: return s + digits(r, r.range(10, 40), false); case 5: return s + std::to_string(r.range(4000, 20000)); default: return s + std::to_string(r.range(100000, 1000000)); }
}
std::string hard_number(Rng& r) {
    std::string s = r.chance(40) ? "-" : "";
    switch (r.range(0, 4)) {
    case 0: return s + digits(r, length(r), false) + (r.chance(50) ? "." + digits(r, length(r), false) : "") + "e" + hard_exponent(r);
    case 1: return s + "0x" + digits(r, length(r), true) + (r.chance(50) ? "." + digits(r, length(r), true) : "") + "p" + hard_exponent(r);
    case 2: return s + digits(r, length(r), false) + "/1" + digits(r, length(r), false);
    case 3: return s + digits(r, length(r), false) + "." + digits(r, length(r), false);
    default: return s + std::string(length(r), '0') + "." + std::string(length(r), '0') + "1e" + hard_exponent(r); }
}
std::string hard_text(Rng& r) {
    auto ws = [&] { return r.chance(85) ? std::string() : std::string(length(r), " \t"[r.below(2)]); };
    switch (r.range(0, 9)) {
    case 0: return "[" + ws() + hard_number(r) + ws() + "]";
    case 1: case 2: case 3: case 4: return "[" + ws() + hard_number(r) + ws() + "," + ws() + hard_number(r) + ws() + "]" + (r.chance(30) ? "_def" : "");
    case 5: case 6: return (r.chance(40) ? "-" : "") + digits(r, length(r), false) + "." + digits(r, length(r), false) + "?" + digits(r, length(r), false) + (r.chance(30) ? "u" : "") + "e" + hard_exponent(r);
    case 7: return digits(r, length(r), false) + "??" + (r.chance(50) ? "d" : "") + "e" + hard_exponent(r);
    case 8: return garbage(r) + hard_number(r);
    default: { std::string s = "[" + hard_number(r) + "," + hard_number(r) + "]"; s.insert(r.below(s.size()), 1, "[],;?_eEpP+-./x "[r.below(16)]); return s; } }
}
struct Cost { double bytes, blocks, s; };
template<class FN> Cost cost(FN fn) { long b0 = verif_bytes, a0 = verif_allocs; verif_peak = b0; double t0 = cpu(); fn(); Cost c; c.s = cpu() - t0; c.bytes = verif_peak - b0; c.blocks = verif_allocs - a0; return c; }
// returns the kind of cost and the size of the action
int action(Rng& r, int how, std::string& what, double& size, Cost& c) {
    Out o; int t = r.range(0, 2), level = r.range(0, 1); bool dec = r.chance(50); size = 0;
    switch (how) {
    case 0: case 1: {       // anything
        Step s; s.kind = 0; uint64_t seed = r.next(); c = cost([&] { one(seed, how, s); }); what = s.what; size = (double)(s.what.size() + s.seen.size());
        switch (s.kind) { case S_WRITE: case 10: case 11: return C_WRITE; case S_READ: case S_TEXT: case 12: case 13: case 14: case 16: return C_READ; case S_REDUCE: case 15: size = 3000; return C_REDUCE; default: return C_OP; } }
    case 2: {               // reading extreme numbers
        std::string x = hard_text(r); what = "read \"" + x + "\""; size = (double)x.size();
        if (r.chance(50)) c = cost([&] { libtext::construct(t, level, dec, x, o); }); else { std::istringstream is(x); Arg a(-1, 2, 8); c = cost([&] { libtext::read(is, t, level, dec, a, o); }); }
        return C_READ; }
    case 3: {               // writing with extreme formats
        std::ostringstream os; int n = r.range(1, 6); for (int i = 0; i < n; ++i) { Manip m; m.kind = r.range(0, M_COUNT - 1); m.arg = has_arg(m.kind) ? (r.chance(50) ? r.range(0, 60) : r.chance(80) ? r.range(0, 3000) : r.range(0, 50000)) : 0; manip(os, m); }
        Arg a = r.chance(60) ? interval(r, t) : Arg(r.chance(50) ? -max_of(t) : max_of(t), max_of(t)); a.dec = rnd_dec(r, a); c = cost([&] { libtext::write(os, t, level, dec, a, o); }); size = (double)os.str().size(); what = "write " + show(t, a, dec) + " in " + std::to_string((long)size) + " characters"; return C_WRITE; }
    case 4: {               // long sequences of extreme terms
        int n = r.chance(80) ? r.range(0, 300) : r.range(300, 4000), kind = r.range(0, 3), cont = r.range(0, 5), rnd = r.range(0, 3), style = r.range(0, 2); std::vector<ld> a, b; ld big = max_of(t), tiny = min_sub_of(t);
        for (int i = 0; i < n; ++i) { a.push_back(style == 0 ? mon::value(r, t) : (r.chance(50) ? big : tiny) * (r.chance(50) ? -1 : 1)); b.push_back(style == 2 ? a.back() : mon::value(r, t)); }
        bool mod; int exc; size = n; c = cost([&] { reduce(t, kind, cont, rnd, a, b, mod, exc); }); what = std::string(type_name(t)) + " " + rkind_name(kind) + " of " + std::to_string(n); return C_REDUCE; }
    default: {              // operations with extreme operands and exponents
        Ctx x; x.rng = Rng(r.next()); Case q; bool bad = false; int f = interval_case(x, q, bad);
        for (int j = 0; j < op_arity(q.op); ++j) if (r.chance(70)) { ld big = max_of(q.t[j]), tiny = min_sub_of(q.t[j]); static const ld z = 1; ld v[] = {big, -big, tiny, -tiny, z, -z, 0, std::ldexp((ld)1, 1 - fmt(q.t[j]).p) + 1, 1 - std::ldexp((ld)1, 1 - fmt(q.t[j]).p) / 2, big / 2, 2, 0.5L}; ld l = v[r.below(12)], u = r.chance(40) ? l : v[r.below(12)]; if (l > u) std::swap(l, u); if (r.chance(10)) u = INFINITY; if (r.chance(10)) l = -INFINITY; int d = q.x[j].dec; q.x[j] = Arg(l, u, d == 16 && (std::isinf(l) || std::isinf(u)) ? 12 : d); }
        if (has_int(q.op) || r.chance(50)) { static const int p[] = {INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 1000000007, -1000000007, 65537, -65536}; if (r.chance(60)) q.p = p[r.below(8)]; }
        what = describe(q) + " via " + form_name(f); c = cost([&] { call(q.op, f, q.R, q.t, q.x, q.p, o, false, q.m, q.mt); }); return C_OP; }
    }
}
}
bool gen_P27(Ctx& c, Case& k) { Rng& r = c.rng; k.aux[7] = 109; k.seed = r.next(); k.aux[0] = r.range(0, 6); if (k.aux[0] > 5) k.aux[0] = 5; return true; }
void judge_P27(Ctx& c, Case const& k) {
    static bool once = (shared_setup(), true); (void)once;
    if (const char* l = getenv("VERIF_COST")) if (!g_cost) g_cost = fopen((std::string(l) + "." + std::to_string(c.shard)).c_str(), "w");
    Cost best = {1e300, 1e300, 1e300}; std::string what; double size = 0; int kind = 0; Bound const* b = nullptr;
    // what exceeds its bound once because of the machine does not do so every time
    for (int q = 0; q < 5; ++q) {
        mark(c, k, 0); set_trap(0); clear_flags(); Rng r(k.seed); Cost x; kind = action(r, k.aux[0], what, size, x); ++c.calls; if (what.size() > size && kind == C_WRITE && size < 60) size = 60;
        best.bytes = std::min(best.bytes, x.bytes); best.blocks = std::min(best.blocks, x.blocks); best.s = std::min(best.s, x.s); b = bounds + kind;
        if (best.bytes <= b->bytes + b->per * size && best.blocks <= b->blocks + b->bper * size && best.s <= b->s + b->sper * size + b->sq * size * size) break;
    }
    if (g_cost) { std::string w = what.substr(0, 160); for (char& ch : w) if ((unsigned char)ch < 32 || (unsigned char)ch > 126) ch = 63; fprintf(g_cost, "%d %d %s\t%.0f\t%.0f\t%.0f\t%.6f\t%s\n", kind, k.aux[0], cost_name(kind), size, best.bytes, best.blocks, best.s, w.c_str()); }
    c.checks += 3; c.tick(std::string(cost_name(kind)) + "s measured"); c.note = what.substr(0, 200) + ": " + std::to_string((long)best.bytes) + " bytes, " + std::to_string((long)best.blocks) + " blocks, " + std::to_string(best.s) + " s";
    double limit = b->s + b->sper * size + b->sq * size * size;
    std::string d = what.substr(0, 300) + (what.size() > 300 ? "..." : "") + " (size " + std::to_string((long)size) + "): ";
    if (best.bytes > b->bytes + b->per * size) c.violation("an action needs too much memory", d + std::to_string((long)best.bytes) + " bytes");
    if (best.blocks > b->blocks + b->bper * size) c.violation("an action allocates too many blocks", d + std::to_string((long)best.blocks) + " blocks");
    if (best.s > limit) c.violation("an action takes too long", d + std::to_string(best.s) + " s of processor time");
    c.nontrivial(hash(k));
}
Monitor const monitors[] = {
    {"P27", gen_P27, judge_P27, "cost (heap, blocks, processor time) of single actions with extreme operands, exponents, texts, formats and sequences; non-trivial: distinct action", nullptr},
    {"P21", gen_P21, judge_P21, "hostile histories over every part of the library (extreme formats, garbage, failing streams, long sequences, traps, failing allocations) under the instrumentation; non-trivial: distinct (history, everything it saw)", fini_P21},
    {nullptr, nullptr, nullptr, nullptr, nullptr}};
}
