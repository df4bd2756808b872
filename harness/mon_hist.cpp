// P22: an action on any part of the library sees the same in a process that has done nothing else and
// after any history, whatever the ambient MPFR settings are.
#include "steps.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include <cstdio>
using namespace ref; using namespace lib;
namespace mon {
namespace {
void pristine() { mpfr_set_emin(MPFR_EMIN_DEFAULT); mpfr_set_emax(MPFR_EMAX_DEFAULT); mpfr_set_default_rounding_mode(MPFR_RNDN); mpfr_set_default_prec(53); mpfr_clear_flags(); ambient = Ambient(); }
void one(uint64_t seed, Step& s) { Rng r(seed); step(r, s, false); }
// a zero bound has no sign: std::floor yields -0 for positive numbers while the processor rounds downward
std::string unsigned_zeros(std::string s) { for (size_t p; (p = s.find("-0x0p")) != std::string::npos;) s.erase(p, 1); return s; }
std::string show(Step const& s) { return s.what + " -> " + s.seen; }
// a process that never uses the library itself; its children perform one action each
struct Zygote {
    int in, out; pid_t pid;
    Zygote() : in(-1), out(-1), pid(-1) {}
    void start() {
        int a[2], b[2]; if (pipe(a) || pipe(b)) _exit(2);
        pid = fork(); if (pid < 0) _exit(2);
        if (pid == 0) {
            close(a[1]); close(b[0]); uint64_t seed;
            while (read(a[0], &seed, sizeof seed) == (ssize_t)sizeof seed) {
                pid_t c = fork();
                if (c == 0) { Step s; s.kind = 0; pristine(); shared_setup(); one(seed, s); std::string t = show(s); uint32_t n = (uint32_t)t.size(); std::string m((char*)&n, 4); m += t; size_t o = 0; while (o < m.size()) { ssize_t w = write(b[1], m.data() + o, m.size() - o); if (w <= 0) break; o += (size_t)w; } _exit(0); }
                int st; waitpid(c, &st, 0);
                if (!WIFEXITED(st) || WEXITSTATUS(st)) { uint32_t n = 0xffffffffu; if (write(b[1], &n, 4) != 4) break; }
            }
            _exit(0);
        }
        close(a[0]); close(b[1]); in = a[1]; out = b[0];
    }
    bool ask(uint64_t seed, std::string& s) {
        if (write(in, &seed, sizeof seed) != (ssize_t)sizeof seed) return false;
        auto get = [&](char* p, size_t n) { while (n) { ssize_t r = read(out, p, n); if (r <= 0) return false; p += r; n -= (size_t)r; } return true; };
        uint32_t n; if (!get((char*)&n, 4)) return false; if (n == 0xffffffffu) { s = "(the process was ended by a signal)"; return true; } s.resize(n); return n == 0 || get(&s[0], n);
    }
} g_z;
std::string surroundings(Rng& r) {
    pristine(); std::string s; int k = r.range(0, 9);
    if (k < 6) { int q = r.range(0, 5); long lo = 0, hi = 0; switch (q) { case 0: lo = -r.range(0, 30); hi = r.range(1, 30); break; case 1: lo = -148; hi = 128; break; case 2: lo = -1073; hi = 1024; break; case 3: lo = -16444; hi = 16384; break; case 4: lo = mpfr_get_emin_min(); hi = mpfr_get_emax_max(); break; default: lo = -1073; hi = r.range(-100, 100); } mpfr_set_emin(lo); mpfr_set_emax(hi); s += " exponents " + std::to_string(lo) + ".." + std::to_string(hi); }
    if (r.chance(40)) { static const mpfr_rnd_t m[] = {MPFR_RNDD, MPFR_RNDU, MPFR_RNDZ, MPFR_RNDA}; int i = r.range(0, 3); mpfr_set_default_rounding_mode(m[i]); s += " rounding " + std::to_string(i); }
    if (r.chance(40)) { static const int p[] = {2, 5, 24, 64, 113, 4000}; int i = r.range(0, 5); mpfr_set_default_prec(p[i]); s += " precision " + std::to_string(p[i]); }
    if (r.chance(40)) { mpfr_set_underflow(); mpfr_set_overflow(); mpfr_set_nanflag(); mpfr_set_inexflag(); mpfr_set_erangeflag(); mpfr_set_divby0(); s += " MPFR flags"; }
    if (r.chance(40)) { static const char* n[] = {"nearest", "up", "down", "zero"}; ambient.fpu = r.range(1, 3); s += std::string(" processor rounding ") + n[ambient.fpu]; }
    if (r.chance(40)) { ambient.point = r.chance(80) ? ',' : '\''; s += std::string(" decimal point ") + ambient.point; }
    if (r.chance(20)) { ambient.locale = true; s += " C++ locale"; }
    return s;
}
}
bool gen_P22h(Ctx& c, Case& k) { k.aux[7] = 105; k.seed = c.rng.next(); k.p = c.rng.range(1, 6); return true; }
void judge_P22h(Ctx& c, Case const& k) {
    static bool once = (g_z.start(), shared_setup(), true); (void)once;
    mark(c, k, 0); Rng r(k.seed); uint64_t target = r.next(); std::string ref;
    if (!g_z.ask(target, ref)) { fprintf(stderr, "HARNESS-ERROR no answer from the pristine process\n"); _exit(2); }
    std::string hist; clear_flags(); set_trap(0);
    for (int i = 0; i < k.p; ++i) { Step d; d.kind = 0; one(r.next(), d); hist += d.what.substr(0, 100) + "; "; ++c.calls; }
    clear_flags(); std::string amb = surroundings(r); Step s; s.kind = 0; one(target, s); ++c.calls; ++c.checks; bool broken = ambient.broken, fpu = ambient.fpu != 0; for (const char* w : {"exponents", "rounding ", "precision", "MPFR flags", "processor", "decimal point", "C++ locale"}) if (amb.find(std::string(" ") + w) != std::string::npos) c.tick(std::string("ambient: ") + w); pristine();
    c.tick(std::string("after histories: ") + step_name(s.kind)); c.note = s.what + " after " + hist.substr(0, 200) + amb;
    if (fpu ? unsigned_zeros(show(s)) != unsigned_zeros(ref) : show(s) != ref) c.violation("outcome depends on history", s.what.substr(0, 200) + ": alone " + ref.substr(0, 300) + "; but " + s.seen.substr(0, 300) + " with" + amb + " after " + hist);
    if (broken) c.violation("rounding mode of the processor changed", s.what.substr(0, 300) + " with" + amb);
    c.nontrivial(hash(k));
}
Monitor const monitors[] = {
    {"P22", gen_P22h, judge_P22h, "an action on any part of the library (operations, construction, text, reductions, shared constants) in a new process and again after a random history under random ambient settings (MPFR exponent range, rounding, precision and flags, rounding mode of the processor, decimal point of the C locale, global C++ locale); non-trivial: distinct (action, history)", nullptr},
    {nullptr, nullptr, nullptr, nullptr, nullptr}};
}
