// P16: threads.  Every thread performs its own history; an offline checker compares what it saw with
// what the same history sees when it runs alone.
#include "steps.hpp"
#include <thread>
#include <algorithm>
#include <atomic>
#include <sched.h>
#include <signal.h>
#include <unistd.h>
#include <sys/wait.h>
using namespace ref; using namespace lib;
namespace mon {
namespace {
struct Event { Step s; uint32_t t0, t1; };
struct Log { std::vector<Event> ev; int flags0, traps0; };
// deliberately relaxed: the clock must not order the threads
std::atomic<uint32_t> g_clock; std::atomic<int> g_ready;
void history(uint64_t seed, int n, int threads, Log* l) {
    l->flags0 = get_flags(); l->traps0 = get_trap();
    Rng r(seed); Rng inj(seed ^ 0x5bd1e995u);
    if (threads) { g_ready.fetch_add(1, std::memory_order_relaxed); while (g_ready.load(std::memory_order_relaxed) < threads) sched_yield(); }
    for (int i = 0; i < n; ++i) {
        Event e; e.t0 = g_clock.fetch_add(1, std::memory_order_relaxed);
        step(r, e.s, true);
        e.t1 = g_clock.fetch_add(1, std::memory_order_relaxed);
        l->ev.push_back(e);
        if (threads && inj.chance(25)) { if (inj.chance(50)) sched_yield(); else for (volatile int k = inj.range(0, 3000); k > 0; k = k - 1) { } }
    }
    set_trap(0); mpfr_free_cache();
}
}
bool gen_P16(Ctx& c, Case& k) { Rng& r = c.rng; k.aux[7] = 104; k.seed = r.next(); k.p = r.range(5, 40); k.aux[0] = r.range(2, 6); k.aux[1] = r.range(0, 15); k.aux[2] = r.range(0, 15); k.aux[3] = r.chance(25); return true; }
void judge_P16(Ctx& c, Case const& k) {
    int n = k.aux[0]; mark(c, k, 0);
    static bool once = (shared_setup(), true); (void)once;
    std::vector<Log> par(n), alone(n); std::vector<uint64_t> seed(n);
    Rng r(k.seed); for (int i = 0; i < n; ++i) seed[i] = k.aux[3] && i ? seed[0] : r.next();      // sometimes all threads perform the same actions
    // the creating thread has flags and traps of its own
    set_trap(k.aux[2]); set_flags(k.aux[1]);
    g_ready = 0; g_clock = 0;
    { std::vector<std::thread> th; for (int i = 0; i < n; ++i) th.emplace_back(history, seed[i], k.p, n, &par[i]); for (auto& t : th) t.join(); }
    int fl = get_flags(), tr = get_trap(); set_trap(0); clear_flags();
    if (fl != k.aux[1] || tr != k.aux[2]) c.violation("flags or traps of another thread changed", "creating thread: flags " + std::to_string(k.aux[1]) + " -> " + std::to_string(fl) + ", traps " + std::to_string(k.aux[2]) + " -> " + std::to_string(tr));
    for (int i = 0; i < n; ++i) { std::thread t(history, seed[i], k.p, 0, &alone[i]); t.join(); }
    // offline checker
    uint64_t il = 1469598103934665603ull, overlaps = 0; std::vector<std::pair<uint32_t, int>> order; std::string note;
    for (int i = 0; i < n; ++i) {
        if (par[i].flags0 || par[i].traps0) c.violation("new thread starts with flags or traps of another one", "flags " + std::to_string(par[i].flags0) + " traps " + std::to_string(par[i].traps0));
        for (size_t j = 0; j < par[i].ev.size(); ++j) {
            Event const& e = par[i].ev[j]; Event const& a = alone[i].ev[j]; ++c.checks; ++c.calls; c.tick(step_name(e.s.kind)); order.push_back({e.t0, i}); if (e.t1 != e.t0 + 1) ++overlaps;
            if (e.s.what != a.s.what || e.s.seen != a.s.seen) { c.violation("outcome depends on other threads", e.s.what + ": " + e.s.seen.substr(0, 300) + " with other threads, but " + a.s.seen.substr(0, 300) + " alone"); break; }
            if (note.size() < 400) note += "t" + std::to_string(i) + ": " + e.s.what + " -> " + e.s.seen.substr(0, 80) + "; ";
        }
    }
    std::sort(order.begin(), order.end()); for (auto& o : order) il = (il ^ (uint64_t)o.second) * 1099511628211ull;
    c.tick("steps that overlap with steps of other threads", overlaps); c.tick("threads", n); c.note = note; c.nontrivial(il);
}
// Cold start: in a process that has not used the library yet, several threads perform the same few actions
// (each in an order of its own), so that they meet at everything that happens at a first use only.
namespace {
struct ColdLog { std::vector<std::string> seen; };
struct Report { int violations; unsigned long long steps, overlaps, order; int kind[S_KINDS]; };
void cold(std::vector<uint64_t> const& focus, std::vector<int> order, int threads, ColdLog* l, std::vector<std::pair<uint32_t, uint32_t> >* when) {
    g_ready.fetch_add(1, std::memory_order_relaxed); while (g_ready.load(std::memory_order_relaxed) < threads) sched_yield();
    l->seen.resize(focus.size());
    for (int i : order) { Step s; Rng r(focus[i]); clear_flags(); uint32_t a = g_clock.fetch_add(1, std::memory_order_relaxed); step(r, s, false); when->push_back({a, g_clock.fetch_add(1, std::memory_order_relaxed)}); l->seen[i] = s.what + " -> " + s.seen; }
    mpfr_free_cache();
}
void cold_child(Ctx& c, Case const& k, Report& rep) {
    int n = k.aux[0]; Rng r(k.seed); std::vector<uint64_t> focus; while ((int)focus.size() < k.p) { uint64_t s = r.next(); if (k.aux[1] || Rng(s).range(0, 99) < 90) focus.push_back(s); }     // shared constants only if they have been created
    if (k.aux[1]) shared_setup();
    std::vector<ColdLog> log(n); std::vector<std::vector<std::pair<uint32_t, uint32_t> > > when(n); g_ready = 0; g_clock = 0;
    { std::vector<std::thread> th; for (int i = 0; i < n; ++i) { std::vector<int> o; for (int j = 0; j < k.p; ++j) o.push_back(j); if (!k.aux[2]) for (int j = k.p - 1; j > 0; --j) std::swap(o[j], o[r.range(0, j)]); th.emplace_back(cold, std::cref(focus), o, n, &log[i], &when[i]); } for (auto& t : th) t.join(); }
    // alone, in a thread that comes afterwards
    ColdLog alone; std::vector<std::pair<uint32_t, uint32_t> > w; g_ready = 0; { std::vector<int> o; for (int j = 0; j < k.p; ++j) o.push_back(j); std::thread t(cold, std::cref(focus), o, 1, &alone, &w); t.join(); }
    rep = Report(); std::vector<std::pair<uint32_t, int> > ord;
    for (int i = 0; i < n; ++i) for (auto& x : when[i]) { ++rep.steps; if (x.second != x.first + 1) ++rep.overlaps; ord.push_back({x.first, i}); }
    std::sort(ord.begin(), ord.end()); rep.order = k.seed; for (auto& o : ord) rep.order = (rep.order ^ (unsigned long long)o.second) * 1099511628211ull;
    for (int j = 0; j < k.p; ++j) for (int i = 0; i < n; ++i) if (log[i].seen[j] != alone.seen[j]) { c.violation("outcome of a first use depends on other threads", "with other threads: " + log[i].seen[j].substr(0, 400) + "; alone: " + alone.seen[j].substr(0, 400)); break; }
    rep.violations = (int)c.violations;
}
}
bool gen_P16c(Ctx& c, Case& k) { Rng& r = c.rng; k.aux[7] = 104; k.seed = r.next(); k.p = r.range(1, 6); k.aux[0] = r.range(2, 5); k.aux[1] = r.chance(20); k.aux[2] = r.chance(50); return true; }
void judge_P16c(Ctx& c, Case const& k) {
    mark(c, k, 0); int fd[2]; if (pipe(fd)) { fprintf(stderr, "HARNESS-ERROR pipe\n"); _exit(2); }
    fflush(nullptr); pid_t p = fork(); if (p < 0) { fprintf(stderr, "HARNESS-ERROR fork\n"); _exit(2); }
    if (p == 0) { close(fd[0]); alarm(50); c.violations = 0; Report rep; cold_child(c, k, rep); _exit(write(fd[1], &rep, sizeof rep) == (ssize_t)sizeof rep ? 0 : 2); }
    close(fd[1]); Report rep = Report(); ssize_t g = read(fd[0], &rep, sizeof rep); close(fd[0]);
    int st = 0; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); kill(getpid(), WTERMSIG(st) == SIGALRM ? SIGABRT : WTERMSIG(st)); _exit(3); }      // reported by the supervisor together with what was printed
    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
    if (g != (ssize_t)sizeof rep) { fprintf(stderr, "HARNESS-ERROR no report\n"); _exit(2); }
    c.violations += rep.violations; c.calls += rep.steps; c.checks += rep.steps; c.tick("cold starts"); c.tick("steps of cold starts", rep.steps); c.tick("cold steps that overlap with others", rep.overlaps); c.nontrivial(rep.order);
}
Monitor const monitors[] = {
    {"P16c", gen_P16c, judge_P16c, "cold starts: 2 to 5 threads meet in the same few actions in a process that has not used the library before; non-trivial: distinct (actions, interleaving)", nullptr},
    {"P16", gen_P16, judge_P16, "2 to 6 threads, each with a random history over every part of the library, its own flags and traps and some shared constants, replayed alone in a new thread; non-trivial: distinct interleaving (order in which the steps began)", nullptr},
    {nullptr, nullptr, nullptr, nullptr, nullptr}};
}
