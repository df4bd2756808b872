#include "mon.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <fstream>
#include <sstream>
#include <cstdlib>
#include <algorithm>

namespace mon {
struct Shared { volatile uint64_t counter; volatile int active; int form; Case cur; };
static Shared* g_sh = nullptr;
static Shared g_dummy;

std::string dump(Case const& k) {
    std::ostringstream s; char b[100];
    s << lib::op_name(k.op) << ' ' << k.op << ' ' << k.R << ' ' << k.t[0] << ' ' << k.t[1] << ' ' << k.t[2];
    for (int i = 0; i < 3; ++i) { snprintf(b, sizeof b, " %La %La %d", k.x[i].lo, k.x[i].hi, k.x[i].dec); s << b; }
    snprintf(b, sizeof b, " %d %La %d %llu", k.p, k.m, k.mt, (unsigned long long)k.seed); s << b;
    for (int i = 0; i < 8; ++i) s << ' ' << k.aux[i];
    s << " :";
    for (const char* c = k.txt; *c; ++c) { snprintf(b, sizeof b, "%02x", (unsigned char)*c); s << b; }
    return s.str();
}
static ld parse_ld(std::string const& s) { return strtold(s.c_str(), nullptr); }
bool parse(std::string const& line, Case& k) {
    std::istringstream s(line); std::string n, a, b; unsigned long long sd;
    if (!(s >> n >> k.op >> k.R >> k.t[0] >> k.t[1] >> k.t[2])) return false;
    if (n != "-") { int o = lib::op_by_name(n); if (o >= 0) k.op = o; }
    for (int i = 0; i < 3; ++i) { if (!(s >> a >> b >> k.x[i].dec)) return false; k.x[i].lo = parse_ld(a); k.x[i].hi = parse_ld(b); }
    if (!(s >> k.p >> a >> k.mt >> sd)) return false;
    k.m = parse_ld(a); k.seed = sd;
    for (int i = 0; i < 8; ++i) if (!(s >> k.aux[i])) return false;
    if (s >> a && a.size() >= 1 && a[0] == ':') {
        size_t n2 = 0; for (size_t i = 1; i + 1 < a.size() && n2 + 1 < sizeof k.txt; i += 2) k.txt[n2++] = (char)strtol(a.substr(i, 2).c_str(), nullptr, 16);
        k.txt[n2] = 0;
    }
    return true;
}
std::string show(int t, Arg const& a, bool dec) {
    char b[200]; static const char* dn[] = {"ill", "trv", "def", "dac", "com"};
    std::string s;
    if (lib::is_empty(a)) s = (dec && a.dec == 0) ? "[nai]" : "[empty]";
    else { int w = t == ref::TF ? 9 : t == ref::TD ? 17 : 21; snprintf(b, sizeof b, "[%.*Lg,%.*Lg]{%La,%La}", w, a.lo, w, a.hi, a.lo, a.hi); s = b; }
    if (dec && a.dec >= 0 && a.dec % 4 == 0 && a.dec <= 16) s += std::string("_") + dn[a.dec / 4];
    return s;
}
std::string describe(Case const& k) {
    // text cases have no operation
    if (k.aux[7] >= 101 && k.aux[7] <= 108) { static const char* n[] = {"write", "parse", "session", "threads", "history", "units", "history", "program"}; return std::string(n[k.aux[7] - 101]) + " " + ref::type_name(k.R) + " " + (k.aux[7] == 101 ? show(k.R, k.x[0], true) : std::string("\"") + k.txt + "\"") + " seed=" + std::to_string(k.seed); }
    std::ostringstream s; s << ref::type_name(k.R) << "::" << lib::op_name(k.op) << "(";
    for (int i = 0; i < lib::op_arity(k.op); ++i) { if (i) s << ", "; if (k.t[i] != k.R) s << ref::type_name(k.t[i]) << ":"; s << show(k.t[i], k.x[i], true); }
    if (k.op < ref::OP_COUNT && ref::has_int(k.op)) s << ", p=" << k.p;
    s << ")"; return s.str();
}
static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 29); }
static uint64_t mixld(uint64_t h, ld v) { unsigned char b[16] = {0}; if (std::isnan(v)) return mix(h, 77); std::memcpy(b, &v, 10); uint64_t a, c; std::memcpy(&a, b, 8); std::memcpy(&c, b + 8, 8); return mix(mix(h, a), c); }
uint64_t hash(Case const& k) {
    uint64_t h = mix(mix(k.op, k.R), k.p); h = mix(h, k.seed); h = mixld(h, k.m); h = mix(h, k.mt);
    for (int i = 0; i < 3; ++i) { h = mix(h, k.t[i]); h = mixld(h, k.x[i].lo); h = mixld(h, k.x[i].hi); h = mix(h, k.x[i].dec); }
    for (int i = 0; i < 8; ++i) h = mix(h, k.aux[i]);
    for (const char* c = k.txt; *c; ++c) h = mix(h, (unsigned char)*c);
    return h;
}
void Ctx::violation(std::string const& what, std::string const& detail) {
    ++violations;
    if (!vf) return;
    if (violations > 60) return;
    std::string d = detail; for (char& c : d) if (c == '\n' || c == '\t') c = ' ';
    fprintf(vf, "%s\t%s\t%s\n", what.c_str(), dump(*cur).c_str(), d.c_str()); fflush(vf);
}
void mark(Ctx& c, Case const& k, int form) { (void)c; Shared* s = g_sh ? g_sh : &g_dummy; s->form = form; s->cur = k; s->active = 1; s->counter = s->counter + 1; }
bool observe(Ctx& c, Case const& k, int form, Out& o, bool keep) {
    mark(c, k, form);
    bool ok = lib::call(k.op, form, k.R, k.t, k.x, k.p, o, keep, k.m, k.mt);
    (g_sh ? g_sh : &g_dummy)->active = 0;
    if (ok) ++c.calls;
    c.form = form;
    return ok;
}
static std::string jesc(std::string const& s) { std::string r; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r; }

int run_main(int argc, char** argv) {
    std::string prop, out, replay; uint64_t seed = 1; uint64_t n = 1000; int jobs = 8; bool thorough = false; int hang = 60; double maxs = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--prop") prop = val(); else if (a == "--out") out = val(); else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--n") n = strtoull(val().c_str(), nullptr, 10); else if (a == "--jobs") jobs = atoi(val().c_str());
        else if (a == "--thorough") thorough = true; else if (a == "--replay") replay = val(); else if (a == "--hang") hang = atoi(val().c_str());
        else if (a == "--max-seconds") maxs = atof(val().c_str());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    Monitor const* m = monitors; while (m->prop && prop != m->prop) ++m;
    if (!m->prop) { fprintf(stderr, "no monitor for %s\n", prop.c_str()); return 2; }
    if (!replay.empty()) {
        std::ifstream f(replay); std::string line; int bad = 0;
        while (std::getline(f, line)) {
            if (line.empty() || line[0] == '#') continue;
            Case k; if (!parse(line, k)) { fprintf(stderr, "cannot parse: %s\n", line.c_str()); return 2; }
            Ctx c; c.prop = prop; c.rng = Rng(k.seed + 1); c.vf = stdout; c.cur = &k; c.replaying = true; c.thorough = thorough;
            m->judge(c, k); if (m->fini) m->fini(c); bad += c.violations;
            if (!c.violations) printf("ok: %s\n", line.c_str());
        }
        return bad ? 1 : 0;
    }
    std::vector<pid_t> pid(jobs); std::vector<Shared*> sh(jobs); std::string tmp = out + ".d"; 
    if (system(("mkdir -p '" + tmp + "'").c_str())) return 2;
    fflush(stdout);
    for (int j = 0; j < jobs; ++j) {
        sh[j] = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (sh[j] == MAP_FAILED) return 2;
        pid[j] = fork();
        if (pid[j] < 0) return 2;
        if (pid[j] == 0) {
            g_sh = sh[j];
#if !defined __SANITIZE_ADDRESS__ && !defined __SANITIZE_THREAD__
            struct rlimit rl = {3ul << 30, 3ul << 30}; setrlimit(RLIMIT_DATA, &rl);       // runaway memory ends as an allocation failure of the case that wants it
#endif
            std::string b = tmp + "/" + std::to_string(j);
            int fd = open((b + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 2); dup2(fd, 1); close(fd);
            Ctx c; c.prop = prop; c.thorough = thorough; c.shard = j; c.vf = fopen((b + ".v").c_str(), "w");
            c.rng = Rng(seed * 1000003ull + (uint64_t)j * 7919ull + 17);
            struct timeval t0; gettimeofday(&t0, nullptr);
            uint64_t done = 0; double slow = 0; auto used = [] { struct rusage a, b; getrusage(RUSAGE_SELF, &a); getrusage(RUSAGE_CHILDREN, &b); auto f = [](struct timeval const& t) { return t.tv_sec + 1e-6 * t.tv_usec; }; return f(a.ru_utime) + f(a.ru_stime) + f(b.ru_utime) + f(b.ru_stime); }; double u0 = used();
            for (uint64_t i = 0; i < n; ++i) {
                Case k; g_sh->counter = g_sh->counter + 1;
                c.cur = &k;
                if (!m->gen(c, k)) break;
                m->judge(c, k); ++done;
                if ((i & 15) == 15) { double u1 = used(); slow = std::max(slow, u1 - u0); u0 = u1; }
                if (c.samples.size() < 2 && (i + 1) * 2 > n * c.samples.size() && j == 0) c.samples.push_back(c.note.empty() ? describe(k) + (k.txt[0] ? std::string(" text=") + k.txt : "") : c.note);
                if (c.violations > 60) break;
                if (maxs > 0) { struct timeval t1; gettimeofday(&t1, nullptr); if ((t1.tv_sec - t0.tv_sec) + 1e-6 * (t1.tv_usec - t0.tv_usec) > maxs) break; }
            }
            Case last; c.cur = &last; if (m->fini) m->fini(c);
            fclose(c.vf);
            std::ofstream s(b + ".s");
            s << "slow " << slow << "\n"; s << "cases " << done << "\ncalls " << c.calls << "\nchecks " << c.checks << "\nviolations " << c.violations << "\n";
            for (auto& kv : c.count) s << "c " << kv.second << ' ' << kv.first << "\n";
            for (auto& x : c.samples) s << "s " << jesc(x) << "\n";
            s.close();
            FILE* hf = fopen((b + ".h").c_str(), "wb"); for (uint64_t h : c.seen) fwrite(&h, 8, 1, hf); fclose(hf);
            mpfr_free_cache();
            std::fflush(nullptr);
            exit(0);                        // runs the leak checker of sanitizer builds
        }
    }
    // supervise.  A case that makes no progress for `hang` seconds is "stuck" if its process used the processor
    // for most of them (that cannot be blamed on the load of the machine), else "hang" (to be confirmed).
    auto cpu = [&](pid_t p) -> double { clockid_t c; struct timespec t; return clock_getcpuclockid(p, &c) || clock_gettime(c, &t) ? 0 : t.tv_sec + 1e-9 * t.tv_nsec; };
    std::vector<double> cpu0(jobs, 0); std::vector<bool> stuck(jobs, false);
    std::vector<int> status(jobs, -1); std::vector<uint64_t> last(jobs, 0); std::vector<int> idle(jobs, 0); std::vector<bool> hung(jobs, false);
    int live = jobs, tick = 0;
    while (live > 0) {
        usleep(50000); ++tick;
        for (int j = 0; j < jobs; ++j) if (status[j] == -1) {
            int st; pid_t r = waitpid(pid[j], &st, WNOHANG);
            if (r == pid[j]) { status[j] = st; --live; continue; }
            if (tick % 20 == 0) {
                if (sh[j]->counter == last[j]) ++idle[j]; else { idle[j] = 0; cpu0[j] = cpu(pid[j]); }
                last[j] = sh[j]->counter;
                if (cpu(pid[j]) - cpu0[j] > 0.75 * hang) { hung[j] = stuck[j] = true; kill(pid[j], SIGKILL); }
                else if (idle[j] >= 2 * hang) { hung[j] = true; kill(pid[j], SIGKILL); }
            }
        }
    }
    uint64_t cases = 0, calls = 0, checks = 0, viol = 0; std::map<std::string, uint64_t> cnt; std::vector<std::string> smp; std::unordered_set<uint64_t> all;
    double slow = 0; std::string vio, crash; bool internal = false;
    for (int j = 0; j < jobs; ++j) {
        std::string b = tmp + "/" + std::to_string(j), line;
        { std::ifstream v(b + ".v"); while (std::getline(v, line)) {
            size_t a = line.find('\t'), e = line.find('\t', a + 1); if (a == std::string::npos || e == std::string::npos) continue;
            vio += std::string(vio.empty() ? "" : ",\n") + "{\"what\":\"" + jesc(line.substr(0, a)) + "\",\"case\":\"" + jesc(line.substr(a + 1, e - a - 1)) + "\",\"detail\":\"" + jesc(line.substr(e + 1)) + "\"}"; } }
        if (!(WIFEXITED(status[j]) && WEXITSTATUS(status[j]) == 0)) {
            std::ifstream ef(b + ".err"); std::stringstream es; es << ef.rdbuf(); std::string e = es.str(); if (e.size() > 6000) e = e.substr(0, 6000);
            std::string how = stuck[j] ? "stuck" : hung[j] ? "hang" : WIFSIGNALED(status[j]) ? "signal " + std::to_string(WTERMSIG(status[j])) : "exit " + std::to_string(WEXITSTATUS(status[j]));
            // a harness error exits with 2 and says so
            if (e.find("HARNESS-ERROR") != std::string::npos) { internal = true; fprintf(stderr, "%s\n", e.c_str()); }
            crash += std::string(crash.empty() ? "" : ",\n") + "{\"how\":\"" + how + "\",\"shard\":" + std::to_string(j) + ",\"active\":" + std::to_string((int)sh[j]->active) + ",\"form\":" + std::to_string(sh[j]->form) + ",\"case\":\"" + jesc(dump(sh[j]->cur)) + "\",\"desc\":\"" + jesc(describe(sh[j]->cur)) + "\",\"stderr\":\"" + jesc(e) + "\"}";
        }
        std::ifstream s(b + ".s");
        while (std::getline(s, line)) {
            std::istringstream ls(line); std::string k; ls >> k; uint64_t v;
            if (k == "slow") { double d = 0; ls >> d; slow = std::max(slow, d); } else if (k == "cases") { ls >> v; cases += v; } else if (k == "calls") { ls >> v; calls += v; } else if (k == "checks") { ls >> v; checks += v; }
            else if (k == "violations") { ls >> v; viol += v; } else if (k == "c") { ls >> v; std::string r; std::getline(ls, r); cnt[r.substr(1)] += v; }
            else if (k == "s") smp.push_back(line.substr(2));
        }
        FILE* hf = fopen((b + ".h").c_str(), "rb"); if (hf) { uint64_t h; while (fread(&h, 8, 1, hf) == 1) all.insert(h); fclose(hf); }
    }
    std::ofstream o(out);
    o << "{\"cases\":" << cases << ",\"calls\":" << calls << ",\"checks\":" << checks << ",\"violation_count\":" << viol << ",\"slowest\":" << slow << ",\"distinct\":" << all.size() << ",\"rule\":\"" << jesc(m->rule) << "\",\n\"counts\":{";
    bool first = true; for (auto& kv : cnt) { o << (first ? "" : ",") << "\"" << jesc(kv.first) << "\":" << kv.second; first = false; }
    o << "},\n\"samples\":["; first = true; for (auto& x : smp) { o << (first ? "" : ",") << "\"" << x << "\""; first = false; }
    o << "],\n\"violations\":[" << vio << "],\n\"crashes\":[" << crash << "]}\n";
    o.close();
    if (system(("rm -r '" + tmp + "'").c_str())) return 2;
    if (internal) return 2;
    return (!vio.empty() || !crash.empty()) ? 1 : 0;
}
}
int main(int argc, char** argv) { return mon::run_main(argc, argv); }
