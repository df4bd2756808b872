// Monitor core: case format, random generation, sharded execution, crash/hang observation, evidence counters.
#ifndef VERIF_MON_HPP
#define VERIF_MON_HPP
#include "lib.hpp"
#include <map>
#include <unordered_set>

namespace mon {
using lib::Arg; using lib::Out;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return next() % n; }
    bool chance(int pct) { return (int)below(100) < pct; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a) + 1); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template<class C> auto pick(C const& c) -> decltype(c[0]) { return c[below(c.size())]; }
};

struct Case {
    int op, R, t[3]; Arg x[3]; int p; ld m; int mt; uint64_t seed; int aux[8]; char txt[1200];
    Case() : op(0), R(1), p(0), m(0), mt(1), seed(0) { t[0] = t[1] = t[2] = 1; std::memset(aux, 0, sizeof aux); txt[0] = 0; }
};
std::string dump(Case const&);
bool parse(std::string const&, Case&);
std::string describe(Case const&);      // human readable
std::string show(int t, Arg const&, bool dec);
uint64_t hash(Case const&);

struct Ctx {
    std::string prop; Rng rng; bool thorough; int shard; uint64_t checks, calls, made;
    std::map<std::string, uint64_t> count;
    std::unordered_set<uint64_t> seen;
    std::vector<std::string> samples;
    std::string note; int violations; FILE* vf; Case const* cur; int form; bool replaying;
    Ctx() : rng(0), thorough(false), shard(0), checks(0), calls(0), made(0), violations(0), vf(nullptr), cur(nullptr), form(0), replaying(false) {}
    // `what`: short stable kind of failure (used to match known findings together with the case)
    void violation(std::string const& what, std::string const& detail);
    void nontrivial(uint64_t h) { if (seen.size() < 4000000) seen.insert(h); }
    void tick(const char* k, uint64_t n = 1) { count[k] += n; }
    void tick(std::string const& k, uint64_t n = 1) { count[k] += n; }
};
// observed call (updates the crash record first)
bool observe(Ctx& c, Case const& k, int form, Out& o, bool keep_flags = false);
void mark(Ctx& c, Case const& k, int form);

// a monitor: generate the next case / judge it
struct Monitor { const char* prop; bool (*gen)(Ctx&, Case&); void (*judge)(Ctx&, Case const&); const char* rule; void (*fini)(Ctx&); };
extern Monitor const monitors[];        // terminated by prop == nullptr
int run_main(int argc, char** argv);

// ---- value generation ---------------------------------------------------------
ld value(Rng&, int t, int hint = -1);
Arg interval(Rng&, int t, int op = -1, int argi = 0);
Arg near_interval(Rng&, int t, Arg const& a);   // correlated with a
int rnd_dec(Rng&, Arg const& a);                // a decoration that is valid for a
int exponent(Rng&);
bool same(Arg const& a, Arg const& b);          // same set (by value)
bool subset(Arg const& a, Arg const& b);
Arg hull_to(int t, ref::IV const& v);           // outward rounding to bound type t
inline ref::IV iv(Arg const& a) { return ref::IV(a.lo, a.hi); }
bool bounded(Arg const& a);
}
#endif
