// One of the translation units of a program that uses the library in every phase of its life: static
// initialisation, main, threads, destructors of thread-local objects, exit handlers, static destruction.
// Every unit performs random actions (seed in VERIF_LIFE) in every phase and writes what it saw.
// VERIF_LIFE=all: every action once, in main only.
#include <p1788/p1788.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cmath>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#define STR_(a) #a
#define STR(a) STR_(a)
namespace VU {
namespace pi = p1788::infsup; namespace io = p1788::io; namespace px = p1788::exception; typedef p1788::decoration::decoration Dec;
template<typename T> using Fl = p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor<T>;
template<typename T> using I = pi::interval<T, Fl>;
template<typename T> using D = pi::decorated_interval<T, Fl>;
enum { ACTIONS = 24 };
template<typename T> std::string text(T const& x) { std::ostringstream s; s << io::hex << x; return s.str(); }
std::string act(int k) {
    std::ostringstream s; int fl = px::state(), tr = px::get_throw_exception_cwd(); px::clear(); px::set_throw_exception_cwd(px::none_bit);
    try {
        switch (k) {
        case 0: s << text(pi::exp(I<double>(1.0, 2.0))); break;
        case 1: s << text(I<float>(0.1, 0.2) * I<float>(3.0, 4.0)); break;
        case 2: s << io::decimal_scientific << io::uncertain_form << io::dec_numeric << D<double>(1.25, 1.5); break;
        case 3: s << text(I<double>("[1,2.5]")); break;
        case 4: s << text(D<long double>("[-1/3,0x1.8p3]_def")); break;
        case 5: s << text(I<double>("1.25?3e2")); break;
        case 6: s << text(D<float>("7.5??u_trv")); break;
        case 7: { std::istringstream i("  [ 2 , 3 ]_com rest"); D<double> r; i >> r; s << io::upper_case << r << i.good(); break; }
        case 8: { std::istringstream i("3.14?1 x"); I<long double> r; i >> r; s << text(r) << i.good(); break; }
        case 9: s << text(pi::sqrt(D<double>(-1.0, 4.0))); break;
        case 10: s << io::special_bounds << I<double>::empty() << io::special_text << I<float>::entire(); break;
        case 11: s << pi::overlap(I<double>(1.0, 2.0), I<double>(2.0, 3.0)) << ' ' << Dec::com; break;
        case 12: { D<double> bad(2.0, 1.0); s << bad << (int)px::state(); break; }
        case 13: px::set_throw_exception_cwd(px::undefined_operation_bit); try { I<double> x(3.0, -3.0); s << "not trapped"; } catch (px::undefined_operation_exception const&) { s << "trapped"; } break;
        case 14: s << p1788::util::two_sum(1e16, 1.0).second; break;
        case 15: s << p1788::reduction::sum({1e300, 1.0, -1e300}, p1788::reduction::rnd_mode::to_nearest); break;
        case 16: s << text(pi::sin(I<double>(1.0, 4.0))) << text(pi::cos(I<float>(3.0, 4.0))); break;
        case 17: s << text(pi::log(I<long double>(2.0, 3.0))) << text(pi::atan2(I<double>(-1.0, 1.0), I<double>(-1.0, 2.0))); break;
        case 18: s << text(pi::pown(I<double>(-1.5, 2.0), 3)) << text(pi::pow(I<double>(1.5, 2.0), I<double>(0.5, 3.0))); break;
        case 19: s << text(pi::mul_rev(I<double>(-1.0, 1.0), I<double>(1.0, 2.0), I<double>(0.0, 9.0))) << text(pi::sin_rev(I<double>(0.0, 0.5), I<double>(3.0, 10.0))); break;
        case 20: s << io::decimal << io::precision(30) << io::width(40) << I<double>(0.1, 1.0 / 3); break;
        case 21: { std::ostringstream t; t << io::scientific << io::precision(5); s.copyfmt(t); s << D<double>(0.1, 1e10); break; }
        case 22: { D<double> r; std::istringstream i("nonsense"); i >> r; s << i.fail() << text(r); Dec d; std::istringstream j("dac"); j >> d; s << d; break; }
        default: s << text(I<float>(I<double>(0.1, 1e300))) << text(pi::intersection(I<double>(1.0, 3.0), I<double>(2.0, 5.0))) << (I<double>(1.0, 2.0) == I<double>(1.0, 2.0)); break;
        }
        s << " flags " << (int)px::state();
    } catch (std::exception const& e) { s << "exception " << e.what(); } catch (...) { s << "exception"; }
    px::state() = px::exception_bits(fl); px::set_throw_exception_cwd(px::exception_bits(tr));
    return s.str();
}
void phase(const char* name) {
    const char* e = std::getenv("VERIF_LIFE"); if (!e || e[0] == 'a') return;
    uint64_t h = std::strtoull(e, nullptr, 10) + 0x9E3779B97F4A7C15ull; for (const char* p = STR(VU); *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull; for (const char* p = name; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull;
    auto next = [&] { h ^= h >> 30; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 27; h *= 0x94D049BB133111EBull; h ^= h >> 31; return h; };
    int n = (int)(next() % 5); if (n == 4) n = 0;
    for (int i = 0; i < n; ++i) { int k = (int)(next() % ACTIONS); std::string s = std::string(STR(VU)) + "\t" + name + "\t" + std::to_string(k) + "\t" + act(k) + "\n"; if (write(1, s.data(), s.size()) < 0) _exit(94); }
}
struct Life { const char* first; const char* last; bool init; constexpr Life(const char* l) : first(nullptr), last(l), init(false) {} Life(const char* f, const char* l) : first(f), last(l), init(true) { phase(first); } ~Life() { phase(last); } };
Life g_before("destruction of what was constant-initialised");           // constructed without the library
Life g_around("static initialisation", "static destruction");
void handler() { phase("exit handler"); }
void local() { thread_local Life t("initialisation of a thread-local object", "destruction of a thread-local object"); (void)t; phase("function of a thread"); }
void all() { for (int k = 0; k < ACTIONS; ++k) { std::string s = "-\t-\t" + std::to_string(k) + "\t" + act(k) + "\n"; if (write(1, s.data(), s.size()) < 0) _exit(94); } }
void run() {
    std::atexit(handler); phase("main"); local(); std::thread(local).join(); phase("main, later");
    static std::unique_ptr<Life> held(new Life("main, object that is kept", "destruction of a kept object"));
}
Life g_after("static initialisation, last", "static destruction, first");
}
#ifdef VERIF_LIFE_MAIN
namespace u1 { void run(); } namespace u2 { void run(); }
int main() { const char* e = std::getenv("VERIF_LIFE"); if (!e) return 2; if (e[0] == 'a') { VU::all(); return 0; } VU::run(); u1::run(); u2::run(); return 0; }
#endif
