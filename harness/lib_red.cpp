#include "p1788/p1788.hpp"
#include "p1788/reduction/reduction.hpp"
#include "p1788/util/mpfr_util.hpp"
#include "lib_red.hpp"
#include <deque>
#include <vector>
#include <initializer_list>
#ifndef VUNIT_OPEN
#define VUNIT_OPEN
#define VUNIT_CLOSE
#endif
namespace lib { VUNIT_OPEN
namespace {
namespace rd = p1788::reduction;
template<class I> typename std::iterator_traits<I>::value_type run(int kind, I a, I e, I b, rd::rnd_mode m) {
    switch (kind) { case R_SUM: return rd::sum(a, e, m); case R_SUM_ABS: return rd::sum_abs(a, e, m); case R_SUM_SQR: return rd::sum_sqr(a, e, m); default: return rd::dot(a, e, b, m); }
}
template<class T> T runl(int kind, std::initializer_list<T> a, std::initializer_list<T> b, rd::rnd_mode m) {
    switch (kind) { case R_SUM: return rd::sum(a, m); case R_SUM_ABS: return rd::sum_abs(a, m); case R_SUM_SQR: return rd::sum_sqr(a, m); default: return rd::dot(a, b, m); }
}
bool eq(ld a, ld b) { return std::isnan(a) ? std::isnan(b) : a == b && std::signbit(a) == std::signbit(b); }
template<class T> ld red(int kind, int container, int rnd, std::vector<ld> const& a_, std::vector<ld> const& b_, bool& modified) {
    static const rd::rnd_mode modes[] = {rd::rnd_mode::downward, rd::rnd_mode::upward, rd::rnd_mode::to_nearest, rd::rnd_mode::to_zero};
    rd::rnd_mode m = modes[rnd]; std::vector<T> a(a_.begin(), a_.end()), b(b_.begin(), b_.end()); if (b.size() < a.size()) b.resize(a.size());
    T r;
    switch (container) {
    case 1: r = run<T*>(kind, a.data(), a.data() + a.size(), b.data(), m); break;
    case 2: { std::deque<T> p(a.begin(), a.end()), q(b.begin(), b.end()); r = run(kind, p.begin(), p.end(), q.begin(), m); break; }
    case 3: switch (a.size()) {
        case 0: r = runl<T>(kind, {}, {}, m); break;
        case 1: r = runl<T>(kind, {a[0]}, {b[0]}, m); break;
        case 2: r = runl<T>(kind, {a[0], a[1]}, {b[0], b[1]}, m); break;
        case 3: r = runl<T>(kind, {a[0], a[1], a[2]}, {b[0], b[1], b[2]}, m); break;
        case 4: r = runl<T>(kind, {a[0], a[1], a[2], a[3]}, {b[0], b[1], b[2], b[3]}, m); break;
        case 5: r = runl<T>(kind, {a[0], a[1], a[2], a[3], a[4]}, {b[0], b[1], b[2], b[3], b[4]}, m); break;
        default: r = run(kind, a.begin(), a.end(), b.begin(), m); } break;
    case 4: { std::vector<T> const& ca = a; std::vector<T> const& cb = b; r = run(kind, ca.begin(), ca.end(), cb.begin(), m); break; }
    case 5: r = run(kind, a.rbegin(), a.rend(), b.rbegin(), m); break;
    default: r = run(kind, a.begin(), a.end(), b.begin(), m);
    }
    for (size_t i = 0; i < a_.size(); ++i) if (!eq(a[i], a_[i]) || (i < b_.size() && !eq(b[i], b_[i]))) modified = true;
    return r;
}
template<class T> void ts(ld a, ld b, ld& s, ld& e) { std::pair<T, T> r = p1788::util::two_sum((T)a, (T)b); s = r.first; e = r.second; }
}
ld reduce(int t, int kind, int container, int rnd, std::vector<ld> const& a, std::vector<ld> const& b, bool& modified, int& exc) {
    exc = 0; modified = false; lib::AmbientScope scope;
    try { return t == ref::TF ? red<float>(kind, container, rnd, a, b, modified) : t == ref::TD ? red<double>(kind, container, rnd, a, b, modified) : red<ld>(kind, container, rnd, a, b, modified); }
    catch (...) { exc = 1; return 0; }
}
void two_sum(int t, ld a, ld b, ld& s, ld& e, int& exc) {
    exc = 0; lib::AmbientScope scope;
    try { if (t == ref::TF) ts<float>(a, b, s, e); else if (t == ref::TD) ts<double>(a, b, s, e); else ts<ld>(a, b, s, e); } catch (...) { exc = 1; }
}
VUNIT_CLOSE }
