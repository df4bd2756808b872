// Constants of the public classes that several threads read at the same time.
#include "lib_impl.hpp"
#include <sstream>
#include <vector>
#include <memory>
namespace lib {
std::string shared_step(int which, int i, int j);
void shared_setup();
namespace {
struct Pool {
    std::vector<IT<double>> d; std::vector<DT<double>> dd; std::vector<IT<float>> f; std::vector<DT<long double>> l;
};
std::unique_ptr<Pool const> pool;
template<class T> std::string str(T const& x) { std::ostringstream s; s << p1788::io::hex << x; return s.str(); }
std::string num(long double v) { char b[60]; snprintf(b, sizeof b, "%La", v); return b; }
}
void shared_setup() {
    std::unique_ptr<Pool> p(new Pool);
    static const double lo[] = {1, -2, 0, -INFINITY, 3.5, 1e-300, -INFINITY, 0.1, -7, 0}, hi[] = {2, 5, 0, 4, INFINITY, 1e300, INFINITY, 0.1, -3, 1};
    for (int i = 0; i < 10; ++i) {
        p->d.push_back(i == 6 ? IT<double>::empty() : IT<double>(lo[i], hi[i])); p->dd.push_back(i == 6 ? DT<double>::nai() : DT<double>(lo[i], hi[i]));
        p->f.push_back(IT<float>((float)(lo[i] * 0.5), (float)hi[i])); p->l.push_back(DT<long double>((long double)lo[i], (long double)hi[i], Dec::def));
    }
    pool.reset(p.release()); px::clear();
}
std::string shared_step(int which, int i, int j) {
    using namespace p1788::infsup; Pool const& p = *pool; std::string r; px::clear();
    try {
        switch (which) {
        case 0: r = str(p.d[i] + p.d[j]); break;
        case 1: r = str(p.dd[i] * p.dd[j]); break;
        case 2: r = str(exp(p.f[i])); break;
        case 3: r = str(intersection(p.l[i], p.l[j])); break;
        case 4: r = num(inf(p.d[i])) + num(sup(p.d[i])) + num(mid(p.l[i])); break;
        case 5: r = p.d[i] == p.d[j] ? "equal" : "different"; r += subset(p.dd[i], p.dd[j]) ? "s" : "-"; break;
        case 6: r = std::to_string((int)overlap(p.d[i], p.d[j])); break;
        case 7: r = str(p.dd[i]) + str(p.f[i]); break;
        case 8: { DT<long double> x(p.dd[i]); r = str(x); break; }
        case 9: r = std::to_string((int)decoration(p.dd[i])) + str(IT<double>(p.dd[i])); break;
        case 10: r = str(sin(p.dd[i])) + str(sqrt(p.d[j])); break;
        case 11: if (i & 1) FL<double>::setup(); else if (j & 1) FL<float>::teardown(); else FL<long double>::teardown(); r = "set up or torn down"; break;
        default: { IT<double> x(p.d[i]); x = p.d[j]; r = str(x) + (is_empty(p.d[i]) ? "e" : ""); }
        }
    } catch (std::exception const& e) { r = std::string("exception ") + e.what(); }
    return r + " flags " + std::to_string((int)px::state());
}
}
