// Recorders for the flag / trap interface and for the text constructors used by P15.
#include "lib_impl.hpp"
#include <sstream>
#ifndef VUNIT_OPEN
#define VUNIT_OPEN
#define VUNIT_CLOSE
#endif
namespace lib { VUNIT_OPEN
int flagapi_clear() { return px::clear(); }
int flagapi_set_cwd(int v, bool by_ref) { if (by_ref) { px::cwd() = px::exception_bits(v); return px::get_throw_exception_cwd(); } return px::set_throw_exception_cwd(px::exception_bits(v)); }
template<class F> static int kind_of(F f) {
    try { f(); }
    catch (px::undefined_operation_exception const&) { return 1; }
    catch (px::possibly_undefined_operation_exception const&) { return 2; }
    catch (px::interval_part_of_nai_exception const&) { return 3; }
    catch (px::invalid_operand_exception const&) { return 4; }
    catch (px::exception const&) { return 8; }
    catch (std::exception const&) { return 9; }
    catch (...) { return 10; }
    return 0;
}
int flagapi_signal(int which, int& ret) {
    return kind_of([&]() { switch (which) { case 0: ret = px::signal_undefined_operation(); break; case 1: ret = px::signal_possibly_undefined_operation(); break; case 2: ret = px::signal_interval_part_of_nai(); break; default: ret = px::signal_invalid_operand(); } });
}
int flagapi_bits(int x, int y) {
    px::exception_bits a = px::exception_bits(x), b = px::exception_bits(y), t;
    if ((int)(a & b) != (x & y)) return 1; if ((int)(a | b) != (x | y)) return 2; if ((int)(a ^ b) != (x ^ y)) return 3; if ((int)(~a) != ~x) return 4;
    t = a; t &= b; if ((int)t != (x & y)) return 5; t = a; t |= b; if ((int)t != (x | y)) return 6; t = a; t ^= b; if ((int)t != (x ^ y)) return 7;
    return 0;
}
// withdraws flags, or exceptions, by the complement of their bits
int flagapi_withdraw(int v, bool traps) {
    px::exception_bits const keep = ~px::exception_bits(v);
    if (traps) return px::set_throw_exception_cwd(px::get_throw_exception_cwd() & keep);
    return px::state() &= keep;
}
int flagapi_queries() { return (px::undefined_operation() ? 1 : 0) | (px::possibly_undefined_operation() ? 2 : 0) | (px::interval_part_of_nai() ? 4 : 0) | (px::invalid_operand() ? 8 : 0); }
int flagapi_text(int form, std::string const& s) {
    return kind_of([&]() { switch (form) { case 0: { IT<double> x(s); break; } case 1: { DT<double> x(s); break; } case 2: { IT<float> x(s); break; } default: { DT<long double> x(s); } } });
}
int flagapi_stream(int form, std::string const& s, bool& failed) {
    return kind_of([&]() { std::istringstream i(s); switch (form) { case 0: { IT<double> x; i >> x; break; } case 1: { DT<double> x; i >> x; break; } case 2: { IT<float> x; i >> x; break; } default: { DT<long double> x; i >> x; } } failed = i.fail(); });
}
VUNIT_CLOSE }
