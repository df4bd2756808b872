// Compile with -DVU=u<k> -DVSAME=<suffix of the operation recorders> at any optimisation level.
#define VUNIT_OPEN namespace VU {
#define VUNIT_CLOSE }
#include "lib_text.cpp"
#include "lib_flags.cpp"
#include "lib_red.cpp"
#include "mtu.hpp"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define STR_(a) #a
#define STR(a) STR_(a)
namespace lib {
#define DECLS(k) bool CAT(same_d##k, VSAME)(int, int, Arg const*, int, Out&, bool, ld, int);
DECLS(0) DECLS(1) DECLS(2) DECLS(3)
}
namespace mtu { namespace VU {
namespace {
using namespace lib;
int get_flags() { return px::state(); } void set_flags(int f) { px::state() = px::exception_bits(f); } int get_trap() { return px::get_throw_exception_cwd(); }
std::string now() {
    namespace pi = p1788::infsup; namespace io = p1788::io; std::ostringstream s;
    int fl = px::state(); px::clear();
    s << io::hex << pi::exp(IT<double>(1.0, 2.0)) << ' ' << IT<float>(0.1, 0.2) * IT<float>(3.0, 4.0) << ' ' << io::decimal_scientific << io::uncertain_form << io::dec_numeric << DT<double>(1.25, 1.5) << ' ' << io::inf_sup_form << io::dec_alpha
      << DT<long double>("[1,2.5]_def") << ' ' << pi::sqrt(DT<double>(-1.0, 4.0)) << ' ' << io::upper_case << io::special_bounds << IT<double>::empty() << ' ' << pi::overlap(IT<double>(1.0, 2.0), IT<double>(2.0, 3.0)) << ' ' << Dec::com;
    DT<double> bad(2.0, 1.0); s << ' ' << bad << ' ' << (int)px::state();
    px::clear(); px::set_throw_exception_cwd(px::undefined_operation_bit);
    try { IT<double> x(3.0, -3.0); s << " not trapped"; } catch (px::undefined_operation_exception const&) { s << " trapped"; } catch (...) { s << " other"; }
    px::set_throw_exception_cwd(px::none_bit); px::clear();
    std::istringstream i("  [ 2 , 3 ]_com"); DT<double> r; i >> r; s << ' ' << io::lower_case << r << ' ' << p1788::util::two_sum(1e16, 1.0).second << ' ' << p1788::reduction::sum({1e300, 1.0, -1e300}, p1788::reduction::rnd_mode::to_nearest);
    px::state() = px::exception_bits(fl);
    return s.str();
}
struct Early { std::string s; Early() { try { s = now(); } catch (std::exception const& e) { s = std::string("exception ") + e.what(); } catch (...) { s = "exception"; } } };
Early const g_early;
std::string const& early() { return g_early.s; }
}
extern Unit const the_unit;
Unit const the_unit = {STR(VU), libtext::VU::manip, libtext::VU::write, libtext::VU::write_dec, libtext::VU::write_ovl, libtext::VU::read, libtext::VU::read_dec, libtext::VU::construct,
    lib::VU::flagapi_clear, lib::VU::flagapi_set_cwd, lib::VU::flagapi_signal, lib::VU::flagapi_queries, get_flags, set_flags, get_trap, lib::VU::reduce, lib::VU::two_sum,
    {lib::CAT(same_d0, VSAME), lib::CAT(same_d1, VSAME), lib::CAT(same_d2, VSAME), lib::CAT(same_d3, VSAME)}, early, now};
} }
