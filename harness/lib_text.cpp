#include "lib_impl.hpp"
#include "lib_text.hpp"
#include <sstream>
#ifndef VUNIT_OPEN
#define VUNIT_OPEN
#define VUNIT_CLOSE
#endif
namespace libtext { VUNIT_OPEN
using namespace lib;
namespace io = p1788::io;
void manip(std::ostream& os, Manip m) {
    switch (m.kind) {
    case M_LOWER: os << io::lower_case; break; case M_UPPER: os << io::upper_case; break; case M_STRING_WIDTH: os << io::string_width(m.arg); break;
    case M_INF_SUP: os << io::inf_sup_form; break; case M_UNCERTAIN: os << io::uncertain_form; break; case M_UNCERTAIN_UP: os << io::uncertain_up_form; break; case M_UNCERTAIN_DOWN: os << io::uncertain_down_form; break;
    case M_DECSCI: os << io::decimal_scientific; break; case M_DECIMAL: os << io::decimal; break; case M_SCIENTIFIC: os << io::scientific; break; case M_HEX: os << io::hex; break;
    case M_WIDTH: os << io::width(m.arg); break; case M_PRECISION: os << io::precision(m.arg); break;
    case M_SPECIAL_TEXT: os << io::special_text; break; case M_SPECIAL_BOUNDS: os << io::special_bounds; break; case M_SPECIAL_NO_BOUNDS: os << io::special_no_bounds; break;
    case M_PUNCT: os << io::punctuation; break; case M_NO_PUNCT: os << io::no_punctuation; break; case M_UEXP: os << io::uncertain_exponent; break; case M_NO_UEXP: os << io::no_uncertain_exponent; break;
    case M_DEC_ALPHA: os << io::dec_alpha; break; case M_DEC_NUMERIC: os << io::dec_numeric; break; case M_OVL_ALPHA: os << io::overlapping_alpha; break; case M_OVL_NUMERIC: os << io::overlapping_numeric; break;
    }
}
namespace {
template<class T> void wr(std::ostream& os, int level, bool dec, Arg const& a, Out& o) {
    if (level == 0) {
        typename FL<T>::representation r = rep<T>(a); typename FL<T>::representation_dec rd = repd<T>(a);
        guarded(o, false, [&]() { if (dec) FL<T>::operator_interval_to_text(os, rd); else FL<T>::operator_interval_to_text(os, r); return true; });
    } else if (dec) { DT<T> x = mkd<T>(a); guarded(o, false, [&]() { os << x; return true; }); }
    else { IT<T> x = mk<T>(a); guarded(o, false, [&]() { os << x; return true; }); }
}
template<class T> void rd(std::istream& is, int level, bool dec, Arg& a, Out& o) {
    if (level == 0) {
        typename FL<T>::representation r = rep<T>(a); typename FL<T>::representation_dec rd = repd<T>(a);
        guarded(o, false, [&]() { if (dec) FL<T>::operator_text_to_interval(is, rd); else FL<T>::operator_text_to_interval(is, r); return true; });
        if (dec) get(a, rd); else get(a, r);
    } else if (dec) { DT<T> x = mkd<T>(a); guarded(o, false, [&]() { is >> x; return true; }); int f = px::state(); get(a, x); px::state() = px::exception_bits(f); }
    else { IT<T> x = mk<T>(a); guarded(o, false, [&]() { is >> x; return true; }); int f = px::state(); get(a, x); px::state() = px::exception_bits(f); }
}
template<class T> void ct(int level, bool dec, std::string const& s, Out& o) {
    guarded(o, false, [&]() {
        if (level == 0) { if (dec) put(o, (std::pair<std::pair<T, T>, Dec>)FL<T>::text_to_decorated_interval(s)); else put(o, (std::pair<T, T>)FL<T>::text_to_interval(s)); }
        else if (dec) put(o, DT<T>(s)); else put(o, IT<T>(s));
        return true;
    });
}
}
void write(std::ostream& os, int t, int level, bool dec, Arg const& a, Out& o) { if (t == ref::TF) wr<float>(os, level, dec, a, o); else if (t == ref::TD) wr<double>(os, level, dec, a, o); else wr<long double>(os, level, dec, a, o); }
void read(std::istream& is, int t, int level, bool dec, Arg& a, Out& o) { if (t == ref::TF) rd<float>(is, level, dec, a, o); else if (t == ref::TD) rd<double>(is, level, dec, a, o); else rd<long double>(is, level, dec, a, o); }
void construct(int t, int level, bool dec, std::string const& s, Out& o) { if (t == ref::TF) ct<float>(level, dec, s, o); else if (t == ref::TD) ct<double>(level, dec, s, o); else ct<long double>(level, dec, s, o); }
void write_dec(std::ostream& os, int d, Out& o) { guarded(o, false, [&]() { os << (Dec)d; return true; }); }
void write_ovl(std::ostream& os, int s, Out& o) { guarded(o, false, [&]() { os << (p1788::overlapping::overlapping_state)s; return true; }); }
void read_dec(std::istream& is, int& d, Out& o) { Dec x = (Dec)d; guarded(o, false, [&]() { is >> x; return true; }); d = (int)x; }
VUNIT_CLOSE }
