#ifndef VERIF_LIB_IMPL_HPP
#define VERIF_LIB_IMPL_HPP
#include "p1788/p1788.hpp"
#include "lib.hpp"
namespace lib {
template<class T> using FL = p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor<T>;
template<class T> using IT = p1788::infsup::interval<T, FL>;
template<class T> using DT = p1788::infsup::decorated_interval<T, FL>;
namespace px = p1788::exception;
typedef p1788::decoration::decoration Dec;

template<class T> std::pair<T, T> rep(Arg const& a) { return std::pair<T, T>((T)a.lo, (T)a.hi); }
template<class T> std::pair<std::pair<T, T>, Dec> repd(Arg const& a) { return std::make_pair(rep<T>(a), (Dec)a.dec); }
template<class T> IT<T> mk(Arg const& a) { return is_empty(a) ? IT<T>::empty() : IT<T>((T)a.lo, (T)a.hi); }
template<class T> DT<T> mkd(Arg const& a) { return is_nai(a) ? DT<T>::nai() : is_empty(a) ? DT<T>::empty() : DT<T>((T)a.lo, (T)a.hi, (Dec)a.dec); }

template<class T> void get(Arg& r, std::pair<T, T> const& x) { r.lo = x.first; r.hi = x.second; r.dec = -1; }
template<class T> void get(Arg& r, std::pair<std::pair<T, T>, Dec> const& x) { get(r, x.first); r.dec = (int)x.second; }
template<class T> void get(Arg& r, IT<T> const& x) {
    if (p1788::infsup::is_empty(x)) { r.lo = r.hi = NAN; } else { r.lo = p1788::infsup::inf(x); r.hi = p1788::infsup::sup(x); }
    r.dec = -1;
}
template<class T> void get(Arg& r, DT<T> const& x) {
    r.dec = (int)p1788::infsup::decoration(x);
    if (p1788::infsup::is_empty(x) || p1788::infsup::is_nai(x)) { r.lo = r.hi = NAN; } else { r.lo = p1788::infsup::inf(x); r.hi = p1788::infsup::sup(x); }
}
template<class X> struct Put { static void put(Out& o, X const& x) { o.kind = K_INTERVAL; get(o.a, x); } };
// std::pair is both a raw interval and a pair of results
template<class T> struct Put<std::pair<std::pair<T, T>, std::pair<T, T>>> { static void put(Out& o, std::pair<std::pair<T, T>, std::pair<T, T>> const& x) { o.kind = K_PAIR; get(o.a, x.first); get(o.b, x.second); } };
template<class T> struct Put<std::pair<std::pair<std::pair<T, T>, Dec>, std::pair<std::pair<T, T>, Dec>>> { static void put(Out& o, std::pair<std::pair<std::pair<T, T>, Dec>, std::pair<std::pair<T, T>, Dec>> const& x) { o.kind = K_PAIR; get(o.a, x.first); get(o.b, x.second); } };
template<class T> struct Put<std::pair<IT<T>, IT<T>>> { static void put(Out& o, std::pair<IT<T>, IT<T>> const& x) { o.kind = K_PAIR; get(o.a, x.first); get(o.b, x.second); } };
template<class T> struct Put<std::pair<DT<T>, DT<T>>> { static void put(Out& o, std::pair<DT<T>, DT<T>> const& x) { o.kind = K_PAIR; get(o.a, x.first); get(o.b, x.second); } };
template<> struct Put<bool> { static void put(Out& o, bool b) { o.kind = K_BOOL; o.tf = b; } };
template<> struct Put<p1788::overlapping::overlapping_state> { static void put(Out& o, p1788::overlapping::overlapping_state s) { o.kind = K_STATE; o.state = (int)s; } };
template<class X> void put(Out& o, X const& x) { int fl = px::state(); Put<X>::put(o, x); px::state() = px::exception_bits(fl); }
template<class T> void putn(Out& o, T x) { o.kind = K_NUM; o.n1 = x; }
template<class T> void putn2(Out& o, std::pair<T, T> const& x) { o.kind = K_NUM2; o.n1 = x.first; o.n2 = x.second; }

template<class FN> bool guarded(Out& o, bool keep, FN fn) {
    bool ok = true; AmbientScope scope;
    if (!keep) px::clear();
    try { ok = fn(); o.exc = 0; }
    catch (px::undefined_operation_exception const&) { o.exc = 1; }
    catch (px::possibly_undefined_operation_exception const&) { o.exc = 2; }
    catch (px::interval_part_of_nai_exception const&) { o.exc = 3; }
    catch (px::invalid_operand_exception const&) { o.exc = 4; }
    catch (std::exception const& e) { o.exc = 9; std::strncpy(o.what, e.what(), sizeof o.what - 1); }
    catch (...) { o.exc = 10; }
    o.flags = px::state();
    return ok;
}
}
#endif
