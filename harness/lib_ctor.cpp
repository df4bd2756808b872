// -DVR=<result type> -DVFN=construct_<f|d|l>
#include "lib_impl.hpp"
#include "lib_ctor.hpp"
namespace lib {
namespace {
typedef VR R;
typedef std::pair<R, R> Rep; typedef std::pair<Rep, Dec> RepD;
// the raw level keeps exactly the bits it returned; the public level is read through inf / sup / decoration
template<class L, class U> bool nums(int kind, int form, Arg const& x, int dec, Out& o, bool keep) {
    L l = (L)x.lo; U u = (U)x.hi;
    return guarded(o, keep, [&]() -> bool {
        switch (kind) {
        case C_NUM: if (form) put(o, IT<R>(l, u)); else put(o, (Rep)FL<R>::nums_to_interval(l, u)); return true;
        case C_NUMD: if (form) put(o, DT<R>(l, u)); else put(o, (RepD)FL<R>::nums_to_decorated_interval(l, u)); return true;
        case C_NUMDEC: if (form) put(o, DT<R>(l, u, (Dec)dec)); else put(o, (RepD)FL<R>::nums_dec_to_decorated_interval(l, u, (Dec)dec)); return true;
        }
        return false;
    });
}
template<class S> bool util(int kind, Arg const& x, Out& o, bool keep) {
    return guarded(o, keep, [&]() -> bool {
        switch (kind) {
        case C_RNDD: putn(o, FL<R>::template convert_rndd<S>((S)x.lo)); return true;
        case C_RNDN: putn(o, FL<R>::template convert_rndn<S>((S)x.lo)); return true;
        case C_RNDU: putn(o, FL<R>::template convert_rndu<S>((S)x.lo)); return true;
        case C_HULL: put(o, (Rep)FL<R>::template convert_hull<S>(typename FL<S>::representation(rep<S>(x)))); return true;
        case C_HULLD: put(o, (RepD)FL<R>::template convert_hull<S>(typename FL<S>::representation_dec(repd<S>(x)))); return true;
        }
        return false;
    });
}
template<class S> bool conv(int kind, int form, Arg const& x, int dec, Out& o, bool keep) {
    std::pair<S, S> r = rep<S>(x); std::pair<std::pair<S, S>, Dec> rd = repd<S>(x);
    typedef typename FL<S>::representation SRep; typedef typename FL<S>::representation_dec SRepD;
    SRep sr = r; SRepD sd = rd;
    // objects of the public level are built before the observed call
    int fl = px::state(); IT<S> pi; DT<S> pd;
    if (form) { pi = mk<S>(x); if (is_nai(x)) pd = DT<S>::nai(); else if (is_empty(x)) pd = DT<S>::empty(); else pd = mkd<S>(x); }
    px::state() = px::exception_bits(fl);
    return guarded(o, keep, [&]() -> bool {
        switch (kind) {
        case C_CONV: if (form) put(o, IT<R>(pi)); else put(o, (Rep)FL<R>::template convert_type<S>(sr)); return true;
        case C_CONVD: if (form) put(o, DT<R>(pd)); else put(o, (RepD)FL<R>::template convert_type<S>(sd)); return true;
        case C_PART: if (form) put(o, IT<R>(pd)); else put(o, (Rep)FL<R>::template interval_part<S>(sd)); return true;
        case C_NEWDEC: if (form) put(o, DT<R>(pi)); else put(o, (RepD)FL<R>::template new_dec<S>(sr)); return true;
        case C_SETDEC: if (form) put(o, DT<R>(pi, (Dec)dec)); else put(o, (RepD)FL<R>::template set_dec<S>(sr, (Dec)dec)); return true;
        }
        return false;
    });
}
bool same(int kind, int form, Arg const& x, int dec, Out& o, bool keep) {
    typename FL<R>::representation sr = rep<R>(x); typename FL<R>::representation_dec sd = repd<R>(x);
    int fl = px::state(); IT<R> pi; DT<R> pd;
    if (form) { pi = mk<R>(x); if (is_nai(x)) pd = DT<R>::nai(); else if (is_empty(x)) pd = DT<R>::empty(); else pd = mkd<R>(x); }
    px::state() = px::exception_bits(fl);
    return guarded(o, keep, [&]() -> bool {
        switch (kind) {
        case C_PART: if (form) put(o, IT<R>(pd)); else put(o, (Rep)FL<R>::interval_part(sd)); return true;
        case C_NEWDEC: if (form) put(o, DT<R>(pi)); else put(o, (RepD)FL<R>::new_dec(sr)); return true;
        case C_SETDEC: if (form) put(o, DT<R>(pi, (Dec)dec)); else put(o, (RepD)FL<R>::set_dec(sr, (Dec)dec)); return true;
        case C_COPY: if (form) { IT<R> q(pi); put(o, q); } else put(o, (Rep)FL<R>::copy(sr)); return true;
        case C_COPYD: if (form) { DT<R> q(pd); put(o, q); } else put(o, (RepD)FL<R>::copy(sd)); return true;
        case C_ASSIGN: { if (!form) return false; IT<R> q(R(1), R(2)); q = pi; put(o, q); return true; }
        case C_ASSIGND: { if (!form) return false; DT<R> q(R(1), R(2)); q = pd; put(o, q); return true; }
        case C_DECPART: o.kind = K_STATE; o.state = form ? (int)p1788::infsup::decoration(pd) : (int)FL<R>::decoration_part(sd); return true;
        case C_EMPTY: if (form) put(o, IT<R>::empty()); else put(o, (Rep)FL<R>::empty()); return true;
        case C_ENTIRE: if (form) put(o, IT<R>::entire()); else put(o, (Rep)FL<R>::entire()); return true;
        case C_EMPTYD: if (form) put(o, DT<R>::empty()); else put(o, (RepD)FL<R>::empty_dec()); return true;
        case C_ENTIRED: if (form) put(o, DT<R>::entire()); else put(o, (RepD)FL<R>::entire_dec()); return true;
        case C_NAI: if (form) put(o, DT<R>::nai()); else put(o, (RepD)FL<R>::nai()); return true;
        case C_DEFAULT: if (!form) return false; put(o, IT<R>()); return true;
        case C_DEFAULTD: if (!form) return false; put(o, DT<R>()); return true;
        }
        return false;
    });
}
}
static const int SELF = sizeof(R) == sizeof(float) ? ref::TF : sizeof(R) == sizeof(double) ? ref::TD : ref::TL;
#define N2(L) (tu == ref::TF ? nums<L, float>(kind, form, x, dec, o, keep) : tu == ref::TD ? nums<L, double>(kind, form, x, dec, o, keep) : nums<L, long double>(kind, form, x, dec, o, keep))
bool VFN(int kind, int form, int tl, int tu, Arg const& x, int dec, Out& o, bool keep) {
    if (kind <= C_NUMDEC) return tl == ref::TF ? N2(float) : tl == ref::TD ? N2(double) : N2(long double);
    if (kind == C_CONV || kind == C_CONVD || (tl != SELF && kind >= C_PART && kind <= C_SETDEC))
        return tl == ref::TF ? conv<float>(kind, form, x, dec, o, keep) : tl == ref::TD ? conv<double>(kind, form, x, dec, o, keep) : conv<long double>(kind, form, x, dec, o, keep);
    if (kind >= C_RNDD) return tl == ref::TF ? util<float>(kind, x, o, keep) : tl == ref::TD ? util<double>(kind, x, o, keep) : util<long double>(kind, x, o, keep);
    return same(kind, form, x, dec, o, keep);
}
}
