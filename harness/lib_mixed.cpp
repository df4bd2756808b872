// Mixed-type recorders for one result type: compile with -DVR=<type> -DVFN=mixed_<x> -DVPART=0..3
#include "lib_impl.hpp"
namespace lib {
namespace {     // the recorders depend on VR and VPART: internal linkage
typedef VR R;
namespace pi = p1788::infsup;

template<class T1> struct M1 { static bool call(int op, int form, Arg const* x, int p, Out& o, bool keep) {
    auto r0 = rep<T1>(x[0]); auto d0 = repd<T1>(x[0]);
    IT<T1> i0 = form == ST ? mk<T1>(x[0]) : IT<T1>(); DT<T1> j0 = form == STDEC ? mkd<T1>(x[0]) : DT<T1>(); (void)p;
    return guarded(o, keep, [&]() -> bool {
#define FM(n, A, B, C, DD) switch (form) { case RAW: put(o, FL<R>::n A); return true; case RAWDEC: put(o, FL<R>::n B); return true; case ST: put(o, IT<R>::n C); return true; case STDEC: put(o, DT<R>::n DD); return true; default: return false; }
#define FN(n, PUT) switch (form) { case RAW: PUT(o, FL<R>::n(r0)); return true; case RAWDEC: PUT(o, FL<R>::n(d0)); return true; case ST: PUT(o, IT<R>::n(i0)); return true; case STDEC: PUT(o, DT<R>::n(j0)); return true; default: return false; }
        switch (op) {
#if VPART == 0
#define X(f) case ref::OP_##f: FM(f, (r0), (d0), (i0), (j0))
        REF_UNARY(X)
#undef X
        case ref::OP_pown: FM(pown, (r0, p), (d0, p), (i0, p), (j0, p))
#endif
#if VPART == 1
#define X(f) case L_##f: FN(f, putn)
        LIB_NUM(X)
#undef X
        case L_mid_rad: FN(mid_rad, putn2)
#define X(f) case ref::OP_##f: FM(f, (r0), (d0), (i0), (j0))
        LIB_REV(X)
#undef X
        case ref::OP_pown_rev: FM(pown_rev, (r0, p), (d0, p), (i0, p), (j0, p))
#endif
        default: return false;
        }
    });
} };
template<class T1, class T2> struct M2 { static bool call(int op, int form, Arg const* x, int p, Out& o, bool keep) {
    auto r0 = rep<T1>(x[0]); auto d0 = repd<T1>(x[0]); auto r1 = rep<T2>(x[1]); auto d1 = repd<T2>(x[1]);
    IT<T1> i0 = form >= ST && !decorated(form) ? mk<T1>(x[0]) : IT<T1>(); DT<T1> j0 = form >= ST && decorated(form) ? mkd<T1>(x[0]) : DT<T1>(); (void)p;
    IT<T2> i1 = form >= ST && !decorated(form) ? mk<T2>(x[1]) : IT<T2>(); DT<T2> j1 = form >= ST && decorated(form) ? mkd<T2>(x[1]) : DT<T2>();
    return guarded(o, keep, [&]() -> bool {
        switch (op) {
#define X(f) case ref::OP_##f: FM(f, (r0, r1), (d0, d1), (i0, i1), (j0, j1))
#if VPART == 2
        REF_BINARY(X) LIB_SETOPS(X) X(mul_rev) X(mul_rev_to_pair)
#undef X
#endif
#if VPART == 1
#define Y(f) case ref::OP_##f##x: FM(f, (r0, r1), (d0, d1), (i0, i1), (j0, j1))
        LIB_REV(Y)
#undef Y
        case ref::OP_pown_revx: FM(pown_rev, (r0, r1, p), (d0, d1, p), (i0, i1, p), (j0, j1, p))
#endif
#if VPART == 4
        // comparisons: first operand type is the "result" type slot, flavor of T1
#undef FM
#define FM(n, A, B, C, DD) switch (form) { case RAW: put(o, FL<T1>::n A); return true; case RAWDEC: put(o, FL<T1>::n B); return true; case ST: put(o, IT<T1>::n C); return true; case STDEC: put(o, DT<T1>::n DD); return true; \
            case FREE: put(o, pi::n C); return true; case FREEDEC: put(o, pi::n DD); return true; default: break; }
#define Z(f) case L_##f: FM(f, (r0, r1), (d0, d1), (i0, i1), (j0, j1)) if (L_##f == L_equal) { if (form == OPR) { put(o, bool(i0 == i1)); return true; } if (form == OPRDEC) { put(o, bool(j0 == j1)); return true; } } return false;
        LIB_BOOL2(Z) Z(overlap)
#undef Z
#define Z(f) case L_##f: switch (form) { case ST: put(o, IT<T1>::f(i0, i1)); return true; case STDEC: put(o, DT<T1>::f(j0, j1)); return true; case FREE: put(o, pi::f(i0, i1)); return true; case FREEDEC: put(o, pi::f(j0, j1)); return true; default: return false; }
        LIB_BOOL2P(Z)
#undef Z
        case L_not_equal: if (form == OPR) { put(o, bool(i0 != i1)); return true; } if (form == OPRDEC) { put(o, bool(j0 != j1)); return true; } return false;
#endif
        default: return false;
        }
    });
} };
template<class T1, class T2, class T3> struct M3 { static bool call(int op, int form, Arg const* x, int, Out& o, bool keep) {
    auto r0 = rep<T1>(x[0]); auto d0 = repd<T1>(x[0]); auto r1 = rep<T2>(x[1]); auto d1 = repd<T2>(x[1]); auto r2 = rep<T3>(x[2]); auto d2 = repd<T3>(x[2]);
    IT<T1> i0 = form == ST ? mk<T1>(x[0]) : IT<T1>(); DT<T1> j0 = form == STDEC ? mkd<T1>(x[0]) : DT<T1>();
    IT<T2> i1 = form == ST ? mk<T2>(x[1]) : IT<T2>(); DT<T2> j1 = form == STDEC ? mkd<T2>(x[1]) : DT<T2>();
    IT<T3> i2 = form == ST ? mk<T3>(x[2]) : IT<T3>(); DT<T3> j2 = form == STDEC ? mkd<T3>(x[2]) : DT<T3>();
    return guarded(o, keep, [&]() -> bool {
        switch (op) {
#if VPART == 3
        case ref::OP_fma: FM(fma, (r0, r1, r2), (d0, d1, d2), (i0, i1, i2), (j0, j1, j2))
        case ref::OP_mul_revx: FM(mul_rev, (r0, r1, r2), (d0, d1, d2), (i0, i1, i2), (j0, j1, j2))
#endif
        default: return false;
        }
    });
} };

}
bool VFN(int op, int form, int const* t, Arg const* x, int p, Out& o, bool keep) {
#define T1S(F) (t[0] == ref::TF ? F<float>::call(op, form, x, p, o, keep) : t[0] == ref::TD ? F<double>::call(op, form, x, p, o, keep) : F<long double>::call(op, form, x, p, o, keep))
#define T2S(F, B) (t[0] == ref::TF ? F<float, B>::call(op, form, x, p, o, keep) : t[0] == ref::TD ? F<double, B>::call(op, form, x, p, o, keep) : F<long double, B>::call(op, form, x, p, o, keep))
#define T3S(F, B, C) (t[0] == ref::TF ? F<float, B, C>::call(op, form, x, p, o, keep) : t[0] == ref::TD ? F<double, B, C>::call(op, form, x, p, o, keep) : F<long double, B, C>::call(op, form, x, p, o, keep))
#if VPART == 0 || VPART == 1
    if (op_arity(op) == 1) return T1S(M1);
#endif
#if VPART == 1 || VPART == 2 || VPART == 4
    if (op_arity(op) == 2) switch (t[1]) { case ref::TF: return T2S(M2, float); case ref::TD: return T2S(M2, double); default: return T2S(M2, long double); }
#endif
#if VPART == 3
    if (op_arity(op) == 3) switch (t[1] * 3 + t[2]) {
        case 0: return T3S(M3, float, float); case 1: return T3S(M3, float, double); case 2: return T3S(M3, float, long double);
        case 3: return T3S(M3, double, float); case 4: return T3S(M3, double, double); case 5: return T3S(M3, double, long double);
        case 6: return T3S(M3, long double, float); case 7: return T3S(M3, long double, double); case 8: return T3S(M3, long double, long double);
    }
#endif
    return false;
}
}
