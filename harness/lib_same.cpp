// Same-type recorders for one bound type: compile with -DT_=<type> -DFN_=same_<x>.
// Split in parts (-DPART_=0..2) so that they compile in parallel; dispatched in lib_main.cpp.
#include "lib_impl.hpp"
namespace lib {
typedef VT T; typedef FL<T> F; typedef IT<T> I; typedef DT<T> D;
namespace pi = p1788::infsup;

#define FORMS(n, R, RD, S, SD) \
    switch (form) { \
    case RAW: put(o, F::n R); return true;  case RAWDEC: put(o, F::n RD); return true; \
    case ST: put(o, I::n S); return true;   case STDEC: put(o, D::n SD); return true; \
    case FREE: put(o, pi::n S); return true; case FREEDEC: put(o, pi::n SD); return true; default: break; }
#define NFORMS_(n, PUT) \
    switch (form) { \
    case RAW: PUT(o, F::n(r0)); return true;  case RAWDEC: PUT(o, F::n(d0)); return true; \
    case ST: PUT(o, I::n(i0)); return true;   case STDEC: PUT(o, D::n(j0)); return true; \
    case FREE: PUT(o, pi::n(i0)); return true; case FREEDEC: PUT(o, pi::n(j0)); return true; default: break; }

#define OPERANDS \
    auto r0 = rep<T>(x[0]), r1 = n > 1 ? rep<T>(x[1]) : r0, r2 = n > 2 ? rep<T>(x[2]) : r0; \
    auto d0 = repd<T>(x[0]), d1 = n > 1 ? repd<T>(x[1]) : d0, d2 = n > 2 ? repd<T>(x[2]) : d0; \
    bool pub = form >= ST; bool pd = pub && decorated(form), pb = pub && !decorated(form); \
    I i0 = pb ? mk<T>(x[0]) : I(), i1 = pb && n > 1 ? mk<T>(x[1]) : I(), i2 = pb && n > 2 ? mk<T>(x[2]) : I(); \
    D j0 = pd ? mkd<T>(x[0]) : D(), j1 = pd && n > 1 ? mkd<T>(x[1]) : D(), j2 = pd && n > 2 ? mkd<T>(x[2]) : D(); \
    (void)r0; (void)r1; (void)r2; (void)d0; (void)d1; (void)d2; (void)i1; (void)i2; (void)j1; (void)j2;

bool VFN(int op, int form, Arg const* x, int p, Out& o, bool keep, ld member, int mt) {
    int n = op_arity(op); (void)n; (void)p; (void)member; (void)mt;
    OPERANDS
    return guarded(o, keep, [&]() -> bool {
        switch (op) {
#if VPART == 0
#define X(f) case ref::OP_##f: FORMS(f, (r0), (d0), (i0), (j0)) break;
        REF_UNARY_NOOP(X)
#undef X
#define X(f) case ref::OP_##f: FORMS(f, (r0), (d0), (i0), (j0)) if (form == OPR) { put(o, OPSYM i0); return true; } if (form == OPRDEC) { put(o, OPSYM j0); return true; } break;
#define OPSYM +
        X(pos)
#undef OPSYM
#define OPSYM -
        X(neg)
#undef OPSYM
#undef X
#endif
#if VPART == 1
#define X(f) case ref::OP_##f: FORMS(f, (r0, r1), (d0, d1), (i0, i1), (j0, j1)) if (form == OPR) { put(o, i0 OPSYM i1); return true; } if (form == OPRDEC) { put(o, j0 OPSYM j1); return true; } break;
#define OPSYM +
        X(add)
#undef OPSYM
#define OPSYM -
        X(sub)
#undef OPSYM
#define OPSYM *
        X(mul)
#undef OPSYM
#define OPSYM /
        X(div)
#undef OPSYM
#undef X
#define X(f) case ref::OP_##f: FORMS(f, (r0, r1), (d0, d1), (i0, i1), (j0, j1)) break;
        X(pow) X(atan2) X(min) X(max) LIB_SETOPS(X) X(mul_rev_to_pair) X(mul_rev)
#undef X
        case ref::OP_pown: FORMS(pown, (r0, p), (d0, p), (i0, p), (j0, p)) break;
        case ref::OP_fma: FORMS(fma, (r0, r1, r2), (d0, d1, d2), (i0, i1, i2), (j0, j1, j2)) break;
        case ref::OP_mul_revx: FORMS(mul_rev, (r0, r1, r2), (d0, d1, d2), (i0, i1, i2), (j0, j1, j2)) break;
#endif
#if VPART == 2
#define X(f) case ref::OP_##f: FORMS(f, (r0), (d0), (i0), (j0)) break; case ref::OP_##f##x: FORMS(f, (r0, r1), (d0, d1), (i0, i1), (j0, j1)) break;
        LIB_REV(X)
#undef X
        case ref::OP_pown_rev: FORMS(pown_rev, (r0, p), (d0, p), (i0, p), (j0, p)) break;
        case ref::OP_pown_revx: FORMS(pown_rev, (r0, r1, p), (d0, d1, p), (i0, i1, p), (j0, j1, p)) break;
#endif
#if VPART == 3
#define X(f) case L_##f: FORMS(f, (r0), (d0), (i0), (j0)) break;
        LIB_BOOL1(X)
#undef X
#define X(f) case L_##f: FORMS(f, (r0, r1), (d0, d1), (i0, i1), (j0, j1)) \
            if (L_##f == L_equal) { if (form == OPR) { put(o, bool(i0 == i1)); return true; } if (form == OPRDEC) { put(o, bool(j0 == j1)); return true; } } break;
        LIB_BOOL2(X)
#undef X
#define X(f) case L_##f: switch (form) { case ST: put(o, I::f(i0, i1)); return true; case STDEC: put(o, D::f(j0, j1)); return true; \
            case FREE: put(o, pi::f(i0, i1)); return true; case FREEDEC: put(o, pi::f(j0, j1)); return true; default: break; } break;
        LIB_BOOL2P(X)
#undef X
        case L_not_equal: if (form == OPR) { put(o, bool(i0 != i1)); return true; } if (form == OPRDEC) { put(o, bool(j0 != j1)); return true; } break;
        case L_is_nai: switch (form) { case RAWDEC: put(o, F::is_nai(d0)); return true; case STDEC: put(o, D::is_nai(j0)); return true; case FREEDEC: put(o, pi::is_nai(j0)); return true; default: break; } break;
#define X(f) case L_##f: NFORMS_(f, putn) break;
        LIB_NUM(X)
#undef X
        case L_mid_rad: NFORMS_(mid_rad, putn2) break;
        case L_overlap: FORMS(overlap, (r0, r1), (d0, d1), (i0, i1), (j0, j1)) break;
        case L_is_member: {
#define MEM(M) switch (form) { case RAW: put(o, F::is_member((M)member, r0)); return true; case RAWDEC: put(o, F::is_member((M)member, d0)); return true; \
            case ST: put(o, I::is_member((M)member, i0)); return true; case STDEC: put(o, D::is_member((M)member, j0)); return true; \
            case FREE: put(o, pi::is_member((M)member, i0)); return true; case FREEDEC: put(o, pi::is_member((M)member, j0)); return true; default: break; } break;
            switch (mt) { case ref::TF: MEM(float) case ref::TD: MEM(double) default: MEM(long double) }
            break; }
#endif
        default: break;
        }
        return false;
    });
}
}
