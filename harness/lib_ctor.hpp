// Recorders for construction and conversion, one per result bound type (lib_ctor.cpp).
#ifndef VERIF_LIB_CTOR_HPP
#define VERIF_LIB_CTOR_HPP
#include "lib.hpp"
namespace lib {
enum CKind { C_NUM, C_NUMD, C_NUMDEC, C_COPY, C_COPYD, C_CONV, C_CONVD, C_PART, C_NEWDEC, C_SETDEC, C_DECPART, C_EMPTY, C_ENTIRE, C_EMPTYD, C_ENTIRED, C_NAI, C_DEFAULT, C_DEFAULTD, C_ASSIGN, C_ASSIGND, C_RNDD, C_RNDN, C_RNDU, C_HULL, C_HULLD, C_KINDS };
inline const char* ckind_name(int k) { static const char* n[] = {"numbers", "numbers-decorated", "numbers-and-decoration", "copy", "copy-decorated", "convert", "convert-decorated", "interval-part", "decorate", "set-decoration", "decoration-part", "empty", "entire", "empty-decorated", "entire-decorated", "nai", "default", "default-decorated", "assign", "assign-decorated", "convert_rndd", "convert_rndn", "convert_rndu", "convert_hull", "convert_hull-decorated"}; return n[k]; }
// form 0: flavor level, 1: public classes.  x: bounds (of type tl / tu) and decoration `x.dec`; dec: decoration argument
bool construct_f(int kind, int form, int tl, int tu, Arg const& x, int dec, Out& o, bool keep);
bool construct_d(int kind, int form, int tl, int tu, Arg const& x, int dec, Out& o, bool keep);
bool construct_l(int kind, int form, int tl, int tu, Arg const& x, int dec, Out& o, bool keep);
inline bool construct(int R, int kind, int form, int tl, int tu, Arg const& x, int dec, Out& o, bool keep = false) {
    return R == ref::TF ? construct_f(kind, form, tl, tu, x, dec, o, keep) : R == ref::TD ? construct_d(kind, form, tl, tu, x, dec, o, keep) : construct_l(kind, form, tl, tu, x, dec, o, keep);
}
}
#endif
