// Dispatch of recorded calls; compile with -DHAVE_MIXED when the mixed recorders are linked in.
#include "lib_impl.hpp"
#include <string>
namespace lib {
static const char* LN[] = {
#define X(n) #n,
    LIB_BOOL1(X) "is_nai", LIB_BOOL2(X) LIB_BOOL2P(X) "not_equal", LIB_NUM(X) "mid_rad", "overlap", "is_member",
#undef X
};
const char* op_name(int op) { return op < ref::OP_COUNT ? ref::op_name(op) : op > L_FIRST && op < L_COUNT ? LN[op - L_FIRST - 1] : "?"; }
int op_by_name(std::string const& s) { for (int i = 0; i < L_COUNT; ++i) if (s == op_name(i)) return i; return -1; }
int op_arity(int op) {
    if (op < ref::OP_COUNT) return ref::arity(op);
    switch (op) {
#define X(n) case L_##n:
    LIB_BOOL1(X) LIB_NUM(X)
    case L_is_nai: case L_mid_rad: case L_is_member: return 1;
    default: return 2;
    }
}
#undef X
#define DECL(F) bool F##0(int, int, Arg const*, int, Out&, bool, ld, int); bool F##1(int, int, Arg const*, int, Out&, bool, ld, int); bool F##2(int, int, Arg const*, int, Out&, bool, ld, int); bool F##3(int, int, Arg const*, int, Out&, bool, ld, int);
DECL(same_f) DECL(same_d) DECL(same_l)
int part_of(int op) {
    using namespace ref;
    if (op >= OP_COUNT) return 3;
    if (op <= OP_abs) return 0;
    if ((op >= OP_sqr_rev && op <= OP_pown_revx)) return 2;
    return 1;
}
#ifdef HAVE_MIXED
#define MDECL(F) bool F(int, int, int const*, Arg const*, int, Out&, bool);
MDECL(mixed_f0) MDECL(mixed_f1) MDECL(mixed_f2) MDECL(mixed_f3) MDECL(mixed_f4)
MDECL(mixed_d0) MDECL(mixed_d1) MDECL(mixed_d2) MDECL(mixed_d3)
MDECL(mixed_l0) MDECL(mixed_l1) MDECL(mixed_l2) MDECL(mixed_l3)
static bool mixed(int op, int form, int R, int const* t, Arg const* x, int p, Out& o, bool keep) {
    using namespace ref;
    static MixedFn tab[3][4] = {{mixed_f0, mixed_f1, mixed_f2, mixed_f3}, {mixed_d0, mixed_d1, mixed_d2, mixed_d3}, {mixed_l0, mixed_l1, mixed_l2, mixed_l3}};
    if (op_arity(op) == 3) return tab[R][3](op, form, t, x, p, o, keep);
    if (op >= OP_COUNT && op_arity(op) == 2) return mixed_f4(op, form, t, x, p, o, keep);
    if (op >= OP_COUNT || (op >= OP_sqr_rev && op <= OP_pown_revx)) return tab[R][1](op, form, t, x, p, o, keep);
    return tab[R][op_arity(op) == 1 ? 0 : 2](op, form, t, x, p, o, keep);
}
#endif
bool call(int op, int form, int R, int const* t, Arg const* x, int p, Out& o, bool keep, ld member, int mt) {
    int n = op_arity(op); bool same = true;
    bool cmpop = op >= ref::OP_COUNT && n == 2;             // no result type
    for (int i = 0; i < n; ++i) if (t[i] != (cmpop ? t[0] : R)) same = false;
    if (same) {
        typedef bool (*SameFn)(int, int, Arg const*, int, Out&, bool, ld, int);
        static SameFn tab[3][4] = {{same_f0, same_f1, same_f2, same_f3}, {same_d0, same_d1, same_d2, same_d3}, {same_l0, same_l1, same_l2, same_l3}};
        return tab[t[0]][part_of(op)](op, form, x, p, o, keep, member, mt);
    }
#ifdef HAVE_MIXED
    return mixed(op, form, R, t, x, p, o, keep);
#else
    return false;
#endif
}
int get_flags() { return px::state(); }
void clear_flags() { px::clear(); }
void set_flags(int f) { px::state() = px::exception_bits(f); }
int get_trap() { return px::get_throw_exception_cwd(); }
void set_trap(int f) { px::set_throw_exception_cwd(px::exception_bits(f)); }
}
