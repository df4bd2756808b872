// One translation unit of a program that uses the library in several of them (P24).
#ifndef VERIF_MTU_HPP
#define VERIF_MTU_HPP
#include "lib_text.hpp"
#include "lib_red.hpp"
#include <string>
namespace mtu {
typedef bool (*SameFn)(int, int, lib::Arg const*, int, lib::Out&, bool, ld, int);
struct Unit {
    const char* name;
    void (*manip)(std::ostream&, libtext::Manip);
    void (*write)(std::ostream&, int, int, bool, lib::Arg const&, lib::Out&);
    void (*write_dec)(std::ostream&, int, lib::Out&);
    void (*write_ovl)(std::ostream&, int, lib::Out&);
    void (*read)(std::istream&, int, int, bool, lib::Arg&, lib::Out&);
    void (*read_dec)(std::istream&, int&, lib::Out&);
    void (*construct)(int, int, bool, std::string const&, lib::Out&);
    int (*flagapi_clear)(); int (*flagapi_set_cwd)(int, bool); int (*flagapi_signal)(int, int&); int (*flagapi_queries)();
    int (*get_flags)(); void (*set_flags)(int); int (*get_trap)();
    ld (*reduce)(int, int, int, int, std::vector<ld> const&, std::vector<ld> const&, bool&, int&);
    void (*two_sum)(int, ld, ld, ld&, ld&, int&);
    SameFn same_d[4];
    std::string const& (*early)();          // what this unit saw during its static initialisation
    std::string (*late)();                  // the same actions performed now
};
Unit const* unit(int i);                    // mon_mtu.cpp
}
#endif
