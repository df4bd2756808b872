#ifndef VERIF_MON_MISC_HPP
#define VERIF_MON_MISC_HPP
#include "mon.hpp"
namespace mon {
bool gen_P14(Ctx&, Case&); void judge_P14(Ctx&, Case const&);
bool gen_P15(Ctx&, Case&); void judge_P15(Ctx&, Case const&);
bool gen_P26(Ctx&, Case&); void judge_P26(Ctx&, Case const&);
// a random interval operation case: returns the form, sets bad if an operand is ill-formed (mon_interval.cpp)
int interval_case(Ctx&, Case&, bool& bad);
// a small text that certainly is / is not an interval literal
std::string text_case(Rng&, bool& ok);
}
namespace lib {
int flagapi_clear(); int flagapi_set_cwd(int v, bool by_ref); int flagapi_signal(int which, int& ret); int flagapi_bits(int x, int y); int flagapi_queries(); int flagapi_withdraw(int v, bool traps);
int flagapi_text(int form, std::string const&); int flagapi_stream(int form, std::string const&, bool& failed);
}
#endif
