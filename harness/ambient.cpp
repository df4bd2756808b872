// Ambient settings of the process that the library must not depend on.
#include "lib.hpp"
#include <cfenv>
#include <climits>
#include <clocale>
namespace lib {
thread_local Ambient ambient;
static thread_local char g_point[2] = ".";
static const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
namespace {
struct Foreign : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\1"; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
}
std::locale const& foreign_locale() { static std::locale l(std::locale::classic(), new Foreign); return l; }
AmbientScope::AmbientScope() { if (ambient.locale) std::locale::global(foreign_locale()); if (ambient.fpu) fesetround(modes[ambient.fpu]); g_point[0] = ambient.point; }
AmbientScope::~AmbientScope() { if (ambient.locale) std::locale::global(std::locale::classic()); g_point[0] = '.'; int m = fegetround(); if (m != modes[ambient.fpu]) ambient.broken = true; if (m != FE_TONEAREST) fesetround(FE_TONEAREST); }
}
// stands in for the C library's: libmpfr asks it for the decimal point
extern "C" struct lconv* localeconv(void) noexcept {
    static thread_local struct lconv l; static char none[] = "";
    l.decimal_point = lib::g_point; l.thousands_sep = l.grouping = l.int_curr_symbol = l.currency_symbol = l.mon_decimal_point = l.mon_thousands_sep = l.mon_grouping = l.positive_sign = l.negative_sign = none;
    l.int_frac_digits = l.frac_digits = l.p_cs_precedes = l.p_sep_by_space = l.n_cs_precedes = l.n_sep_by_space = l.p_sign_posn = l.n_sign_posn = CHAR_MAX;
    return &l;
}
