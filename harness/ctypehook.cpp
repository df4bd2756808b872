// Precondition of the functions of <cctype>: an unsigned char or EOF (anything else is undefined).
#include <cstdio>
#include <cstdlib>
#include <ctype.h>
namespace {
void check(char const* fn, int c) { if (c < -1 || c > 255) { std::fprintf(stderr, "undefined behaviour: %s(%d), the argument is neither an unsigned char nor EOF\n", fn, c); std::abort(); } }
}
#define CLASS(fn, bit) extern "C" int fn(int c) noexcept { check(#fn, c); return (*__ctype_b_loc())[c] & (unsigned short)bit; }
CLASS(isspace, _ISspace) CLASS(isdigit, _ISdigit) CLASS(isalpha, _ISalpha) CLASS(isalnum, _ISalnum) CLASS(isxdigit, _ISxdigit)
CLASS(isupper, _ISupper) CLASS(islower, _ISlower) CLASS(ispunct, _ISpunct) CLASS(isprint, _ISprint) CLASS(isgraph, _ISgraph) CLASS(iscntrl, _IScntrl)
extern "C" int tolower(int c) noexcept { check("tolower", c); return (*__ctype_tolower_loc())[c]; }
extern "C" int toupper(int c) noexcept { check("toupper", c); return (*__ctype_toupper_loc())[c]; }
