// One randomly chosen action on any part of the library; everything it observes goes into a string.
// Uses no state of the harness besides its arguments, so that it can run in any thread.
#ifndef VERIF_STEPS_HPP
#define VERIF_STEPS_HPP
#include "mon.hpp"
namespace mon {
enum StepKind { S_OP, S_CONSTRUCT, S_WRITE, S_READ, S_TEXT, S_REDUCE, S_TWO_SUM, S_FLAGS, S_SHARED, S_DECORATION, S_KINDS };
inline const char* step_name(int k) { static const char* n[] = {"operations", "constructions", "intervals written", "intervals read", "text constructors", "reductions", "error-free sums", "flag and trap accesses", "accesses to shared constants, setup and teardown", "decorations written and read"}; return n[k]; }
struct Step { int kind; std::string what, seen; };
// `traps`: the action may run with exceptions enabled and may change them
void step(Rng& r, Step& s, bool traps);
// from mon_text.cpp
void text_write(Rng&, std::string& what, std::string& seen);
void text_read(Rng&, std::string& what, std::string& seen);
void text_construct(Rng&, std::string& what, std::string& seen);
void text_decoration(Rng&, std::string& what, std::string& seen);
std::string any_literal(Rng&, int t, bool huge);
// from mon_misc.cpp: a random construction
bool construct_step(Rng&, std::string& what, std::string& seen);
}
namespace lib {
void shared_setup();                        // creates the shared constants
std::string shared_step(int which, int i, int j);
enum { SHARED_OPS = 13, SHARED_OBJECTS = 10 };
}
#endif
