// P21: one literal of the given kind and length is read; a separate process, because it may exhaust the stack.
#include "lib_impl.hpp"
#include <sstream>
#include <cstdio>
#include <cstdlib>
int main(int argc, char** argv) {
    int kind = atoi(argv[1]); size_t n = strtoul(argv[2], nullptr, 10); std::string s;
    switch (kind) {
    case 0: s = "[" + std::string(n, '1') + "]"; break;
    case 1: s = "[1," + std::string(n, ' ') + "2]"; break;
    case 2: s = "[0." + std::string(n, '1') + ",1]"; break;
    case 3: s = "1." + std::string(n, '1') + "?7"; break;
    case 4: s = "[0x1." + std::string(n, '1') + "p-3,1]_com"; break;
    default: s = std::string(n, '['); break;
    }
    if (argc > 3) { std::istringstream i(s); lib::DT<double> x; i >> x; printf("%d %d\n", (int)i.fail(), (int)p1788::exception::state()); }
    else { lib::DT<double> x(s); printf("%d %d\n", (int)p1788::infsup::decoration(x), (int)p1788::exception::state()); }
}
