// Interface of one node: a complete build of the library under its own name.
#pragma once
#include "core.h"
#include "gen.h"

namespace sim {
struct View {           // what a node says about a region
    int type = 0;
    u64 value = 0, answers = 0;
    Bytes bytes;        // its encoding
};
struct NodeApi {
    char const * name;
    u64 (*make)(Spec const & s);                               // 0: arguments rejected
    u64 (*decode)(std::uint8_t const * p, size_t n, int how);  // 0: rejected
    u64 (*compose)(u64 a, u64 b, int kind);
    void (*view)(u64 h, View & v);
    bool (*wireMatches)(u64 h, std::uint8_t const * p, size_t n, std::string & why);
    bool (*equalToSpec)(u64 h, Spec const & s);
    void (*forget)(u64 h);      // 0: everything (restart)
};
}
