// Reference grammar of the wire format, independent of the library.
#pragma once
#include "core.h"

namespace sim {

// Reference grammar of the wire format: the type of region a byte string may
// be accepted as, or 0 if the format makes the damage detectable.
inline int grammar(std::uint8_t const * p, size_t n, int depth = 0) {
    if (n < 1 || depth > 3000) return 0;
    auto le = [](std::uint8_t const * q) { u64 v = 0; for (int i = 7; i >= 0; --i) v = v << 8 | q[i]; return v; };
    switch (p[0]) {
        case 'b': return n == 33 ? 'b' : 0;
        case 'c': return n == 41 ? 'c' : 0;
        case 'e': return n == 113 ? 'e' : 0;
        case 'p': return n >= 73 && (n - 1) % 24 == 0 ? 'p' : 0;
        case 'u': case 'i': {
            size_t at = 1;
            for (int k = 0; k < 2; ++k) {
                if (n - at < 8) return 0;
                u64 len = le(p + at);
                at += 8;
                if (len > n - at) return 0;
                if (!grammar(p + at, len, depth + 1)) return 0;
                at += len;
            }
            return at == n ? p[0] : 0;
        }
    }
    return 0;
}

struct Buf {                      // exactly n bytes, so that any overrun is seen
    std::uint8_t * p;
    size_t n;
    explicit Buf(Bytes const & b) : p(b.empty() ? new std::uint8_t[1] : static_cast<std::uint8_t *>(::operator new(b.size()))), n(b.size()) { if (n) std::memcpy(p, b.data(), n); }
    ~Buf() { if (n) ::operator delete(p); else delete[] p; }
    Buf(Buf const &) = delete;
};

} // namespace sim
