// Force-included for the harnesses that call the library's random generator: while sx_rng_on is set,
// every word std::mt19937 gives is an arbitrary one (a symbolic variable in the engine, the value of
// the counterexample in a native replay). Otherwise it is the generator of libstdc++.
#pragma once
#include <random>
#include "sx.h"
inline bool sx_rng_on = false;
inline void sx_rng(bool on) { sx_rng_on = on; }
template <> inline std::mt19937::result_type std::mt19937::operator()() {
    if (sx_rng_on) return sx_u32("rng");
    if (_M_p >= state_size) _M_gen_rand();
    result_type z = _M_x[_M_p++];
    z ^= (z >> 11) & 0xffffffffu;
    z ^= (z << 7) & 0x9d2c5680u;
    z ^= (z << 15) & 0xefc60000u;
    z ^= z >> 18;
    return z;
}
