// Shared by the *_again harnesses: callbacks that call the library themselves, that throw, and predicates that give numbers.
#pragma once
#include "h.h"
#include <functional>
#include <stdexcept>
// callbacks of one and the same type, so that a call from inside a callback runs the same instantiation as the outer call
using PredA = std::function<bool(const Array &, uint32_t)>;
using PredD = std::function<bool(double, uint32_t)>;
using PredAA = std::function<bool(const Array &, const Array &, uint32_t)>;
using PredAA0 = std::function<bool(const Array &, const Array &)>;
// an item as an Array, whichever way the callback received it
inline Array as_item(double x) { return Array{x}; }
inline Array as_item(const Array &x) { return x; }
inline Array keep_where(const Array &v, uint32_t k, const std::vector<uint32_t> &t, bool when) {
    Array r;
    for (uint32_t i = 0; i < t.size(); i++) if ((t[i] != 0) == when) r = cat(r, item_of(v, k, i));
    return r;
}
// which items are selected (each decided, so that the rest of the path is concrete)
inline std::vector<uint32_t> decided(const char *name, uint32_t n) {
    std::vector<uint32_t> t(n);
    for (auto &x : t) x = (uint32_t)sx_choose(name, 0, 1);
    return t;
}
// arbitrary numbers, any of which but 0 means "holds"
inline std::vector<uint32_t> truths(uint32_t n) {
    std::vector<uint32_t> t(n);
    for (auto &x : t) x = sx_u32("t");
    return t;
}
