#include "h.h"
#include <dataframe/Dataframe.h>
using namespace df;
static void check_reads(int k, uint32_t n) {
    Array v = sx_vec("v", (size_t)k * n);
    Serie s(k, v);
    uint32_t i = sx_u32("index");
    uint32_t what = (uint32_t)sx_choose("what", 0, 3);
    double x = 0;
    Array a;
    int o;
    if (what == 0) o = sx_outcome([&] { x = s.scalar(i); });
    else if (what == 1) o = sx_outcome([&] { x = s.get<double>(i); });
    else if (what == 2) o = sx_outcome([&] { a = s.value(i); });
    else o = sx_outcome([&] { a = s.get<Array>(i); });
    uint32_t limit = what < 2 ? (uint32_t)k * n : n;
    sx_assert(o == (i < limit ? 0 : 1), "reading returns inside the range and throws invalid_argument outside");
    if (i < limit) {
        i = (uint32_t)sx_pick(i);
        if (what < 2) sx_assert_same(x, v[i], "scalar read returns the value stored at that place");
        else {
            sx_assert(a.size() == (size_t)k, "an item has itemSize components");
            for (int j = 0; j < k; j++) sx_assert_same(a[j], v[(size_t)i * k + j], "item read returns the components stored at that place");
        }
    }
    same_serie(s, k, n, 3, v);
}
static void check_writes(int k, uint32_t n) {
    Array v = sx_vec("v", (size_t)k * n);
    uint32_t dim = sx_u32("dim");
    Serie s(k, v, dim);
    uint32_t i = sx_u32("index");
    uint32_t what = (uint32_t)sx_choose("what", 0, 3);
    double x = sx_f64("x");
    Array a = sx_vec("a", k);
    int o;
    if (what == 0) o = sx_outcome([&] { s.setScalar(i, x); });
    else if (what == 1) o = sx_outcome([&] { s.set(i, x); });
    else if (what == 2) o = sx_outcome([&] { s.setValue(i, a); });
    else o = sx_outcome([&] { s.set(i, a); });
    uint32_t limit = what < 2 ? (uint32_t)k * n : n;
    sx_assert(o == (i < limit ? 0 : 1), "writing returns inside the range and throws invalid_argument outside");
    if (i < limit) {
        i = (uint32_t)sx_pick(i);
        if (what < 2) v[i] = x;
        else for (int j = 0; j < k; j++) v[(size_t)i * k + j] = a[j];
    }
    same_serie(s, k, n, dim, v);
}
// BOUND read: itemSize 1,2,3,4,6,9, count 0..4, every 32-bit index, any values
SX_ENTRY(read, "shards=2") { Shape s = small_shape(0, 4); check_reads(s.k, s.n); }
// BOUND read_big: {1,64},{3,33},{7,9},{33,2}; every 32-bit index
SX_ENTRY(read_big, "") {
    static const Shape b[] = {{1, 64}, {3, 33}, {7, 9}, {33, 2}, {16, 5}};
    Shape s = b[sx_choose("shape", 0, 4)];
    check_reads(s.k, s.n);
}
// BOUND write: itemSize 1,2,3,4,6,9, count 0..4, every 32-bit index, any values
SX_ENTRY(write, "shards=2") { Shape s = small_shape(0, 4); check_writes(s.k, s.n); }
// BOUND write_big: {1,64},{3,33},{7,9},{33,2}; every 32-bit index
SX_ENTRY(write_big, "shards=2") {
    static const Shape b[] = {{1, 64}, {3, 33}, {7, 9}, {33, 2}, {16, 5}};
    Shape s = b[sx_choose("shape", 0, 4)];
    check_writes(s.k, s.n);
}
// BOUND write_wrong_size: itemSize 1..9, count 0..3, written item of 0..10 values, every 32-bit index
SX_ENTRY(write_wrong_size, "shards=2") {
    int k = (int)sx_choose("itemSize", 1, 9);
    uint32_t n = (uint32_t)sx_choose("count", 0, 3);
    uint32_t m = (uint32_t)sx_choose("written", 0, 10);
    sx_assume(m != (uint32_t)k);
    Array v = sx_vec("v", (size_t)k * n), a = sx_vec("a", m);
    Serie s(k, v);
    uint32_t i = sx_u32("index");
    int o = sx_choose("legacy", 0, 1) ? sx_outcome([&] { s.setValue(i, a); }) : sx_outcome([&] { s.set(i, a); });
    sx_assert(o == 1, "an item of the wrong size is rejected with invalid_argument");
    same_serie(s, k, n, 3, v);
}
// BOUND history: 3 writes (4 in the thorough tier) (whole items or single values) at arbitrary places of a {2,3} or {1,5} Serie, then every place is read
SX_ENTRY(history, "shards=4") {
    int k = sx_choose("vec", 0, 1) ? 2 : 1;
    uint32_t n = k == 2 ? 3 : 5;
    Array v = sx_vec("v", (size_t)k * n);
    Serie s(k, v);
    for (int t = 0; t < 3 + sx_thorough(); t++) {
        uint32_t p = (uint32_t)sx_choose("place", 0, k * n - 1);
        if (p % k == 0 && sx_choose("item", 0, 1)) {
            Array a = sx_vec("a", k);
            s.set(p / k, a);
            for (int j = 0; j < k; j++) v[p + j] = a[j];
        } else {
            double x = sx_f64("x");
            s.setScalar(p, x);
            v[p] = x;
        }
    }
    for (uint32_t i = 0; i < (uint32_t)k * n; i++) {
        sx_assert_same(s.scalar(i), v[i], "last value written");
        sx_assert_same(s.get<double>(i), v[i], "last value written");
    }
    for (uint32_t i = 0; i < n; i++) {
        Array a = s.value(i), b = s.get<Array>(i), c = s.get(i);
        for (int j = 0; j < k; j++) {
            sx_assert_same(a[j], v[i * k + j], "last item written");
            sx_assert_same(b[j], v[i * k + j], "last item written");
            sx_assert_same(c[j], v[i * k + j], "last item written");
        }
    }
}
// BOUND huge: 65541 items of 1 or 3 components; reads and writes at 0, 255, 256, 32768, 65535, 65536, the last place and past it (also by multiples of 65536)
SX_ENTRY(huge, "shards=2 max-steps=4000000000") {
    uint32_t k = sx_choose("vec!", 0, 1) ? 3 : 1, n = HUGE_N;
    Array v = huge_vec("v", k, n);
    Serie s((int)k, v);
    static const uint32_t at[] = {0, 255, 256, 257, 32768, 65535, 65536, 65537, HUGE_N - 1, HUGE_N, HUGE_N + 65536, 0xffffffffu, 0x80000000u};
    for (uint32_t i : at) {
        double x = sx_f64("x");
        Array item = sx_vec("item", k);
        int bad = i >= n ? 1 : 0, badv = i >= n * k ? 1 : 0;
        Array got;
        double y = 0;
        sx_assert(sx_outcome([&] { got = s.get<Array>(i); }) == bad, "reading an item is reported exactly outside the Serie");
        if (!bad) for (uint32_t j = 0; j < k; j++) sx_assert_same(got[j], v[(size_t)i * k + j], "the item stored");
        sx_assert(sx_outcome([&] { y = s.scalar(i); }) == badv, "reading a value is reported exactly outside the Serie");
        if (!badv) sx_assert_same(y, v[i], "the value stored");
        sx_assert(sx_outcome([&] { s.set(i, item); }) == bad, "writing an item is reported exactly outside the Serie");
        if (!bad) for (uint32_t j = 0; j < k; j++) v[(size_t)i * k + j] = item[j];
        sx_assert(sx_outcome([&] { s.setScalar(i, x); }) == badv, "writing a value is reported exactly outside the Serie");
        if (!badv) v[i] = x;
    }
    for (uint32_t i : at) { // the other ways to the same places
        double x = sx_f64("x");
        Array item = sx_vec("item", k), got;
        int bad = i >= n ? 1 : 0, badv = i >= n * k ? 1 : 0;
        double y = 0;
        sx_assert(sx_outcome([&] { got = s.value(i); }) == bad, "reading an item is reported exactly outside the Serie");
        if (!bad) for (uint32_t j = 0; j < k; j++) sx_assert_same(got[j], v[(size_t)i * k + j], "the item stored");
        sx_assert(sx_outcome([&] { y = s.get<double>(i); }) == badv, "reading a value is reported exactly outside the Serie");
        if (!badv) sx_assert_same(y, v[i], "the value stored");
        sx_assert(sx_outcome([&] { s.setValue(i, item); }) == bad, "writing an item is reported exactly outside the Serie");
        if (!bad) for (uint32_t j = 0; j < k; j++) v[(size_t)i * k + j] = item[j];
        sx_assert(sx_outcome([&] { s.set(i, x); }) == badv, "writing a value is reported exactly outside the Serie");
        if (!badv) v[i] = x;
    }
    for (uint32_t i = 0; i < n; i += 1024) { Array e = Array(k, (double)i); s.setValue(i, e); for (uint32_t j = 0; j < k; j++) v[(size_t)i * k + j] = e[j]; }
    huge_serie(s, k, n, 3, v);
}
// BOUND ragged: itemSize 2..4, 0..2 whole items and 1..3 further values that fill no item: every 32-bit index; those values are reached one by one only, whole items as ever
SX_ENTRY(ragged, "") {
    int k = (int)sx_choose("k", 2, 4);
    uint32_t n = (uint32_t)sx_choose("n", 0, 2), more = (uint32_t)sx_choose("more", 1, k - 1);
    Array v = sx_vec("v", (size_t)k * n + more), a = sx_vec("a", k);
    Serie s(k, v);
    uint32_t i = sx_u32("index");
    double x = sx_f64("x"), y = 0;
    Array b;
    int o;
    switch (sx_choose("what", 0, 3)) {
    case 0:
        o = sx_choose("legacy", 0, 1) ? sx_outcome([&] { b = s.value(i); }) : sx_outcome([&] { b = s.get<Array>(i); });
        sx_assert(o == (i < n ? 0 : 1), "whole items are read, others reported");
        if (i < n) { i = (uint32_t)sx_pick(i); sx_assert(b.size() == (size_t)k, "an item has itemSize components"); for (int j = 0; j < k; j++) sx_assert_same(b[j], v[(size_t)i * k + j], "item read"); }
        break;
    case 1:
        o = sx_choose("legacy", 0, 1) ? sx_outcome([&] { s.setValue(i, a); }) : sx_outcome([&] { s.set(i, a); });
        sx_assert(o == (i < n ? 0 : 1), "whole items are written, others reported");
        if (i < n) { i = (uint32_t)sx_pick(i); for (int j = 0; j < k; j++) v[(size_t)i * k + j] = a[j]; }
        break;
    case 2:
        o = sx_choose("legacy", 0, 1) ? sx_outcome([&] { y = s.scalar(i); }) : sx_outcome([&] { y = s.get<double>(i); });
        sx_assert((int)(i >= v.size()) <= o, "outside is reported");
        if (o == 0) { i = (uint32_t)sx_pick(i); sx_assert_same(y, v[i], "value read"); }
        else sx_assert(i >= (uint32_t)k * n, "values of whole items can be read");
        break;
    default:
        o = sx_choose("legacy", 0, 1) ? sx_outcome([&] { s.setScalar(i, x); }) : sx_outcome([&] { s.set(i, x); });
        sx_assert((int)(i >= v.size()) <= o, "outside is reported");
        if (o == 0) v[(uint32_t)sx_pick(i)] = x;
        else sx_assert(i >= (uint32_t)k * n, "values of whole items can be written");
    }
    sx_assert(s.count() == n && s.itemSize() == (uint32_t)k, "shape unchanged");
    same_values(s, v, "one place changed at most");
}
// BOUND too_many: itemSize 2..9 and 65536, every number of items whose values cannot be counted with 32 bits and whose product wraps around to at most 24: building, re-counting, creating in a Dataframe
SX_ENTRY(too_many, "shards=2") {
    int k = (int)sx_choose("itemSize#", 2, 10);
    if (k == 10) k = 65536;
    uint32_t n = sx_u32("count");
    sx_assume((uint64_t)n * (uint32_t)k > 0xFFFFFFFFull);
    sx_assume(n * (uint32_t)k <= 24);
    uint32_t how = (uint32_t)sx_choose("how", 0, 2);
    Array v = sx_vec("v", (size_t)(k < 10 ? k : 0));
    Serie s(k, v);
    Dataframe d;
    d.add("s", s);
    int o;
    if (how == 0) o = sx_outcome([&] { s = Serie(k, n); });
    else if (how == 1) o = sx_outcome([&] { s.reCount(n); });
    else o = sx_outcome([&] { d.create("t", (uint32_t)k, n); });
    sx_assert(o != 0, "more values than can be counted are reported");
    same_serie(s, k, k < 10 ? 1 : 0, 3, v);
    sx_assert(how != 2 || !d.contains("t"), "nothing is stored");
}
// BOUND too_many_any: itemSize 2..9, every number of items whose values cannot be counted with 32 bits: building and re-counting report it
SX_ENTRY(too_many_any, "") {
    int k = (int)sx_choose("itemSize", 2, 9);
    uint32_t n = sx_u32("count");
    sx_assume((uint64_t)n * (uint32_t)k > 0xFFFFFFFFull);
    Serie s(k, sx_vec("v", (size_t)k));
    int o = sx_choose("re", 0, 1) ? sx_outcome([&] { s.reCount(n); }) : sx_outcome([&] { Serie t(k, n); });
    sx_assert(o != 0, "more values than can be counted are reported");
    sx_assert(s.count() == 1 && s.asArray().size() == (size_t)k, "nothing is changed");
}
