#include <any>
#include <bitset>
#include <queue>
#include <span>
#include <valarray>
#include <variant>
#include "../harness/h.h"
#include <algorithm>
#include <numeric>
#include <ranges>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <optional>
#include <variant>
#include <sstream>
#include <iomanip>
#include <memory>
#include <functional>
#include <array>
#include <deque>
#include <list>
#include <queue>
#include <span>
#include <string_view>
#include <bitset>
#include <tuple>
#include <iterator>
#include <charconv>
#include <mutex>
#include <atomic>
#include <any>
#include <valarray>
#include <random>
#include <complex>
#include <numbers>
using namespace df;
SX_ENTRY(algo, "") {
    Array v = sx_vec("v", 4);
    for (double x : v) sx_assume(!std::isnan(x));
    Array w = v;
    std::stable_sort(w.begin(), w.end());
    Array z = v;
    std::sort(z.begin(), z.end(), std::less<>());
    for (int i = 0; i < 4; i++) sx_assert(w[i] == z[i], "sorts agree");
    std::vector<size_t> idx(4);
    std::iota(idx.begin(), idx.end(), 0);
    std::stable_sort(idx.begin(), idx.end(), [&](size_t a, size_t b) { return v[a] < v[b]; });
    for (int i = 0; i < 4; i++) sx_assert(v[idx[i]] == z[i], "index sort");
    auto [lo, hi] = std::minmax_element(v.begin(), v.end());
    sx_assert(*lo == z[0] && *hi == z[3], "minmax_element");
    std::nth_element(v.begin(), v.begin() + 1, v.end());
    sx_assert(v[1] == z[1], "nth");
    std::partial_sort(w.begin(), w.begin() + 2, w.end());
    std::rotate(w.begin(), w.begin() + 1, w.end());
    std::reverse(w.begin(), w.end());
    auto it = std::stable_partition(v.begin(), v.end(), [](double x) { return x > 0; });
    (void)it;
    auto e = std::remove_if(w.begin(), w.end(), [](double x) { return x > 0; });
    w.erase(e, w.end());
    std::ranges::sort(v);
    sx_assert(std::is_sorted(v.begin(), v.end()), "sorted");
    sx_assert(std::ranges::equal(v, z), "equal");
    std::make_heap(v.begin(), v.end());
    std::sort_heap(v.begin(), v.end());
    std::inplace_merge(z.begin(), z.begin() + 2, z.end());
}
SX_ENTRY(nums, "") {
    Array v = sx_vec("v", 5);
    double s = std::accumulate(v.begin(), v.end(), 0.0), t = 0;
    for (double x : v) t += x;
    sx_assert_num(s, t, "accumulate");
    double ip = std::inner_product(v.begin(), v.end(), v.begin(), 0.0);
    (void)ip;
    double r = std::reduce(v.begin(), v.end(), 0.0);
    (void)r;
    double tr = std::transform_reduce(v.begin(), v.end(), v.begin(), 0.0);
    (void)tr;
    Array o;
    std::transform(v.begin(), v.end(), std::back_inserter(o), [](double x) { return x * 2; });
    std::partial_sum(v.begin(), v.end(), o.begin());
    std::adjacent_difference(v.begin(), v.end(), o.begin());
    sx_assert(std::count_if(v.begin(), v.end(), [](double x) { return x > 0; }) <= 5, "count");
    sx_assert(std::all_of(v.begin(), v.end(), [](double) { return true; }), "all");
    std::valarray<double> va(v.data(), 5);
    double q = va.sum();
    (void)q;
    double f = std::fma(v[0], v[1], v[2]) + std::hypot(v[0], v[1]) + std::hypot(v[0], v[1], v[2]) + std::floor(v[0]) + std::trunc(v[1]) + std::ceil(v[1]) + std::round(v[2]) + std::nearbyint(v[2]) + std::fmin(v[0], v[1]) + std::fmax(v[0], v[1]) + std::copysign(1.0, v[0]) + std::pow(v[0], 2) + std::pow(v[0], 2.0) + std::fmod(v[1], 3.0) + std::remainder(7.0, 3.0) + std::cbrt(v[0]) + std::atan2(v[0], v[1]) + std::modf(v[0], &s) + std::fdim(v[0], v[1]) + std::log(std::abs(v[0]) + 1);
    (void)f;
    sx_assume(v[0] > -100 && v[0] < 100);
    long l = std::lround(v[0]) + std::lrint(v[0]) + std::llround(v[0]);
    (void)l;
    sx_assert(std::signbit(-1.0) && std::isfinite(1.0) && !std::isinf(1.0), "class");
    sx_assert(std::fpclassify(v[0]) >= 0, "class");
    int ex;
    (void)std::frexp(3.0, &ex);
    (void)std::ldexp(v[0], 2);
    (void)std::clamp(v[0], 0.0, 1.0);
    (void)std::lerp(v[0], v[1], 0.5);
    (void)std::midpoint(v[0], v[1]);
}
SX_ENTRY(cont, "") {
    std::map<std::string, int> m{{"b", 2}, {"a", 1}};
    std::unordered_map<std::string, Serie> um;
    um.emplace("x", Serie(1, Array{1, 2}));
    um["y"] = Serie(2, Array{1, 2});
    um.try_emplace("z", Serie());
    sx_assert(um.size() == 3 && um.find("x") != um.end() && um.count("q") == 0 && um.contains("z"), "unordered");
    um.erase("x");
    um.insert_or_assign("y", Serie());
    std::unordered_set<uint32_t> us{1, 2, 3};
    std::set<double> st{3, 1, 2};
    std::set<std::string> ss{"p", "q"};
    sx_assert(*st.begin() == 1 && us.count(2), "set");
    std::multimap<int, int> mm{{1, 2}, {1, 3}};
    sx_assert(mm.count(1) == 2, "mm");
    std::deque<double> dq{1, 2};
    dq.push_front(0);
    dq.pop_back();
    std::list<int> li{3, 1, 2};
    li.sort();
    li.remove(1);
    std::priority_queue<double> pq;
    pq.push(1); pq.push(3); pq.push(2);
    sx_assert(pq.top() == 3, "pq");
    std::queue<int> qq; qq.push(1);
    std::optional<Serie> op;
    op = Serie(1, Array{1});
    op.reset();
    std::variant<double, Array> va = 1.0;
    va = Array{1, 2};
    sx_assert(std::visit([](auto &&x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) return 1; else return 2; }, va) == 2, "visit");
    std::shared_ptr<Serie> sp = std::make_shared<Serie>(1, Array{1});
    std::weak_ptr<Serie> wp = sp;
    auto up = std::make_unique<Serie>(1, Array{1});
    sx_assert(wp.lock() == sp && up, "ptr");
    std::array<double, 3> ar{1, 2, 3};
    ar.fill(0);
    std::span<double> sn(ar);
    sx_assert(sn.size() == 3, "span");
    std::bitset<8> bs(5);
    sx_assert(bs.count() == 2, "bitset");
    std::any an = 3;
    sx_assert(std::any_cast<int>(an) == 3, "any");
    std::vector<bool> vb(10, false);
    vb[3] = true;
    sx_assert(std::count(vb.begin(), vb.end(), true) == 1, "vb");
    std::vector<std::vector<double>> vv(3, Array(2, 1.0));
    vv.insert(vv.begin() + 1, Array{1});
    vv.emplace_back(3);
    vv.erase(vv.begin());
    vv.resize(1);
    vv.shrink_to_fit();
    std::vector<std::pair<double, size_t>> vp;
    vp.emplace_back(2.0, 1); vp.emplace_back(1.0, 0);
    std::sort(vp.begin(), vp.end());
    auto [a, b] = std::tie(vp[0].first, vp[0].second);
    (void)a; (void)b;
    std::function<double(double)> f = [](double x) { return x; };
    auto g = std::bind(f, std::placeholders::_1);
    sx_assert(g(2) == 2, "bind");
    sx_assert(std::invoke(f, 3) == 3, "invoke");
    sx_assert(std::apply([](int x, int y) { return x + y; }, std::make_tuple(1, 2)) == 3, "apply");
    std::complex<double> c(1, 2);
    c *= c;
}
SX_ENTRY(strs, "") {
    std::string s = "abc";
    s += "def"; s.append(2, 'x'); s.insert(0, "q"); s.replace(0, 1, "r"); s.erase(1, 1);
    sx_assert(s.find("def") != std::string::npos && s.rfind('x') == s.size() - 1 && s.substr(0, 2).size() == 2 && s.compare("zz") < 0, "string");
    sx_assert(s.starts_with("r") && s.ends_with("x"), "with");
    std::string_view sv = s;
    sv.remove_prefix(1);
    std::string u(sv);
    sx_assert(u.size() + 1 == s.size(), "sv");
    sx_assert(std::to_string(12) == "12" && std::stoi("12") == 12 && std::stod("1.5") == 1.5, "conv");
    std::string k = std::string("a") + std::to_string(3u) + "b";
    sx_assert(k == "a3b", "cat");
    char buf[16];
    auto r = std::to_chars(buf, buf + 16, 123);
    sx_assert(r.ptr - buf == 3, "to_chars");
    int val = 0;
    std::from_chars(buf, r.ptr, val);
    sx_assert(val == 123, "from_chars");
    try { throw std::out_of_range("x" + std::to_string(1)); } catch (const std::out_of_range &e) { sx_assert(std::string(e.what()) == "x1", "what"); }
    try { std::vector<int>().at(3); } catch (const std::exception &) {}
    std::string q = "b,a,c";
}
SX_ENTRY(rang, "") {
    Array v{1, 2, 3, 4};
    double t = 0;
    for (double x : v | std::views::filter([](double y) { return y > 1; }) | std::views::transform([](double y) { return y * 2; })) t += x;
    sx_assert(t == 18, "views");
    for (int i : std::views::iota(0, 3)) t += i;
    for (double x : v | std::views::drop(1) | std::views::take(2) | std::views::reverse) t += x;
    sx_assert(t == 26, "views");
    std::mutex m;
    { std::lock_guard<std::mutex> l(m); std::unique_lock<std::mutex> l2(m, std::defer_lock); }
    std::atomic<int> a{0};
    a++; a.fetch_add(2);
    sx_assert(a.load() == 3, "atomic");
    static const std::vector<int> st = {1, 2, 3};
    sx_assert(st.size() == 3, "static");
    thread_local int tl = 4;
    sx_assert(++tl == 5, "tl");
    std::call_once(*new std::once_flag, [] {});
    std::mt19937 g(3);
    std::normal_distribution<double> nd(0, 1);
    (void)nd(g);
    std::shuffle(v.begin(), v.end(), g);
}
#include <format>
#include <iomanip>
#include <sstream>
#include <forward_list>
SX_ENTRY(sstr, "") {
    uint32_t n = sx_u32("n");
    sx_assume(n < 5);
    std::ostringstream o;
    o << "index " << n << ">=" << 3 << ' ' << std::string("x") << std::setprecision(3) << 1.5 << std::fixed << std::endl;
    std::string s = o.str();
    sx_assert(s.find("index ") == 0, "text");
    std::stringstream p;
    p << "a" << 12;
    sx_assert(p.str() == "a12", "text");
    p.str("");
    p << 'b' << 3u;
    p.precision(4);
    sx_assert((bool)p, "good");
    sx_assert(std::move(p).str() == "b3", "text");
    std::ostringstream q("start", std::ios_base::ate);
    try { throw std::invalid_argument((std::ostringstream() << "v" << 7).str()); } catch (const std::exception &e) { sx_assert(std::string(e.what()) == "v7", "what"); }
    std::cout.precision(3);
    std::cerr << std::setw(4) << 12 << std::boolalpha << true;
}
SX_ENTRY(fmts, "") {
    sx_assert(std::format("{}-{}", "a", 12) == "a-12", "format");
    std::string s = std::format("{} must be < {}", 3u, size_t(4));
    sx_assert(s == "3 must be < 4", "format");
    std::string name = "U";
    sx_assert(std::format("{}{}", name, 1) == "U1", "format");
}
SX_ENTRY(fmtv, "") {
    uint32_t n = sx_u32("n");
    sx_assume(n < 500);
    double d = sx_f64("d");
    sx_assert(!std::format("{} {}", n, d).empty(), "format");
}
SX_ENTRY(more, "") {
    auto r = std::div(17, 5);
    sx_assert(r.quot == 3 && r.rem == 2, "div");
    auto l = std::div(17l, -5l);
    sx_assert(l.quot == -3 && l.rem == 2, "ldiv");
    std::forward_list<int> fl{1, 2};
    fl.push_front(0);
    sx_assert(std::distance(fl.begin(), fl.end()) == 3, "fl");
    double x = sx_f64("x"), y = sx_f64("y");
    sx_assume((int)(x == x) & (int)(y == y));
    auto [a, b] = std::minmax({x, y});
    sx_assert(a <= b, "minmax");
    sx_assert(std::clamp(x, 0.0, 1.0) <= 1.0, "clamp");
    std::valarray<double> va(3);
    va = 2.0;
    sx_assert(va.sum() == 6, "valarray");
    std::span<const double> sp(&va[0], 3);
    sx_assert(sp.subspan(1).size() == 2, "span");
    std::any an = 3;
    sx_assert(std::any_cast<int>(an) == 3, "any");
    std::variant<double, Array> v = Array{1, 2};
    double t = std::visit([](const auto &q) -> double { if constexpr (std::is_same_v<std::decay_t<decltype(q)>, double>) return q; else return q.size(); }, v);
    sx_assert(t == 2, "variant");
    std::bitset<16> bs(5);
    sx_assert(bs.count() == 2, "bitset");
    std::string_view sv = "abc.def";
    sx_assert(sv.substr(0, sv.find('.')) == "abc", "sv");
    sx_assert(std::lerp(0.0, 2.0, 0.5) == 1, "lerp");
    sx_assert(std::midpoint(1u, 3u) == 2, "midpoint");
    sx_assert(std::hypot(3.0, 4.0) == 5, "hypot");
    sx_assert(std::fma(2.0, 3.0, 1.0) == 7, "fma");
    std::priority_queue<double> pq;
    pq.push(x); pq.push(y);
    sx_assert(pq.top() >= x, "pq");
    std::set<double> st{x, y};
    sx_assert(st.count(x) == 1, "set");
    std::unordered_map<double, int> um;
    um[x] = 1; um[y] = 2;
    sx_assert(um.at(y) == 2, "um");
    std::unordered_map<uint64_t, int> ui;
    ui[sx_u64("k")] = 4; ui[5] = 6;
    sx_assert(ui.at(5) == 6, "ui");
    std::weak_ptr<int> w;
    { auto sp2 = std::make_shared<int>(4); w = sp2; sx_assert(w.lock() != nullptr, "weak"); }
    sx_assert(w.expired(), "weak");
    Array z{3, 1, 2};
    std::ranges::sort(z, std::greater{});
    sx_assert(z[0] == 3 && std::ranges::is_sorted(z, std::greater<>{}), "ranges sort");
    std::nth_element(z.begin(), z.begin() + 1, z.end());
    sx_assert(z[1] == 2, "nth");
    Array acc(3);
    std::partial_sum(z.begin(), z.end(), acc.begin());
    std::exclusive_scan(z.begin(), z.end(), acc.begin(), 0.0);
    sx_assert(std::reduce(z.begin(), z.end()) == 6, "reduce");
    sx_assert(std::transform_reduce(z.begin(), z.end(), z.begin(), 0.0) == 14, "tr");
    std::rotate(z.begin(), z.begin() + 1, z.end());
    std::inplace_merge(z.begin(), z.begin() + 1, z.end());
    std::iota(z.begin(), z.end(), 1);
    sx_assert(std::accumulate(z.begin(), z.end(), 0.0) == 6, "iota");
}
#include <future>
#include <thread>
#include <shared_mutex>
#include <condition_variable>
SX_ENTRY(threads, "") {
    static std::once_flag once, bad;
    int n = 0;
    for (int i = 0; i < 3; i++) std::call_once(once, [&](int k) { n += k; }, 5);
    sx_assert(n == 5, "once");
    int tries = 0;
    for (int i = 0; i < 3; i++) try { std::call_once(bad, [&] { if (++tries < 2) throw std::runtime_error("x"); }); } catch (const std::exception &) {}
    sx_assert(tries == 2, "once after a throw");
    std::shared_mutex sm;
    { std::shared_lock l(sm); n++; }
    { std::unique_lock l(sm); n++; }
    { std::scoped_lock l(sm); n++; }
    sx_assert(n == 8, "locks");
    double x = sx_f64("x");
    auto f = std::async(std::launch::async, [x] { return x + 1; });
    sx_assert_num(f.get(), x + 1, "async");
    auto d = std::async([x] { return x + 2; });
    sx_assert_num(d.get(), x + 2, "async default");
    std::packaged_task<double(double)> pt([](double y) { return y * 2; });
    auto pf = pt.get_future();
    std::thread t(std::move(pt), x);
    t.join();
    sx_assert_num(pf.get(), x * 2, "packaged");
    std::atomic<int> c{0};
    std::vector<std::thread> w;
    for (int i = 0; i < 3; i++) w.emplace_back([&c, i] { c += i; });
    while (c.load() != 3) std::this_thread::yield();
    for (auto &q : w) q.join();
    // a small pool: workers first, jobs afterwards
    std::mutex m; std::condition_variable cv; std::deque<int> jobs; bool stop = false; int sum = 0;
    std::thread worker([&] { for (;;) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return stop || !jobs.empty(); }); if (jobs.empty()) return; sum += jobs.front(); jobs.pop_front(); } });
    for (int i = 1; i < 4; i++) { std::lock_guard<std::mutex> l(m); jobs.push_back(i); cv.notify_one(); }
    { std::lock_guard<std::mutex> l(m); stop = true; cv.notify_all(); }
    worker.join();
    sx_assert(sum == 6, "pool");
}
