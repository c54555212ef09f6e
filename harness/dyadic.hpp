// Exact output of doubles for spec/Dyadic.tla.
#ifndef VF_DYADIC_HPP
#define VF_DYADIC_HPP
#include <cmath>
#include <string>
#include <vector>
namespace {
// ------------------------------------------------------------------ exact output of doubles
// [e, l1, l2, ...]: sum of l_k 8192^(e + k - 1); see spec/Dyadic.tla
void dy(std::string& o, double x) {
    if (x == 0.0) { o += "[0]"; return; }
    int ex;
    const double m = std::frexp(x, &ex);
    __int128 v = static_cast<long long>(std::ldexp(m, 53));
    ex -= 53;
    int e = ex >= 0 ? ex / 13 : -((-ex + 12) / 13);
    for (int k = ex - 13 * e; k > 0; --k) v *= 2;
    std::vector<int> l;
    while (v != 0 && v != -1) {
        const int r = static_cast<int>(v & 8191);
        l.push_back(r);
        v = (v - r) / 8192;
    }
    if (v == -1) {
        while (!l.empty() && l.back() == 8191) l.pop_back();
        l.push_back(-1);
    }
    std::size_t z = 0;
    while (l[z] == 0) { ++z; ++e; }
    o += "[" + std::to_string(e);
    for (; z < l.size(); ++z) o += "," + std::to_string(l[z]);
    o += "]";
}

template <class C, class F> void list(std::string& o, const C& c, F f) {
    o += "[";
    bool first = true;
    for (const auto& x : c) { if (!first) o += ","; first = false; f(o, x); }
    o += "]";
}
void ints(std::string& o, const std::vector<int>& v) { list(o, v, [](std::string& s, int x) { s += std::to_string(x); }); }
void nums(std::string& o, const std::vector<double>& v) { list(o, v, [](std::string& s, double x) { dy(s, x); }); }

} // namespace
#endif
