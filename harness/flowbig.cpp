// Runs the toolbox on networks of realistic size and magnitude and records
// problem and results, every double exactly, for spec/FlowTrace.tla.
#include "nets.hpp"

namespace {

std::set<std::string> want;
bool w(const char* p) { return want.empty() || want.count(p); }
std::map<std::string, long long> counters;

bool fits(const Result& r, int n, const std::vector<int>& ids) {
    if (r.threw) return false;
    for (double t : r.tof) if (!std::isfinite(t)) return false;
    for (int id : ids)
        for (const auto* f : { &r.id.at(id).c, &r.id.at(id).t })
            for (const auto& q : *f) if (q.first < 0 || q.first >= n || !std::isfinite(q.second)) return false;
    return true;
}

// Times as they are before the bound cuts them (w = T t solves a linear system),
// for all cells with T > 0; zero elsewhere.  FlowTrace verifies them.
std::vector<double> uncut(const Problem& p, bool fwd, const std::vector<double>& T, bool cyc) {
    const int n = p.n;
    std::vector<std::vector<std::pair<int,double>>> in(n);
    std::vector<int> wait(n, 0);
    std::vector<std::vector<int>> out(n);
    std::vector<long double> tot(n, 0.0L);
    for (std::size_t k = 0; k < p.conns.size(); ++k) {
        int a = p.conns[k].first, b = p.conns[k].second;
        double f = 0; for (double x : p.flux[k]) f += x;
        if (a == b || f == 0.0) continue;
        if ((f < 0) == fwd) std::swap(a, b);
        in[b].emplace_back(a, std::fabs(f)); out[a].push_back(b); ++wait[b]; tot[b] += std::fabs(f);
    }
    for (const auto& x : p.wells) if (fwd ? x.rate > 0 : x.rate < 0) tot[x.cell] += std::fabs(x.rate);
    auto slow = [&](int c) { return tot[c] * (long double)MAXTOF < (long double)p.pv[c]; };
    std::vector<double> u(n, 0.0);
    if (!cyc) {
        std::vector<int> todo;
        for (int c = 0; c < n; ++c) if (!wait[c]) todo.push_back(c);
        while (!todo.empty()) {
            const int c = todo.back(); todo.pop_back();
            for (int d : out[c]) if (--wait[d] == 0) todo.push_back(d);
            if (!(T[c] > 0)) continue;
            long double s = (long double)p.pv[c] * T[c];
            for (const auto& e : in[c]) s += (long double)e.second * T[e.first] * u[e.first];
            u[c] = slow(c) ? MAXTOF : (double)(s / (tot[c] * T[c]));
        }
        return u;
    }
    std::vector<std::vector<long double>> A(n, std::vector<long double>(n + 1, 0.0L));
    for (int c = 0; c < n; ++c) {
        if (!(T[c] > 0) || slow(c)) { A[c][c] = 1.0L; A[c][n] = T[c] > 0 ? (long double)MAXTOF * T[c] : 0.0L; continue; }
        A[c][c] = 1.0L; A[c][n] = (long double)p.pv[c] * T[c] / tot[c];
        for (const auto& e : in[c]) A[c][e.first] -= (long double)e.second / tot[c];
    }
    for (int k = 0; k < n; ++k) {
        int m = k;
        for (int c = k + 1; c < n; ++c) if (std::fabs(A[c][k]) > std::fabs(A[m][k])) m = c;
        std::swap(A[m], A[k]);
        for (int c = k + 1; c < n; ++c) if (A[c][k] != 0.0L) {
            const long double q = A[c][k] / A[k][k];
            for (int j = k; j <= n; ++j) A[c][j] -= q * A[k][j];
        }
    }
    for (int k = n - 1; k >= 0; --k) {
        for (int j = k + 1; j < n; ++j) A[k][n] -= A[k][j] * A[j][n];
        A[k][n] /= A[k][k];
    }
    for (int c = 0; c < n; ++c) if (T[c] > 0) u[c] = (double)(A[c][n] / T[c]);
    return u;
}

// A result; cells in the order of key (for renumbered problems: the cell it came from).
void field(std::string& o, const std::map<int,double>& f, const std::vector<int>* back, const char* cn, const char* vn) {
    std::vector<std::pair<int,int>> order;      // (key, cell)
    for (const auto& q : f) order.emplace_back(back ? (*back)[q.first] : q.first, q.first);
    std::sort(order.begin(), order.end());
    std::vector<int> c; std::vector<double> v;
    for (const auto& q : order) { c.push_back(q.second); v.push_back(f.at(q.second)); }
    o += std::string("\"") + cn + "\":"; ints(o, c);
    o += std::string(",\"") + vn + "\":"; nums(o, v);
}
void oneID(std::string& o, int id, const Field& f, const std::vector<int>* back) {
    o += "{\"id\":" + std::to_string(id) + ",\"name\":\"" + name(id) + "\",";
    field(o, f.c, back, "cells", "T"); o += ",";
    field(o, f.t, back, "tcells", "t"); o += "}";
}
// Uncut times of everything reported, where the bound cuts something.
void uncutAll(std::string& o, const Problem& p, bool fwd, const Result& r, std::vector<int> ids, bool cyc) {
    std::sort(ids.begin(), ids.end());
    std::vector<double> sum(p.n, 0.0);
    o += "{\"ids\":[";
    bool first = true;
    for (int id : ids) {
        std::vector<double> T(p.n, 0.0);
        for (const auto& q : r.id.at(id).c) { T[q.first] = q.second; sum[q.first] += q.second; }
        if (!first) o += ","; first = false;
        nums(o, uncut(p, fwd, T, cyc));
    }
    o += "],\"g\":"; nums(o, uncut(p, fwd, sum, cyc)); o += "}";
}
void result(std::string& o, const Result& r, std::vector<int> ids, const std::vector<int>* back = nullptr) {
    std::sort(ids.begin(), ids.end());
    o += "{\"g\":"; nums(o, r.tof);
    o += ",\"starts\":";
    list(o, r.starts, [](std::string& s, const std::string& x) { s += "\"" + x + "\""; });
    o += ",\"ids\":";
    list(o, ids, [&](std::string& s, int id) { oneID(s, id, r.id.at(id), back); });
    o += "}";
}

// ------------------------------------------------------------------ other descriptions
struct Alt { Problem p; std::vector<int> perm; double lam, mu; };

Alt describe(const Problem& p, Rng& g, bool cap) {
    Alt a; a.p = p; a.perm = g.perm(p.n);
    if (g.below(4) == 0) for (int c = 0; c < p.n; ++c) a.perm[c] = c;
    a.lam = std::ldexp(1.0, std::vector<int>{ 0, 0, -50, 30, -90 }[g.below(5)]);
    a.mu = (a.lam == 1.0 || g.below(2)) ? a.lam : 1.0;
    if (a.lam < 1e-3 && a.mu == 1.0) a.mu = a.lam;         // would push everything to the bound
    (void) cap;
    Problem& q = a.p;
    const int ph = g.below(3) ? g.range(1, 9) : 1;
    q.conns.clear(); q.flux.clear(); q.phases = ph;
    auto put = [&](int x, int y, double f) {
        if (g.below(2)) { std::swap(x, y); f = -f; }
        std::vector<double> v(ph, 0.0);
        double rest = f;
        // halves of halves: sums are exact in any order
        for (int k = 0; k + 1 < ph; ++k) if (g.below(2)) { v[k] = rest / 2; rest /= 2; }
        v[ph - 1] = rest;
        if (ph > 1 && small(f) && g.below(2)) { const double z = double(g.range(-40, 40)); v[0] += z; v[ph - 1] -= z; }
        if (small(f)) g.shuffle(v);
        q.conns.emplace_back(a.perm[x], a.perm[y]); q.flux.push_back(v);
    };
    const bool par = g.below(2);
    for (std::size_t k = 0; k < p.conns.size(); ++k) {
        double f = 0; for (double x : p.flux[k]) f += x;
        f *= a.lam;
        if (par && g.below(2)) { put(p.conns[k].first, p.conns[k].second, f / 2); put(p.conns[k].first, p.conns[k].second, f / 4); put(p.conns[k].first, p.conns[k].second, f / 4); }
        else put(p.conns[k].first, p.conns[k].second, f);
    }
    for (int k = g.below(3); k > 0; --k) put(g.below(p.n), g.below(p.n), 0.0);
    const auto ord = g.perm((int)q.conns.size());
    auto cc = q.conns; auto ff = q.flux;
    for (std::size_t k = 0; k < ord.size(); ++k) { q.conns[k] = cc[ord[k]]; q.flux[k] = ff[ord[k]]; }
    for (auto& x : q.wells) { x.cell = a.perm[x.cell]; x.rate *= a.lam; }
    for (int c = 0; c < p.n; ++c) q.pv[a.perm[c]] = p.pv[c] * a.mu;
    return a;
}

bool capped(const Result& r) {
    for (const auto& e : r.id) for (const auto& t : e.second.t) if (t.second >= MAXTOF) return true;
    return false;
}

std::string makeRecord(long long idx, std::uint64_t seed) {
    Rng g(seed * 7919 + idx * 2654435761ull + 17);
    Net N = pickNet(idx, g);
    if (want.count("C06") && !N.cyc) N = g.below(4) == 0 ? slowPath(g, true, false) : g.below(3) == 0 ? dilute(g) : g.below(2) ? weak(g) : mixed(g);
    if ((want.count("C05") || want.count("C04")) && idx % 6 == 1) N = slowPath(g, g.below(3) != 0, false);
    if ((want.count("C04") || want.count("C05") || want.count("C06")) && idx % 12 == 7) N = slowTrace(g);
    Problem& p = N.p;
    if (p.conns.empty()) connect(p, 0, p.n - 1, 0.0);
    phases(p, g);
    units(p, g);

    auto fo = activeIDs(p, true), ro = activeIDs(p, false);
    g.shuffle(fo); g.shuffle(ro);
    Result f, r; FD::Solution *fs = nullptr, *rs = nullptr;
    auto compute = [&]() {
        auto box = makeBox(p);
        if (g.below(2)) { f = run(box, p, true, fo, g, &fs); r = run(box, p, false, ro, g, &rs); }
        else { r = run(box, p, false, ro, g, &rs); f = run(box, p, true, fo, g, &fs); }
    };
    bool threw = false; std::string what;
    try {
        compute();
        // With loops, times beyond the bound are avoided: see FlowTrace.
        for (int k = 0; N.cyc && !N.slow && k < 6 && (capped(f) || capped(r)); ++k) {
            for (auto& x : p.pv) x /= 64.0;
            compute();
        }
    }
    catch (const std::exception& e) { threw = true; what = e.what(); }
    bool fit = !threw && fits(f, p.n, fo) && fits(r, p.n, ro);

    std::string o = "{\"id\":" + std::to_string(idx) + ",\"kind\":\"" + N.kind + "\",\"cyc\":" + (N.cyc ? "1" : "0") + ",\"dil\":" + (N.dil ? "1" : "0") + ",\"cap\":" + (N.cyc && !N.slow ? "0" : "1");
    std::string body;
    if (fit) {
        body += ",\"f\":"; result(body, f, fo);
        body += ",\"r\":"; result(body, r, ro);
        const bool cut = (!N.cyc || N.slow) && (capped(f) || capped(r));
        body += std::string(",\"cut\":") + (cut ? "1" : "0");
        if (cut && (w("C04") || w("C05") || w("C06"))) {
            body += ",\"uf\":"; uncutAll(body, p, true, f, fo, N.cyc);
            body += ",\"ur\":"; uncutAll(body, p, false, r, ro, N.cyc);
            ++counters["uncut"];
        }
        if (w("C07")) {
            Problem q = p;
            for (auto& v : q.flux) for (auto& x : v) x = -x;
            for (auto& x : q.wells) x.rate = -x.rate;
            try {
                auto box = makeBox(q);
                const Result mf = run(box, q, true, ro, g), mr = run(box, q, false, fo, g);
                if (!fits(mf, p.n, ro) || !fits(mr, p.n, fo)) fit = false;
                else { body += ",\"mir\":{\"f\":"; result(body, mf, ro); body += ",\"r\":"; result(body, mr, fo); body += "}"; }
            }
            catch (const std::exception&) { fit = false; }
            ++counters["mirrored"];
        }
        if (w("C10") || w("C06")) {
            body += ",\"alt\":[";
            const int na = w("C10") && p.n < 300 ? 2 : 1;
            for (int k = 0; k < na && fit; ++k) {
                const Alt a = describe(p, g, !N.cyc);
                std::vector<int> back(p.n);
                for (int c = 0; c < p.n; ++c) back[a.perm[c]] = c;
                try {
                    auto box = makeBox(a.p);
                    const Result af = run(box, a.p, true, fo, g), ar = run(box, a.p, false, ro, g);
                    if (!fits(af, p.n, fo) || !fits(ar, p.n, ro)) { fit = false; break; }
                    if (k) body += ",";
                    body += "{\"lam\":"; dy(body, a.lam); body += ",\"mu\":"; dy(body, a.mu);
                    body += ",\"perm\":"; ints(body, a.perm);
                    if (w("C10")) { body += ",\"p\":"; problem(body, a.p); }
                    body += ",\"f\":"; result(body, af, fo, &back); body += ",\"r\":"; result(body, ar, ro, &back);
                    body += "}";
                    ++counters["descriptions"];
                }
                catch (const std::exception&) { fit = false; }
            }
            body += "]";
        }
        if (w("C08")) {
            body += ",\"alone\":{";
            for (int dir = 0; dir < 2 && fit; ++dir) {
                const auto& all = dir == 0 ? fo : ro;
                body += dir == 0 ? "\"f\":[" : ",\"r\":[";
                for (std::size_t k = 0; k < all.size() && k < (p.n > 900 ? 1 : 4); ++k) {
                    const int id = all[all.size() - 1 - k];
                    try {
                        // a toolbox that has held and computed something else before
                        Problem q = p;
                        // (with flow loops only such problems that are as well-conditioned as
                        // this one: changing single rates may leave a loop next to no feed)
                        const int how = g.below(4);
                        if (N.cyc && (how == 1 || how == 2)) {
                            const double x2 = how == 1 ? 2.0 : 0.5;
                            for (auto& v : q.flux) for (auto& x : v) x *= x2;
                            for (auto& x : q.wells) x.rate *= x2;
                        }
                        else switch (how) {
                        case 0: for (auto& v : q.flux) for (auto& x : v) x = -x; for (auto& x : q.wells) x.rate = -x.rate; break;
                        case 1: for (auto& v : q.flux) for (auto& x : v) x *= g.below(3); break;
                        case 2: g.shuffle(q.pv); q.wells.resize(1 + q.wells.size() / 2); break;
                        default: break;
                        }
                        auto box = makeBox(q);
                        if (g.below(4) && p.n < 900) for (int d : { 0, 1 }) {
                            auto ids = activeIDs(q, d == 0);
                            g.shuffle(ids);
                            run(box, q, d == 0, ids, g);
                        }
                        assignAll(box, p, g.below(6));
                        if (g.below(2) && p.n < 900) run(box, p, dir != 0, dir == 0 ? ro : fo, g);
                        const Result a = run(box, p, dir == 0, { id }, g);
                        if (!fits(a, p.n, { id })) { fit = false; break; }
                        if (k) body += ",";
                        oneID(body, id, a.id.at(id), nullptr);
                        ++counters["alone"];
                    }
                    catch (const std::exception&) { fit = false; }
                }
                body += "]";
            }
            body += "}";
        }
        if (w("C18") || w("C19")) {
            const FD::Toolbox::Forward fw{ *fs };
            const FD::Toolbox::Reverse rv{ *rs };
            const auto q = inflow(p);
            auto fi = fo, ri = ro;
            std::sort(fi.begin(), fi.end()); std::sort(ri.begin(), ri.end());
            body += ",\"pairs\":[";
            bool first = true;
            try {
                for (int a : fi) for (int b : ri) {
                    const double v = FD::injectorProducerPairVolume(fw, rv, p.pv, FD::CellSetID(name(a)), FD::CellSetID(name(b)));
                    const auto x = FD::injectorProducerPairFlux(fw, rv, FD::CellSetID(name(a)), FD::CellSetID(name(b)), q);
                    if (!std::isfinite(v) || !std::isfinite(x.first) || !std::isfinite(x.second)) { fit = false; continue; }
                    if (!first) body += ","; first = false;
                    body += "["; dy(body, v); body += ","; dy(body, x.first); body += ","; dy(body, x.second); body += "]";
                    ++counters["pairs"];
                }
            }
            catch (const std::exception&) { fit = false; }
            body += "]";
        }
    }
    delete fs; delete rs;
    o += ",\"fit\":" + std::string(fit ? "1" : "0");
    if (!fit) { o += "}\n"; ++counters["unfit"]; std::cerr << "record " << idx << " (" << N.kind << "): " << what << f.what << " " << r.what << "\n"; return o; }
    o += ",\"p\":"; problem(o, p);
    o += body + "}\n";
    ++counters[std::string("kind_") + N.kind];
    counters["cells"] += p.n;
    if (!N.cyc && (capped(f) || capped(r))) ++counters["bound_matters"];
    return o;
}

} // namespace

int main(int argc, char** argv) {
    const std::uint64_t seed = std::strtoull(opt(argc, argv, "--seed", "1"), nullptr, 10);
    const int part = std::atoi(opt(argc, argv, "--part", "0")), parts = std::atoi(opt(argc, argv, "--parts", "1"));
    const long long only = std::atoll(opt(argc, argv, "--only", "-1"));
    const long long num = std::atoll(opt(argc, argv, "--num", "64"));
    Progress pr; pr.open(opt(argc, argv, "--progress", ""));
    {
        std::stringstream ss(opt(argc, argv, "--props", "")); std::string t;
        while (std::getline(ss, t, ',')) if (!t.empty()) want.insert(t);
    }
    std::ofstream out(std::string(opt(argc, argv, "--out", "/dev/null")) + "." + std::to_string(part));
    for (long long k = 0; k < num; ++k) {
        if (only >= 0 ? k != only : (k + k / 16) % parts != part) continue;
        pr.at(k);
        out << makeRecord(k, seed);
        ++counters["records"];
    }
    for (const auto& q : counters) std::cout << "COUNT " << q.first << " " << q.second << "\n";
    std::cout << "DONE 0\n";
    return 0;
}
