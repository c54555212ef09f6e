// Runs the strong component routines on many graphs, with reused and oversized
// workspaces, reversal, and failing allocations, and records what they
// returned.  The records are judged by TLC (spec/TarjanTrace.tla).
#include "common.hpp"

#include <opm/flowdiagnostics/DerivedQuantities.hpp>
#include <opm/flowdiagnostics/Toolbox.hpp>
#include <opm/utility/graph/tarjan.h>

#include <new>
#include <set>
#include <unordered_set>

using namespace vf;
namespace FD = Opm::FlowDiagnostics;

// ---------------------------------------------------------------- allocation control
extern "C" {
void* __real_malloc(std::size_t);
void* __real_calloc(std::size_t, std::size_t);
void* __real_realloc(void*, std::size_t);
void  __real_free(void*);
}

namespace fault {
bool on = false;
long long fail = -1, seen = 0;   // fail the fail-th allocation (from 0); -1: none
bool hit = false;
long long live = 0;
bool sticky = false;             // all later ones fail too
bool refuse() {
    if (!on) return false;
    const long long k = seen++;
    if (fail >= 0 && (k == fail || (sticky && k > fail))) { hit = true; return true; }
    return false;
}
// Pointers handed out while counting.
const std::size_t CAP = 1 << 16;
void* tab[CAP];
std::size_t slot(void* p) { return (reinterpret_cast<std::uintptr_t>(p) >> 4) * 2654435761u % CAP; }
void note(void* p) {
    if (!on || !p) return;
    std::size_t s = slot(p);
    for (std::size_t k = 0; k < CAP; ++k, s = (s + 1) % CAP) if (!tab[s] || tab[s] == (void*)1) { tab[s] = p; ++live; return; }
}
void drop(void* p) {
    if (!p || live == 0) return;
    std::size_t s = slot(p);
    for (std::size_t k = 0; k < CAP; ++k, s = (s + 1) % CAP) {
        if (tab[s] == p) { tab[s] = (void*)1; --live; return; }
        if (!tab[s]) return;
    }
}
void begin(long long f, bool st) { std::memset(tab, 0, sizeof tab); live = 0; seen = 0; hit = false; fail = f; sticky = st; on = true; }
void end() { on = false; }
}

extern "C" {
void* __wrap_malloc(std::size_t n) { if (fault::refuse()) return nullptr; void* p = __real_malloc(n); fault::note(p); return p; }
void* __wrap_calloc(std::size_t a, std::size_t b) { if (fault::refuse()) return nullptr; void* p = __real_calloc(a, b); fault::note(p); return p; }
void* __wrap_realloc(void* q, std::size_t n) { if (fault::refuse()) return nullptr; fault::drop(q); void* p = __real_realloc(q, n); fault::note(p); return p; }
void  __wrap_free(void* p) { fault::drop(p); __real_free(p); }
}

void* operator new(std::size_t n) { if (fault::refuse()) throw std::bad_alloc(); void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); fault::note(p); return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { if (fault::refuse()) return nullptr; void* p = __real_malloc(n ? n : 1); fault::note(p); return p; }
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { fault::drop(p); __real_free(p); }
void operator delete[](void* p) noexcept { fault::drop(p); __real_free(p); }
void operator delete(void* p, std::size_t) noexcept { fault::drop(p); __real_free(p); }
void operator delete[](void* p, std::size_t) noexcept { fault::drop(p); __real_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { fault::drop(p); __real_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { fault::drop(p); __real_free(p); }

namespace {

using Comps = std::vector<std::vector<int>>;
struct Graph { int n = 0; std::vector<std::size_t> ia; std::vector<int> ja; };

Graph fromRows(const std::vector<std::vector<int>>& rows) {
    Graph g; g.n = (int)rows.size(); g.ia.push_back(0);
    for (const auto& r : rows) { g.ja.insert(g.ja.end(), r.begin(), r.end()); g.ia.push_back(g.ja.size()); }
    return g;
}

Comps comps(const TarjanSCCResult* r) {
    Comps c;
    const std::size_t m = tarjan_get_numcomponents(r);
    for (std::size_t i = 0; i < m; ++i) {
        const TarjanComponent t = tarjan_get_strongcomponent(r, i);
        std::vector<int> v;
        for (std::size_t k = 0; k < t.size; ++k) v.push_back(t.vertex[k]);
        c.push_back(v);
    }
    return c;
}

// ---------------------------------------------------------------- output
std::ofstream out;
std::map<std::string, long long> counters;
bool onlyOne = false;

template <class V> void list(std::ostream& o, const V& v) { o << '['; bool f = true; for (const auto& x : v) { if (!f) o << ','; o << x; f = false; } o << ']'; }
void lists(std::ostream& o, const Comps& c) { o << '['; bool f = true; for (const auto& x : c) { if (!f) o << ','; list(o, x); f = false; } o << ']'; }

// Certificates (see Scc.tla); computed from the graph and the reported
// components, checked by TLC.
void certificate(std::ostream& o, const Graph& g, const Comps& cs, const std::vector<int>& st) {
    const int n = g.n;
    std::vector<int> ci(n, 0), pf(n, -1), df(n, -1), ef(n, 0), pb(n, -1), db(n, -1), eb(n, 0), ps(n, -1), ds(n, -1), es(n, 0);
    for (std::size_t c = 0; c < cs.size(); ++c) for (int v : cs[c]) if (v >= 0 && v < n) ci[v] = (int)c + 1;
    std::vector<std::vector<std::pair<int, int>>> back(n);     // (source, edge)
    for (int v = 0; v < n; ++v) for (std::size_t k = g.ia[v]; k < g.ia[v + 1]; ++k) back[g.ja[k]].emplace_back(v, (int)k + 1);
    auto bfs = [&](std::vector<int> q, bool fwd, bool inside, std::vector<int>& p, std::vector<int>& d, std::vector<int>& e) {
        for (int v : q) d[v] = 0;
        for (std::size_t h = 0; h < q.size(); ++h) {
            const int v = q[h];
            auto go = [&](int w, int k) { if (d[w] < 0 && (!inside || ci[w] == ci[v])) { d[w] = d[v] + 1; p[w] = v; e[w] = k; q.push_back(w); } };
            if (fwd) for (std::size_t k = g.ia[v]; k < g.ia[v + 1]; ++k) go(g.ja[k], (int)k + 1);
            else for (const auto& w : back[v]) go(w.first, w.second);
        }
    };
    for (const auto& c : cs) if (!c.empty() && c[0] >= 0 && c[0] < n && df[c[0]] < 0) { bfs({ c[0] }, true, true, pf, df, ef); bfs({ c[0] }, false, true, pb, db, eb); }
    std::vector<int> q; for (int v : st) if (std::find(q.begin(), q.end(), v) == q.end()) q.push_back(v);
    bfs(q, true, false, ps, ds, es);
    o << ",\"ci\":"; list(o, ci);
    o << ",\"pf\":"; list(o, pf); o << ",\"df\":"; list(o, df); o << ",\"ef\":"; list(o, ef);
    o << ",\"pb\":"; list(o, pb); o << ",\"db\":"; list(o, db); o << ",\"eb\":"; list(o, eb);
    o << ",\"ps\":"; list(o, ps); o << ",\"ds\":"; list(o, ds); o << ",\"es\":"; list(o, es);
}

void emit(long long id, const char* kind, const Graph& g, const std::vector<int>& st, const Comps& c,
          bool hasRev, const Comps& rev, const Comps& rev2, int wsx) {
    const bool big = g.n > 14;
    out << "{\"id\":" << id << ",\"kind\":\"" << kind << "\",\"n\":" << g.n << ",\"wsx\":" << wsx << ",\"ia\":";
    list(out, g.ia); out << ",\"ja\":"; list(out, g.ja); out << ",\"st\":"; list(out, st);
    out << ",\"comps\":"; lists(out, c);
    out << ",\"hasrev\":" << (hasRev ? 1 : 0) << ",\"rev\":"; lists(out, rev); out << ",\"rev2\":"; lists(out, rev2);
    out << ",\"big\":" << (big ? 1 : 0);
    if (big) certificate(out, g, c, st);
    out << "}\n";
    ++counters[kind];
    if (big) ++counters["large"];
}

// Neighbour arrays are copied to exact size so that the sanitizer sees any
// access outside of them.
struct Raw {
    std::vector<std::size_t> ia; std::vector<int> ja;
    explicit Raw(const Graph& g) : ia(g.ia), ja(g.ja) { ia.shrink_to_fit(); ja.shrink_to_fit(); }
};

void runFull(long long id, const Graph& g, bool rev) {
    Raw r(g);
    TarjanSCCResult* res = tarjan(g.n, r.ia.data(), r.ja.data());
    Comps c, a, b;
    if (res) {
        c = comps(res);
        if (rev) {
            if (tarjan_reverse_sccresult(res)) { a = comps(res); if (tarjan_reverse_sccresult(res)) b = comps(res); }
        }
        destroy_tarjan_sccresult(res);
    }
    else c.push_back({ -1 });
    emit(id, "full", g, {}, c, rev, a, b, 0);
}

void runReach(long long id, const Graph& g, const std::vector<int>& st, TarjanWorkSpace* ws, int wsx, bool rev) {
    Raw r(g);
    std::vector<int> s(st); s.shrink_to_fit();
    TarjanSCCResult* res = tarjan_reachable_sccs(g.n, r.ia.data(), r.ja.data(), s.size(), s.data(), ws);
    Comps c, a, b;
    if (res) {
        c = comps(res);
        if (rev) {
            if (tarjan_reverse_sccresult(res)) { a = comps(res); if (tarjan_reverse_sccresult(res)) b = comps(res); }
        }
        destroy_tarjan_sccresult(res);
    }
    else c.push_back({ -1 });
    emit(id, "reach", g, st, c, rev, a, b, wsx);
}

// ---------------------------------------------------------------- graphs
Graph bits(int n, unsigned x, int style, Rng& rng) {
    std::vector<std::vector<int>> rows(n);
    for (int v = 0; v < n; ++v) {
        for (int w = 0; w < n; ++w) if ((x >> (v * n + w)) & 1u) rows[v].push_back(w);
        if (style == 1) std::reverse(rows[v].begin(), rows[v].end());
        if (style == 2 && !rows[v].empty()) {   // repeated edges, any order
            const int m = rng.below(3);
            for (int k = 0; k < m; ++k) rows[v].push_back(rows[v][rng.below((int)rows[v].size())]);
            rng.shuffle(rows[v]);
        }
    }
    return fromRows(rows);
}

Graph randomGraph(Rng& rng, int n, int m) {
    std::vector<std::vector<int>> rows(n);
    for (int k = 0; k < m; ++k) rows[rng.below(n)].push_back(rng.below(n));
    return fromRows(rows);
}

Graph relabel(const Graph& g, const std::vector<int>& p) {
    std::vector<std::vector<int>> rows(g.n);
    for (int v = 0; v < g.n; ++v) for (std::size_t k = g.ia[v]; k < g.ia[v + 1]; ++k) rows[p[v]].push_back(p[g.ja[k]]);
    return fromRows(rows);
}

Graph ring(int n) { std::vector<std::vector<int>> r(n); for (int v = 0; v < n; ++v) r[v].push_back((v + 1) % n); return fromRows(r); }

Graph structured(int which, Rng& rng) {
    using R = std::vector<std::vector<int>>;
    auto shuffled = [&](Graph g) { return relabel(g, rng.perm(g.n)); };
    switch (which) {
    case 0: return ring(1023);
    case 1: return ring(1024);
    case 2: return ring(1025);
    case 3: return shuffled(ring(2600));
    case 4: { R r(3000); for (int v = 0; v + 1 < 3000; ++v) r[v].push_back(v + 1); return fromRows(r); }
    case 5: { R r(3000); for (int v = 1; v < 3000; ++v) r[v].push_back(v - 1); return fromRows(r); }
    case 6: { R r(70001); for (int v = 1; v < 70001; ++v) r[0].push_back(v); return fromRows(r); }          // degree above 2^16
    case 7: { R r(300); for (int v = 0; v < 299; ++v) { r[v].push_back(299); r[299].push_back(v); } return fromRows(r); }
    case 8: { R r(40); for (int v = 0; v < 40; ++v) for (int w = 0; w < 40; ++w) r[v].push_back(w); return fromRows(r); }
    case 9: {   // three rings in a row, the middle one large
        const int a = 700, b = 1500, c = 1024; R r(a + b + c);
        for (int v = 0; v < a; ++v) r[v].push_back((v + 1) % a);
        for (int v = 0; v < b; ++v) r[a + v].push_back(a + (v + 1) % b);
        for (int v = 0; v < c; ++v) r[a + b + v].push_back(a + b + (v + 1) % c);
        r[5].push_back(a + 3); r[a + 7].push_back(a + b + 9);
        return which % 2 ? shuffled(fromRows(r)) : fromRows(r);
    }
    case 10: return randomGraph(rng, 2000, 2200);
    case 11: return randomGraph(rng, 2000, 5000);
    case 12: return randomGraph(rng, 3000, 9000);
    case 13: {  // ladder of two-cycles
        R r(2000);
        for (int k = 0; k < 1000; ++k) { r[2 * k].push_back(2 * k + 1); r[2 * k + 1].push_back(2 * k); if (k < 999) r[2 * k + 1].push_back(2 * k + 2); }
        return shuffled(fromRows(r));
    }
    case 14: {  // nested back edges: v -> v+1, v -> v/2
        R r(1800);
        for (int v = 0; v < 1800; ++v) { if (v + 1 < 1800) r[v].push_back(v + 1); if (v % 3) r[v].push_back(v / 2); }
        return fromRows(r);
    }
    case 15: {  // binary tree with some leaves linked back
        R r(2047);
        for (int v = 0; v < 1023; ++v) { r[v].push_back(2 * v + 1); r[v].push_back(2 * v + 2); }
        for (int k = 0; k < 200; ++k) r[1023 + rng.below(1024)].push_back(rng.below(1023));
        return shuffled(fromRows(r));
    }
    case 16: { R r(2000); for (int v = 0; v < 2000; ++v) r[v].push_back(v); return fromRows(r); }
    case 17: return fromRows(R(1500));
    case 22: return ring(90000);
    case 23: { Graph g = ring(66000); return shuffled(g); }
    case 20: {  // rings of all lengths one after the other, found in one deep search
        const int n = 120000; R r(n);
        for (int a = 0; a < n; ) {
            const int m = std::min(n - a, rng.below(4) ? rng.range(1, 4) : rng.range(1, 3000));
            for (int v = a; v < a + m; ++v) { if (v + 1 < n) r[v].push_back(v + 1); if (rng.below(3) == 0 && v > a) r[v].push_back(rng.range(a, v)); }
            r[a + m - 1].push_back(a);
            if (rng.below(2)) std::reverse(r[a + m - 1].begin(), r[a + m - 1].end());
            a += m;
        }
        return fromRows(r);
    }
    case 21: {  // short cycles after a long path, and many roots
        const int n = 110000; R r(n);
        for (int v = 0; v + 1 < n; ++v) if (v < 80000 || rng.below(50)) r[v].push_back(v + 1);
        for (int k = 0; k < 3000; ++k) { const int v = rng.range(75000, n - 1); r[v].push_back(v - rng.below(400)); }
        return relabel(fromRows(r), [&] { std::vector<int> q(n); for (int v = 0; v < n; ++v) q[v] = n - 1 - v; return q; }());
    }
    default: {  // grid with random orientations
        const int a = 40; R r(a * a);
        for (int i = 0; i < a; ++i) for (int j = 0; j < a; ++j) {
            const int v = i * a + j;
            if (i + 1 < a) { if (rng.below(2)) r[v].push_back(v + a); else r[v + a].push_back(v); }
            if (j + 1 < a) { if (rng.below(2)) r[v].push_back(v + 1); else r[v + 1].push_back(v); }
        }
        return fromRows(r);
    }
    }
}
const int NSTRUCT = 24;

std::vector<int> randomStarts(Rng& rng, int n) {
    std::vector<int> st;
    if (n == 0) return st;
    const int m = rng.below(5);
    for (int k = 0; k < m; ++k) st.push_back(!st.empty() && rng.below(4) == 0 ? st[rng.below((int)st.size())] : rng.below(n));
    return st;
}

// ---------------------------------------------------------------- chains
// K copies of a small graph, each linked to the next (Scc!ChainOK); numbered along
// the chain, against it, or in layers.  Recorded is how every copy was decomposed,
// as runs of equal copies.
void chain(long long id, Rng& rng, int K, bool full) {
    const int m = 1 + rng.below(6), style = full ? rng.below(2) * 2 : rng.below(3);
    Graph h;
    int a = 0, b = 0;
    for (;;) {
        h = randomGraph(rng, m, rng.below(2 * m + 1));
        a = rng.below(m); b = rng.below(m);
        // mostly chains that go on
        std::vector<int> q{ b }; std::set<int> seen(q.begin(), q.end());
        for (std::size_t k = 0; k < q.size(); ++k) for (std::size_t e = h.ia[q[k]]; e < h.ia[q[k] + 1]; ++e) if (seen.insert(h.ja[e]).second) q.push_back(h.ja[e]);
        if (seen.count(a) || rng.below(12) == 0) break;
    }
    auto label = [&](int c, int v) { return style == 0 ? c * m + v : style == 1 ? (K - 1 - c) * m + v : v * K + c; };
    auto copyOf = [&](int x) { return style == 0 ? x / m : style == 1 ? K - 1 - x / m : x % K; };
    auto inCopy = [&](int x) { return style == 2 ? x / K : x % m; };
    Graph g; g.n = K * m; g.ia.assign(1, 0); g.ia.reserve(g.n + 1); g.ja.reserve(h.ja.size() * K + K);
    const bool first = rng.below(2);
    for (int x = 0; x < g.n; ++x) {
        const int c = copyOf(x), v = inCopy(x);
        if (first && v == a && c + 1 < K) g.ja.push_back(label(c + 1, b));
        for (std::size_t e = h.ia[v]; e < h.ia[v + 1]; ++e) g.ja.push_back(label(c, h.ja[e]));
        if (!first && v == a && c + 1 < K) g.ja.push_back(label(c + 1, b));
        g.ia.push_back(g.ja.size());
    }
    std::vector<int> st;
    if (!full) for (int k = 1 + rng.below(2); k > 0; --k) st.push_back(k == 1 && rng.below(3) ? b : rng.below(m));
    std::vector<int> starts; for (int v : st) starts.push_back(label(0, v));
    TarjanWorkSpace* ws = full ? nullptr : create_tarjan_workspace(g.n + rng.below(3));
    TarjanSCCResult* res = full ? tarjan(g.n, g.ia.data(), g.ja.data())
                                : tarjan_reachable_sccs(g.n, g.ia.data(), g.ja.data(), starts.size(), starts.data(), ws);
    std::vector<Comps> seen(K);
    std::vector<int> pos(g.n, 0);
    int mixed = 0; bool rev = false; long long least = 1;
    if (res) {
        const std::size_t nc = tarjan_get_numcomponents(res);
        std::vector<int> flat; std::vector<std::size_t> beg;
        for (std::size_t i = 0; i < nc; ++i) {
            const TarjanComponent t = tarjan_get_strongcomponent(res, i);
            beg.push_back(flat.size());
            std::vector<int> rel; int c = -1; bool bad = t.size == 0;
            for (std::size_t k = 0; k < t.size; ++k) {
                const int x = t.vertex[k];
                flat.push_back(x);
                if (x < 0 || x >= g.n) { bad = true; continue; }
                if (c < 0) c = copyOf(x);
                if (copyOf(x) != c) bad = true;
                pos[x] = (int)i + 1; rel.push_back(inCopy(x));
            }
            if (bad) ++mixed;
            if (c >= 0) seen[c].push_back(rel);
        }
        beg.push_back(flat.size());
        bool any = false;
        for (int c = 0; c + 1 < K; ++c) {
            const int p = pos[label(c, a)], q = pos[label(c + 1, b)];
            if (!p || !q) continue;
            if (!any || p - q < least) least = p - q;
            any = true;
        }
        if (tarjan_reverse_sccresult(res) && tarjan_get_numcomponents(res) == nc) {
            rev = true;
            for (std::size_t i = 0; i < nc && rev; ++i) {
                const TarjanComponent t = tarjan_get_strongcomponent(res, i);
                const std::size_t j = nc - 1 - i;
                rev = t.size == beg[j + 1] - beg[j] && std::equal(t.vertex, t.vertex + t.size, flat.begin() + beg[j]);
            }
        }
        destroy_tarjan_sccresult(res);
    }
    if (ws) destroy_tarjan_workspace(ws);
    out << "{\"id\":" << id << ",\"kind\":\"chain\",\"full\":" << (full ? 1 : 0) << ",\"h\":{\"n\":" << m << ",\"ia\":"; list(out, h.ia);
    out << ",\"ja\":"; list(out, h.ja); out << "},\"a\":" << a << ",\"b\":" << b << ",\"K\":" << K << ",\"style\":" << style << ",\"st\":"; list(out, st);
    out << ",\"least\":" << least << ",\"mixed\":" << mixed << ",\"rev\":" << (rev ? 1 : 0) << ",\"runs\":[";
    int runs = 0;
    for (int c = 0, d = 0; c < K && runs < 200; c = d, ++runs) {      // (a wrong result may have many)
        for (d = c; d < K && seen[d] == seen[c]; ++d) { }
        if (c) out << ',';
        out << "{\"from\":" << c << ",\"count\":" << d - c << ",\"comps\":"; lists(out, seen[c]); out << "}";
    }
    out << "]}\n";
    ++counters["chains"];
    counters["max_chain_vertices"] = std::max<long long>(counters["max_chain_vertices"], g.n);
}

// ---------------------------------------------------------------- failing allocations
void faults(long long id, Rng& rng) {
    const bool large = rng.below(12) == 0;
    const int n = large ? 1030 + rng.below(40) : 1 + rng.below(7);
    Graph g = large ? ring(n) : randomGraph(rng, n, rng.below(3 * n));
    const std::vector<int> st = randomStarts(rng, n);
    for (int op = 0; op < 4; ++op) {
        for (int sticky = 0; sticky < 2; ++sticky) {
            for (long long k = -1; k < 64; ++k) {
                if (k == -1 && sticky) continue;
                // set up outside the counted section
                Raw r(g);
                TarjanWorkSpace* ws = op == 2 ? create_tarjan_workspace(n) : nullptr;
                TarjanSCCResult* pre = op == 3 ? tarjan(n, r.ia.data(), r.ja.data()) : nullptr;
                Comps before, after;
                if (pre) before = comps(pre);
                bool null = false;
                std::vector<int> s(st);
                fault::begin(k, sticky != 0);
                TarjanWorkSpace* w2 = nullptr; TarjanSCCResult* res = nullptr; int ok = 1;
                switch (op) {
                case 0: w2 = create_tarjan_workspace(n); null = !w2; break;
                case 1: res = tarjan(n, r.ia.data(), r.ja.data()); null = !res; break;
                case 2: res = tarjan_reachable_sccs(n, r.ia.data(), r.ja.data(), s.size(), s.data(), ws); null = !res; break;
                case 3: ok = tarjan_reverse_sccresult(pre); null = !ok; break;
                }
                fault::fail = -1;           // later allocations succeed
                const bool hit = fault::hit;
                Comps got;
                fault::on = false;
                if (res) got = comps(res);
                if (pre) after = comps(pre);
                // Memory still held by what was returned, then by nothing.
                const long long liveHeld = fault::live;
                if (op == 0) destroy_tarjan_workspace(w2);
                if (res) destroy_tarjan_sccresult(res);
                if (pre) destroy_tarjan_sccresult(pre);
                if (ws) destroy_tarjan_workspace(ws);
                const long long live = fault::live;
                fault::end();
                out << "{\"id\":" << id << ",\"kind\":\"fault\",\"op\":" << op << ",\"k\":" << k << ",\"hit\":" << (hit ? 1 : 0)
                    << ",\"null\":" << (null ? 1 : 0) << ",\"held\":" << liveHeld << ",\"live\":" << live
                    << ",\"before\":"; lists(out, before); out << ",\"after\":"; lists(out, after); out << "}\n";
                ++counters["fault"];
                if (hit) ++counters["fault_hit"];
                if (k >= 0 && !hit) break;
            }
        }
    }
}

// A whole diagnostics computation, each allocation failing in turn.
void toolboxFaults(long long id, Rng& rng) {
    const int n = 3 + rng.below(4);
    std::vector<int> cc; const int m = n + rng.below(4);
    using CV = FD::ConnectionValues;
    CV flux(CV::NumConnections{ (std::size_t)m }, CV::NumPhases{ 1 });
    for (int k = 0; k < m; ++k) {
        const int a = rng.below(n); const int b = (a + 1 + rng.below(n - 1)) % n;
        cc.push_back(a); cc.push_back(b);
        flux(CV::ConnID{ (std::size_t)k }, CV::PhaseID{ 0 }) = rng.range(-2, 3);
    }
    std::vector<double> pv(n); for (auto& x : pv) x = 1 + rng.below(4);
    std::map<FD::CellSetID, FD::CellSetValues> q;
    q[FD::CellSetID("I")][0] = 1.5; q[FD::CellSetID("J")][n - 1] = 2.0; q[FD::CellSetID("P")][1] = -2.0;
    std::vector<FD::CellSet> si{ FD::CellSet(FD::CellSetID("I"), { 0 }), FD::CellSet(FD::CellSetID("J"), { n - 1 }) };
    std::vector<FD::CellSet> sp{ FD::CellSet(FD::CellSetID("P"), { 1 }) };
    auto make = [&] {
        auto* b = new FD::Toolbox(FD::ConnectivityGraph(n, cc));
        b->assignPoreVolume(pv); b->assignConnectionFlux(flux); b->assignInflowFlux(q);
        return b;
    };
    auto eq = [&](const FD::Solution& x, const FD::Solution& y) {
        if (x.timeOfFlight() != y.timeOfFlight()) return false;
        for (const char* nm : { "I", "J", "P" })
            if (x.concentration(FD::CellSetID(nm)) != y.concentration(FD::CellSetID(nm)) || x.timeOfFlight(FD::CellSetID(nm)) != y.timeOfFlight(FD::CellSetID(nm))) return false;
        return true;
    };
    auto* ref = make();
    const FD::Solution rf = ref->computeInjectionDiagnostics(si).fd, rr = ref->computeProductionDiagnostics(sp).fd;
    delete ref;
    for (int dir = 0; dir < 2; ++dir) {
        for (long long k = 0; k < 4000; ++k) {
            auto* box = make();
            bool threw = false, right = true, later = true;
            fault::begin(k, false);
            FD::Solution* s = nullptr;
            try {
                if (dir == 0) s = new FD::Solution(box->computeInjectionDiagnostics(si).fd);
                else s = new FD::Solution(box->computeProductionDiagnostics(sp).fd);
            }
            catch (const std::exception&) { threw = true; }
            const bool hit = fault::hit;
            fault::fail = -1;
            fault::on = false;
            if (s) right = eq(*s, dir == 0 ? rf : rr);
            // afterwards everything works
            try {
                const FD::Solution t = dir == 0 ? box->computeInjectionDiagnostics(si).fd : box->computeProductionDiagnostics(sp).fd;
                later = eq(t, dir == 0 ? rf : rr);
            }
            catch (const std::exception&) { later = false; }
            delete s; delete box;
            const long long live = fault::live;
            fault::end();
            out << "{\"id\":" << id << ",\"kind\":\"tbfault\",\"dir\":" << dir << ",\"k\":" << k << ",\"hit\":" << (hit ? 1 : 0)
                << ",\"threw\":" << (threw ? 1 : 0) << ",\"right\":" << (right ? 1 : 0) << ",\"later\":" << (later ? 1 : 0) << ",\"live\":" << live << "}\n";
            ++counters["tbfault"];
            if (hit) ++counters["tbfault_hit"];
            if (!hit) break;
        }
    }
}

} // namespace

int main(int argc, char** argv) {
    const std::uint64_t seed = std::strtoull(opt(argc, argv, "--seed", "1"), nullptr, 10);
    const int part = std::atoi(opt(argc, argv, "--part", "0")), parts = std::atoi(opt(argc, argv, "--parts", "1"));
    const long long only = std::atoll(opt(argc, argv, "--only", "-1"));
    const std::string prop = opt(argc, argv, "--props", "");
    const int n4 = std::atoi(opt(argc, argv, "--n4", "2000"));       // graphs of four vertices
    const int nrnd = std::atoi(opt(argc, argv, "--rnd", "1000"));    // random graphs
    const int nhist = std::atoi(opt(argc, argv, "--hist", "200"));   // histories on one workspace
    const int nfault = std::atoi(opt(argc, argv, "--faults", "40"));
    const int nchain = std::atoi(opt(argc, argv, "--chains", "40"));
    std::string path = opt(argc, argv, "--out", "");
    if (only >= 0) path += ".only"; else path += "." + std::to_string(part);
    out.open(path);
    if (!out) return 3;
    Progress pr; pr.open(opt(argc, argv, "--progress", ""));
    const bool full = prop.empty() || prop == "C11", reach = prop.empty() || prop == "C12", rev = prop.empty() || prop == "C13";

    long long id = 0;
    auto mine = [&](const char* what) {
        const long long k = id++;
        if (only >= 0 ? k != only : (k % parts) != part) return false;
        pr.at(k, what);
        return true;
    };
    // exhaustive: up to three vertices
    for (int n = 0; n <= 3; ++n) {
        const unsigned cnt = 1u << (n * n);
        for (unsigned x = 0; x < cnt; ++x) {
            if (!mine("exhaustive")) continue;
            const long long me = id - 1;
            Rng rng(seed * 7919 + me);
            for (int style = 0; style < 3; ++style) {
                if (n == 0 && style) continue;
                const Graph g = bits(n, x, style, rng);
                if (full || rev) runFull(me, g, rev);
                if (!reach) continue;
                TarjanWorkSpace* ws = create_tarjan_workspace(n + (style == 1 ? 1 : 0) + (n == 0 ? 1 : 0));
                if (style == 2) { runReach(me, g, randomStarts(rng, n), ws, 0, rev); }
                else {
                    // every list of up to two (style 0: three) start points, one workspace for all
                    runReach(me, g, {}, ws, style, rev);
                    for (int a = 0; a < n; ++a) {
                        runReach(me, g, { a }, ws, style, rev);
                        for (int b = 0; b < n; ++b) {
                            runReach(me, g, { a, b }, ws, style, rev);
                            if (style == 0) for (int c = 0; c < n; ++c) if (a != b && b != c) runReach(me, g, { a, b, c }, ws, style, rev);
                        }
                    }
                }
                destroy_tarjan_workspace(ws);
            }
        }
    }
    // four vertices: a sample, or all of them
    {
        const unsigned step = n4 >= 65536 ? 1 : (unsigned)(65536 / std::max(1, n4)) | 1u;
        for (unsigned i = 0, x = (unsigned)(seed % step); x < 65536u; x += step, ++i) {
            if (!mine("four vertices")) continue;
            Rng rng(seed * 104729 + id);
            const Graph g = bits(4, x, rng.below(3), rng);
            if (full || rev) runFull(id - 1, g, rev);
            if (reach) {
                TarjanWorkSpace* ws = create_tarjan_workspace(4 + rng.below(3));
                runReach(id - 1, g, randomStarts(rng, 4), ws, 0, rev);
                runReach(id - 1, g, randomStarts(rng, 4), ws, 0, rev);
                destroy_tarjan_workspace(ws);
            }
        }
    }
    for (int i = 0; i < nrnd; ++i) {
        if (!mine("random")) continue;
        Rng rng(seed * 1299709 + id);
        const int n = 5 + rng.below(9);
        const Graph g = randomGraph(rng, n, rng.below(rng.below(3) ? 2 * n : 5 * n));
        if (full || rev) runFull(id - 1, g, rev);
        if (reach) {
            TarjanWorkSpace* ws = create_tarjan_workspace(n + rng.below(4));
            for (int k = 0; k < 3; ++k) runReach(id - 1, g, randomStarts(rng, n), ws, 0, rev);
            destroy_tarjan_workspace(ws);
        }
    }
    for (int i = 0; i < NSTRUCT; ++i) {
        if (!mine("structured")) continue;
        Rng rng(seed * 15485863 + id);
        const Graph g = structured(i, rng);
        if (full || rev) runFull(id - 1, g, rev);
        if (reach || rev) {
            TarjanWorkSpace* ws = create_tarjan_workspace(g.n + rng.below(1000));
            for (int k = 0; k < (g.n > 5000 ? 1 : 3); ++k) runReach(id - 1, g, k == 0 ? std::vector<int>{ i == 21 ? g.n - 1 : 0 } : randomStarts(rng, g.n), ws, 0, rev);
            destroy_tarjan_workspace(ws);
        }
    }
    for (int i = 0; i < nchain; ++i) {
        if (!mine("chain")) continue;
        Rng rng(seed * 198491317 + id);
        const bool large = i < 8;
        const bool f = reach && (full || rev) ? rng.below(2) : !reach;
        chain(id - 1, rng, large ? std::vector<int>{ 300000, 1100000, 400000, 2200000, 70000, 600000, 70000, 300000 }[i] : 2 + rng.below(3000), f);
    }
    // one workspace for a history of calls on graphs of different size
    for (int i = 0; i < nhist && reach; ++i) {
        if (!mine("history")) continue;
        Rng rng(seed * 32452843 + id);
        const int W = 1 + rng.below(40);
        TarjanWorkSpace* ws = create_tarjan_workspace(W);
        const int len = 3 + rng.below(12);
        for (int k = 0; k < len; ++k) {
            const int n = 1 + rng.below(W);
            const Graph g = randomGraph(rng, n, rng.below(3 * n));
            runReach(id - 1, g, randomStarts(rng, n), ws, W - n, rng.below(2));
        }
        destroy_tarjan_workspace(ws);
        ++counters["histories"];
    }
    for (int i = 0; i < nfault && rev; ++i) {
        if (!mine("failing allocation")) continue;
        Rng rng(seed * 49979687 + id);
        faults(id - 1, rng);
    }
    for (int i = 0; i < std::max(1, nfault / 6) && rev; ++i) {
        if (!mine("failing allocation in a diagnostics computation")) continue;
        Rng rng(seed * 67867967 + id);
        toolboxFaults(id - 1, rng);
    }
    out.close();
    for (const auto& q : counters) std::cout << "COUNT " << q.first << " " << q.second << "\n";
    std::cout << "DONE " << id << "\n";
    return 0;
}
