// G01-G06: the graph algorithms of the compiler against brute-force definitions, on the real graph.cpp.
#include "common.h"
#include "sdfg/graph/graph.h"
#include <climits>
using namespace sdfg::graph;
typedef std::vector<std::vector<char>> Mat;

struct G {
    Graph g;
    std::vector<Vertex> v;
    std::map<Vertex, int> id;
    std::vector<std::pair<int, int>> e;      // in insertion order
    std::vector<Edge> ed;
    int n = 0;
    int vert() { auto x = boost::add_vertex(g); id[x] = n; v.push_back(x); return n++; }
    void edge(int a, int b) { ed.push_back(boost::add_edge(v[a], v[b], g).first); e.push_back({a, b}); }
    std::string str() const {
        std::string s = std::to_string(n) + " vertices, edges";
        for (auto& p : e) s += " " + std::to_string(p.first) + ">" + std::to_string(p.second);
        return s;
    }
    Mat reach(int without = -1) const {      // r[a][b]: a path a ->* b (length >= 0) that avoids `without`
        Mat r(n, std::vector<char>(n, 0));
        for (int i = 0; i < n; i++) if (i != without) r[i][i] = 1;
        for (auto& p : e) if (p.first != without && p.second != without) r[p.first][p.second] = 1;
        for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (r[i][k]) for (int j = 0; j < n; j++) r[i][j] |= r[k][j];
        return r;
    }
    bool cyclic() const {
        auto r = reach();
        for (auto& p : e) if (r[p.second][p.first]) return true;
        return false;
    }
    // structural snapshot: vertices in order, edges in order with endpoints and identity, in and out lists
    std::vector<const void*> snap() const {
        std::vector<const void*> s;
        for (auto [b, x] = boost::vertices(g); b != x; ++b) {
            s.push_back(*b);
            for (auto [o, oe] = boost::out_edges(*b, g); o != oe; ++o) { s.push_back(boost::target(*o, g)); s.push_back((*o).get_property()); }
            s.push_back(nullptr);
            for (auto [o, oe] = boost::in_edges(*b, g); o != oe; ++o) { s.push_back(boost::source(*o, g)); s.push_back((*o).get_property()); }
            s.push_back(nullptr);
        }
        for (auto [b, x] = boost::edges(g); b != x; ++b) { s.push_back(boost::source(*b, g)); s.push_back(boost::target(*b, g)); s.push_back((*b).get_property()); }
        s.push_back((void*) boost::num_vertices(g));
        s.push_back((void*) boost::num_edges(g));
        return s;
    }
};
static std::string nm(const G& x, Vertex v) {
    if (v == boost::graph_traits<Graph>::null_vertex()) return "none";
    auto i = x.id.find(v);
    return i == x.id.end() ? "a vertex that is not in the graph" : std::to_string(i->second);
}

static void g01(G& x) {
    bool c = x.cyclic(), a = is_acyclic(x.g);
    CHECK(a == !c, "is_acyclic answers " << a << " on a graph that is " << (c ? "cyclic" : "acyclic"));
    if (c) return;
    std::list<Vertex> o;
    try { o = topological_sort(x.g); } catch (const std::exception& ex) { CHECK(false, "topological_sort throws on an acyclic graph: " << ex.what()); return; }
    std::map<Vertex, int> pos; int k = 0;
    for (auto v : o) { CHECK(x.id.count(v), "the order has a vertex that is not in the graph"); CHECK(!pos.count(v), "vertex " << nm(x, v) << " listed twice"); pos[v] = k++; }
    CHECK((int) o.size() == x.n, "the order lists " << o.size() << " of " << x.n << " vertices");
    for (auto& p : x.e) CHECK(pos[x.v[p.first]] < pos[x.v[p.second]], "edge " << p.first << ">" << p.second << " goes backward in the order");
}
// expected immediate dominators from node `src`, along edges
static std::vector<int> idoms(const G& x, int src) {
    auto r = x.reach();
    std::vector<std::set<int>> sd(x.n);      // strict dominators
    for (int d = 0; d < x.n; d++) {
        auto q = x.reach(d);
        for (int w = 0; w < x.n; w++) if (w != d && r[src][w] && (d == src || !q[src][w])) sd[w].insert(d);
    }
    std::vector<int> res(x.n, -1);
    for (int w = 0; w < x.n; w++) {
        if (!r[src][w] || w == src) continue;
        for (int d : sd[w]) if (sd[w].size() == sd[d].size() + 1) res[w] = d;   // the closest one has all the others
    }
    return res;
}
static void g02(G& x) {
    if (!x.n) return;
    auto s0 = x.snap();
    int src = (int) rp::rnd(x.n);
    auto t = dominator_tree(x.g, x.v[src]);
    auto r = x.reach();
    auto want = idoms(x, src);
    CHECK(s0 == x.snap(), "dominator_tree changed the graph");
    CHECK((int) t.size() == x.n, "the dominator tree has " << t.size() << " entries for " << x.n << " vertices");
    for (int w = 0; w < x.n; w++) {
        auto i = t.find(x.v[w]);
        CHECK(i != t.end(), "no entry for vertex " << w);
        if (i == t.end()) continue;
        CHECK(nm(x, i->second) == (want[w] < 0 ? "none" : std::to_string(want[w])), "immediate dominator of " << w << " from entry " << src << (r[src][w] ? "" : " (unreachable)") << " is given as " << nm(x, i->second) << " instead of " << want[w]);
    }
    // post-dominators need an exit
    std::vector<int> exits;
    for (int w = 0; w < x.n; w++) { bool o = false; for (auto& p : x.e) o |= p.first == w; if (!o) exits.push_back(w); }
    if (exits.empty()) return;
    G y;                                     // the reverse, with one super exit
    for (int w = 0; w < x.n; w++) y.vert();
    for (auto& p : x.e) y.edge(p.second, p.first);
    int top = exits[0];
    if (exits.size() > 1) { top = y.vert(); for (int w : exits) y.edge(top, w); }
    auto wp = idoms(y, top);
    auto pt = post_dominator_tree(x.g);
    CHECK(s0 == x.snap(), "post_dominator_tree changed the graph (" << boost::num_vertices(x.g) << " vertices, " << boost::num_edges(x.g) << " edges afterwards)");
    CHECK((int) pt.size() == x.n, "the post-dominator tree has " << pt.size() << " entries for " << x.n << " vertices");
    for (int w = 0; w < x.n; w++) {
        auto i = pt.find(x.v[w]);
        CHECK(i != pt.end(), "no post-dominator entry for vertex " << w);
        if (i == pt.end()) continue;
        int ex = wp[w] >= x.n ? -1 : wp[w];
        CHECK(nm(x, i->second) == (ex < 0 ? "none" : std::to_string(ex)), "immediate post-dominator of " << w << " is given as " << nm(x, i->second) << " instead of " << ex);
    }
}
static void paths(const G& x, int at, int dst, std::vector<char>& seen, std::vector<int>& cur, std::map<std::vector<int>, int>& out) {
    if (at == dst) { out[cur]++; return; }
    for (int k = 0; k < (int) x.e.size(); k++) if (x.e[k].first == at && !seen[x.e[k].second]) {
        seen[x.e[k].second] = 1; cur.push_back(k);
        paths(x, x.e[k].second, dst, seen, cur, out);
        cur.pop_back(); seen[x.e[k].second] = 0;
    }
}
static void g03(G& x) {
    if (x.n < 2) return;
    auto s0 = x.snap();
    int a = (int) rp::rnd(x.n), b = (int) rp::rnd(x.n);
    if (a == b) b = (a + 1) % x.n;
    std::map<std::vector<int>, int> want, got;
    std::vector<char> seen(x.n, 0); seen[a] = 1;
    std::vector<int> cur;
    paths(x, a, b, seen, cur, want);
    auto p = all_simple_paths(x.g, x.v[a], x.v[b]);
    CHECK(s0 == x.snap(), "all_simple_paths changed the graph");
    auto show = [&](const std::vector<int>& q) { std::string s; for (int k : q) s += k < 0 ? " (foreign edge)" : " " + std::to_string(x.e[k].first) + ">" + std::to_string(x.e[k].second); return s; };
    for (auto& q : p) {
        std::vector<int> w;
        for (auto& ed : q) { int f = -1; for (int k = 0; k < (int) x.ed.size(); k++) if (x.ed[k] == ed) f = k; w.push_back(f); }
        got[w]++;
    }
    for (auto& q : got) { CHECK(want.count(q.first), "from " << a << " to " << b << ": reported path is not a simple path:" << show(q.first)); CHECK(q.second == 1, "path reported " << q.second << " times:" << show(q.first)); }
    for (auto& q : want) CHECK(got.count(q.first), "from " << a << " to " << b << ": simple path missing:" << show(q.first));
}
static void g04(G& x) {
    auto r = x.reach();
    auto s0 = x.snap();
    auto s = strongly_connected_components(x.g);
    auto w = weakly_connected_components(x.g);
    CHECK(s0 == x.snap(), "labelling components changed the graph");
    G y; for (int k = 0; k < x.n; k++) y.vert();
    for (auto& p : x.e) { y.edge(p.first, p.second); y.edge(p.second, p.first); }
    auto ru = y.reach();
    CHECK((int) s.second.size() == x.n, s.second.size() << " strong labels for " << x.n << " vertices");
    CHECK((int) w.second.size() == x.n, w.second.size() << " weak labels for " << x.n << " vertices");
    std::set<size_t> ls, lw;
    for (int k = 0; k < x.n; k++) {
        CHECK(s.second.count(x.v[k]), "no strong label for " << k); CHECK(w.second.count(x.v[k]), "no weak label for " << k);
        if (!s.second.count(x.v[k]) || !w.second.count(x.v[k])) return;
        ls.insert(s.second.at(x.v[k])); lw.insert(w.second.at(x.v[k]));
    }
    CHECK(s.first >= 0 && (size_t) s.first == ls.size(), s.first << " strong components reported, " << ls.size() << " labels used");
    CHECK(w.first == lw.size(), w.first << " weak components reported, " << lw.size() << " labels used");
    for (int a = 0; a < x.n; a++) for (int b = 0; b < x.n; b++) {
        CHECK((s.second.at(x.v[a]) == s.second.at(x.v[b])) == (r[a][b] && r[b][a]), "strong labels of " << a << " and " << b << " are wrong");
        CHECK((w.second.at(x.v[a]) == w.second.at(x.v[b])) == (bool) ru[a][b], "weak labels of " << a << " and " << b << " are wrong");
    }
}
static void g05(G& x) {
    auto s0 = x.snap();
    {
        auto u = undirected(x.g);
        auto& ug = *std::get<0>(u); auto& m = std::get<1>(u); auto& rm = std::get<2>(u);
        CHECK(s0 == x.snap(), "undirected changed the graph");
        CHECK((int) boost::num_vertices(ug) == x.n, "undirected view has " << boost::num_vertices(ug) << " vertices for " << x.n);
        CHECK(boost::num_edges(ug) == x.e.size(), "undirected view has " << boost::num_edges(ug) << " edges for " << x.e.size());
        CHECK((int) m.size() == x.n && (int) rm.size() == x.n, "the vertex mappings have " << m.size() << " and " << rm.size() << " entries");
        std::set<Vertex> uv;
        for (auto [b, e] = boost::vertices(ug); b != e; ++b) uv.insert(*b);
        for (int k = 0; k < x.n; k++) {
            CHECK(m.count(x.v[k]), "no image of vertex " << k);
            if (!m.count(x.v[k])) return;
            auto i = m.at(x.v[k]);
            CHECK(uv.count(i), "the image of " << k << " is not in the undirected view");
            CHECK(rm.count(i) && rm.at(i) == x.v[k], "the mappings are not inverse to each other at " << k);
        }
        std::map<std::pair<Vertex, Vertex>, int> want, got;
        auto key = [](Vertex a, Vertex b) { return a < b ? std::pair<Vertex, Vertex>{a, b} : std::pair<Vertex, Vertex>{b, a}; };
        for (auto& p : x.e) want[key(m.at(x.v[p.first]), m.at(x.v[p.second]))]++;
        for (auto [b, e] = boost::edges(ug); b != e; ++b) got[key(boost::source(*b, ug), boost::target(*b, ug))]++;
        CHECK(want == got, "the edges of the undirected view are not the images of the edges");
    }
    {
        auto r = reverse(x.g);
        CHECK((int) boost::num_vertices(r) == x.n, "reversed view has " << boost::num_vertices(r) << " vertices");
        CHECK(boost::num_edges(r) == x.e.size(), "reversed view has " << boost::num_edges(r) << " edges");
        std::multiset<std::pair<Vertex, Vertex>> want, got, got2;
        std::set<Vertex> vs;
        for (auto& p : x.e) want.insert({x.v[p.second], x.v[p.first]});
        for (auto [b, e] = boost::edges(r); b != e; ++b) got.insert({boost::source(*b, r), boost::target(*b, r)});
        for (auto [b, e] = boost::vertices(r); b != e; ++b) { vs.insert(*b); for (auto [o, oe] = boost::out_edges(*b, r); o != oe; ++o) { CHECK(boost::source(*o, r) == *b, "out edge of the reversed view does not start at its vertex"); got2.insert({boost::source(*o, r), boost::target(*o, r)}); } }
        CHECK(want == got, "the edges of the reversed view are not the reversed edges");
        CHECK(want == got2, "the out-edges of the reversed view are not the reversed edges");
        CHECK(vs == std::set<Vertex>(x.v.begin(), x.v.end()), "the reversed view has other vertices");
        CHECK(s0 == x.snap(), "reverse changed the graph");
    }
}
static void g06(G& x) {
    if (!x.n) return;
    auto s0 = x.snap();
    int a = (int) rp::rnd(x.n);
    auto o = depth_first_search(x.g, x.v[a]);
    CHECK(s0 == x.snap(), "depth_first_search changed the graph");
    std::set<Vertex> seen;
    for (auto v : o) { CHECK(x.id.count(v), "lists a foreign vertex"); CHECK(seen.insert(v).second, "vertex " << nm(x, v) << " is listed twice"); }
    CHECK((int) o.size() == x.n, "lists " << o.size() << " of " << x.n << " vertices");
    CHECK(!o.empty() && o.front() == x.v[a], "the list does not start at the start vertex");
    // preorder of a depth-first search: each next vertex hangs off the deepest open vertex with an unvisited successor
    std::vector<int> stack, par(x.n, -1); std::set<int> vis;
    auto succ = [&](int w) { for (auto& p : x.e) if (p.first == w && !vis.count(p.second)) return true; return false; };
    for (auto v : o) {
        int w = x.id[v];
        while (!stack.empty() && !succ(stack.back())) stack.pop_back();
        if (!stack.empty()) {
            bool ok = false; for (auto& p : x.e) ok |= p.first == stack.back() && p.second == w;
            CHECK(ok, "vertex " << w << " is listed although " << stack.back() << " still has an unvisited successor");
            par[w] = stack.back();
        }
        stack.push_back(w); vis.insert(w);
    }
    auto be = back_edges(x.g, x.v[a]);
    CHECK(s0 == x.snap(), "back_edges changed the graph");
    std::vector<char> isback(x.e.size(), 0);
    for (auto& q : be) {
        int f = -1;
        for (int k = 0; k < (int) x.ed.size(); k++) if (x.ed[k] == q) f = k;
        CHECK(f >= 0, "a reported back edge is not in the graph");
        if (f < 0) return;
        CHECK(!isback[f], "back edge " << x.e[f].first << ">" << x.e[f].second << " reported twice");
        isback[f] = 1;
    }
    // exactly the edges to an open vertex: the target is the source or one of its ancestors in that search
    for (size_t k = 0; k < x.e.size(); k++) {
        bool want = false;
        for (int w = x.e[k].first; w >= 0 && !want; w = par[w]) want = w == x.e[k].second;
        CHECK(isback[k] == want, "edge " << x.e[k].first << ">" << x.e[k].second << (want ? " leads to an open vertex and is not reported" : " is reported and does not lead to an open vertex") << " in the search from " << a);
    }
    G y; for (int k = 0; k < x.n; k++) y.vert();
    for (size_t k = 0; k < x.e.size(); k++) if (!isback[k]) y.edge(x.e[k].first, x.e[k].second);
    CHECK(!y.cyclic(), "the graph without the reported back edges still has a cycle");
    if (!x.cyclic()) CHECK(be.empty(), "back edges reported in an acyclic graph");
}
static void run(G& x) {
    auto& P = rp::PROP;
    if (P == "G01") g01(x); else if (P == "G02") g02(x); else if (P == "G03") g03(x);
    else if (P == "G04") g04(x); else if (P == "G05") g05(x); else g06(x);
}
int main(int argc, char** argv) {
    rp::init(argc, argv, 10, 120);
    puts("RULE every directed multigraph with up to 3 vertices and few edges, then random ones (sparse, dense, acyclic, with self loops, parallel edges, isolated and unreachable vertices), against brute-force definitions; the graph is compared before and after");
    // exhaustive small ones: every set of simple edges on up to 3 vertices, self loops included
    for (int n = 0; n <= 3; n++)
        for (int m = 0; m < (1 << (n * n)); m++) {
            G x; for (int k = 0; k < n; k++) x.vert();
            for (int b = 0; b < n * n; b++) if (m >> b & 1) x.edge(b / n, b % n);
            rp::at(x.str(), n > 1);
            int rep = rp::PROP == "G02" || rp::PROP == "G03" || rp::PROP == "G06" ? 3 : 1;
            for (int k = 0; k < rep; k++) run(x);
        }
    while (rp::more()) {
        G x;
        int n = (int) rp::rr(1, rp::coin(6) ? (rp::PROP == "G03" ? 7 : 14) : 6);
        for (int k = 0; k < n; k++) x.vert();
        int kind = (int) rp::rnd(5);
        int m = (int) rp::rnd(kind == 4 ? (rp::PROP == "G03" ? 16 : 40) : 2 * n + 1);
        if (rp::PROP == "G03" && m > 16) m = 16;
        for (int k = 0; k < m; k++) {
            int a = (int) rp::rnd(n), b = (int) rp::rnd(n);
            if (kind == 0 && a > b) std::swap(a, b);
            if (kind == 0 && a == b) continue;
            if (kind == 1 && rp::coin()) { b = (a + 1) % n; }
            if (kind == 2 && b == 0 && n > 1) b = 1;            // 0 keeps no predecessor
            x.edge(a, b);
            if (rp::coin(8)) x.edge(a, b);                      // parallel edge
        }
        rp::at(x.str());
        run(x);
    }
    return rp::done();
}
