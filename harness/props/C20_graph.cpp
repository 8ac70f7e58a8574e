// C20: the graph library behaves like a mathematical multigraph.
#include "../model/common.hpp"

#include <algorithm>
#include <cmath>
#include <powsybl/math/GraphUtil.hpp>
#include <powsybl/math/UndirectedGraph.hpp>

namespace math = powsybl::math;
using pbt::Case;

namespace {

struct Obj { int n; };
using Graph = math::UndirectedGraph<Obj, Obj>;
using math::TraverseResult;

struct Edge { unsigned long a, b; int obj; };

struct Ref {
    std::map<unsigned long, int> vertices;  // object or -1
    std::map<unsigned long, Edge> edges;

    std::vector<unsigned long> incident(unsigned long v) const {
        std::vector<unsigned long> r;
        for (const auto& e : edges) if (e.second.a == v || e.second.b == v) r.push_back(e.first);
        return r;
    }
    unsigned long other(unsigned long e, unsigned long v) const { return edges.at(e).a == v ? edges.at(e).b : edges.at(e).a; }
};

class Run {
public:
    explicit Run(Case& c) : c(c), s(c.s) { for (int i = 0; i < 40; ++i) objects.push_back(Obj{i}); }
    Case& c;
    pbt::Src& s;
    Graph g;
    Ref m;
    std::vector<Obj> objects;
    bool reused = false;
    std::set<unsigned long> freedV, freedE;

    int obj() { return s.chance(70) ? static_cast<int>(s.draw(objects.size())) : -1; }
    stdcxx::Reference<Obj> ref(int o) { return o < 0 ? stdcxx::Reference<Obj>() : stdcxx::Reference<Obj>(objects[o]); }
    int back(const stdcxx::Reference<Obj>& r) { return r ? r.get().n : -1; }
    unsigned long anyVertex() {
        if (!m.vertices.empty() && !s.chance(6)) {
            auto it = m.vertices.begin();
            std::advance(it, s.draw(m.vertices.size()));
            return it->first;
        }
        return s.chance(10) ? ~0UL : s.draw(24);
    }
    unsigned long anyEdge() {
        if (!m.edges.empty() && !s.chance(10)) {
            auto it = m.edges.begin();
            std::advance(it, s.draw(m.edges.size()));
            return it->first;
        }
        return s.chance(10) ? ~0UL : s.draw(40);
    }
    bool has(unsigned long v) const { return m.vertices.count(v) > 0; }

    // runs a request; `ok` says whether it must be accepted
    template <typename F> bool request(const std::string& what, bool ok, const F& f) {
        bool accepted = true;
        std::string error;
        try { f(); }
        catch (const PowsyblException& e) { accepted = false; error = e.what(); }
        c.note(what + (accepted ? "" : " -> " + error));
        c.checkEq(accepted, ok, "acceptance", what + " (" + error + "):");
        if (!accepted) c.label("refused");
        return accepted;
    }

    void step() {
        switch (s.weighted({20, 8, 24, 10, 8, 3, 2, 3, 8})) {
            case 0: {
                unsigned long v = g.addVertex();
                c.note("addVertex = " + std::to_string(v));
                c.check(!has(v), "vertex-number-in-use", "addVertex returned the live vertex " + std::to_string(v));
                if (freedV.erase(v)) reused = true;
                m.vertices[v] = -1;
                break;
            }
            case 1: {
                unsigned long v = s.draw(24);
                c.note("addVertexIfNotPresent " + std::to_string(v));
                g.addVertexIfNotPresent(v);
                if (freedV.erase(v)) reused = true;
                m.vertices.insert({v, -1});
                break;
            }
            case 2: {
                const unsigned long a = anyVertex(), b = anyVertex();
                const int o = obj();
                unsigned long e = 0;
                if (request("addEdge " + std::to_string(a) + "-" + std::to_string(b) + " object " + std::to_string(o), has(a) && has(b), [&] { e = g.addEdge(a, b, ref(o)); })) {
                    c.note(" = " + std::to_string(e));
                    c.check(m.edges.count(e) == 0, "edge-number-in-use", "addEdge returned the live edge " + std::to_string(e));
                    if (freedE.erase(e)) reused = true;
                    m.edges[e] = Edge{a, b, o};
                    if (a == b) c.label("loop");
                }
                break;
            }
            case 3: {
                const unsigned long e = anyEdge();
                const bool ok = m.edges.count(e) > 0;
                stdcxx::Reference<Obj> o;
                if (request("removeEdge " + std::to_string(e), ok, [&] { o = g.removeEdge(e); })) {
                    c.checkEq(back(o), m.edges[e].obj, "removed-object", "removeEdge:");
                    m.edges.erase(e);
                    freedE.insert(e);
                }
                break;
            }
            case 4: {
                const unsigned long v = anyVertex();
                const bool ok = has(v) && m.incident(v).empty();
                stdcxx::Reference<Obj> o;
                if (request("removeVertex " + std::to_string(v), ok, [&] { o = g.removeVertex(v); })) {
                    c.checkEq(back(o), m.vertices[v], "removed-object", "removeVertex:");
                    m.vertices.erase(v);
                    freedV.insert(v);
                }
                break;
            }
            case 5: {
                c.note("removeIsolatedVertices");
                g.removeIsolatedVertices();
                for (auto it = m.vertices.begin(); it != m.vertices.end();) {
                    if (it->second < 0 && m.incident(it->first).empty()) { freedV.insert(it->first); it = m.vertices.erase(it); }
                    else ++it;
                }
                c.label("removeIsolatedVertices");
                break;
            }
            case 6:
                c.note("removeAllEdges");
                g.removeAllEdges();
                for (const auto& e : m.edges) freedE.insert(e.first);
                m.edges.clear();
                break;
            case 7:
                if (request("removeAllVertices", m.edges.empty(), [&] { g.removeAllVertices(); })) {
                    for (const auto& v : m.vertices) freedV.insert(v.first);
                    m.vertices.clear();
                }
                break;
            default: {
                const unsigned long v = anyVertex();
                const int o = obj();
                if (request("setVertexObject " + std::to_string(v) + " " + std::to_string(o), has(v), [&] { g.setVertexObject(v, ref(o)); })) m.vertices[v] = o;
                break;
            }
        }
    }

    void verify() {
        c.checkEq(g.getVertexCount(), m.vertices.size(), "vertex-count", "number of vertices:");
        c.checkEq(g.getEdgeCount(), m.edges.size(), "edge-count", "number of edges:");
        const unsigned long capacity = m.vertices.empty() ? 0 : m.vertices.rbegin()->first + 1;
        c.check(g.getMaxVertex() >= capacity && g.getVertexCapacity() >= capacity, "vertex-capacity", "the greatest vertex number is not below the bound announced");
        c.checkEq(g.getMaxVertex(), g.getVertexCapacity(), "vertex-capacity", "getMaxVertex / getVertexCapacity:");
        std::vector<unsigned long> vs, es;
        std::vector<int> vo, eo, vx, ex;
        for (unsigned long v : g.getVertices()) vs.push_back(v);
        for (unsigned long e : g.getEdges()) es.push_back(e);
        const Graph& cg = g;
        for (const auto& o : cg.getVertexObjects()) vo.push_back(back(o));
        for (const auto& o : cg.getEdgeObjects()) eo.push_back(back(o));
        std::vector<int> vo2, eo2;
        for (const auto& o : g.getVertexObjects()) vo2.push_back(back(o));
        for (const auto& o : g.getEdgeObjects()) eo2.push_back(back(o));
        std::vector<unsigned long> ws, fs;
        for (const auto& v : m.vertices) { ws.push_back(v.first); vx.push_back(v.second); }
        for (const auto& e : m.edges) { fs.push_back(e.first); ex.push_back(e.second.obj); }
        auto sorted = [](std::vector<int> v) { std::sort(v.begin(), v.end()); return v; };
        std::sort(vs.begin(), vs.end());
        std::sort(es.begin(), es.end());
        c.check(vs == ws, "vertices", "getVertices does not list the live vertices");
        c.check(es == fs, "edges", "getEdges does not list the live edges");
        c.check(sorted(vo) == sorted(vx) && sorted(vo2) == sorted(vx), "vertex-objects", "getVertexObjects does not list the objects of the vertices");
        c.check(sorted(eo) == sorted(ex) && sorted(eo2) == sorted(ex), "edge-objects", "getEdgeObjects does not list the objects of the edges");
        for (unsigned long v = 0; v < 26; ++v) {
            c.checkEq(g.vertexExists(v), has(v), "vertex-exists", "vertex " + std::to_string(v) + ":");
            if (has(v)) c.checkEq(back(g.getVertexObject(v)), m.vertices[v], "vertex-object", "object of vertex " + std::to_string(v) + ":");
        }
        c.check(!g.vertexExists(~0UL), "vertex-exists", "the greatest number exists");
        for (const auto& e : m.edges) {
            c.checkEq(g.getVertex1(e.first), e.second.a, "edge-vertex", "first end of edge " + std::to_string(e.first) + ":");
            c.checkEq(g.getVertex2(e.first), e.second.b, "edge-vertex", "second end of edge " + std::to_string(e.first) + ":");
            c.checkEq(back(g.getEdgeObject(e.first)), e.second.obj, "edge-object", "object of edge " + std::to_string(e.first) + ":");
        }
    }

    // requests on vertices and edges that may be missing
    void queries() {
        const unsigned long v = anyVertex(), w = anyVertex(), e = anyEdge();
        const bool known = m.edges.count(e) > 0;
        request("getVertexObject " + std::to_string(v), has(v), [&] { g.getVertexObject(v); });
        request("getVertex1 " + std::to_string(e), known, [&] { g.getVertex1(e); });
        request("getVertex2 " + std::to_string(e), known, [&] { g.getVertex2(e); });
        request("getEdgeObject " + std::to_string(e), known, [&] { g.getEdgeObject(e); });
        std::vector<int> got, expected;
        const Graph& cg = g;
        if (request("getEdgeObjects " + std::to_string(v) + "-" + std::to_string(w), has(v) && has(w), [&] { for (const auto& o : cg.getEdgeObjects(v, w)) got.push_back(back(o)); })) {
            for (const auto& x : m.edges) if ((x.second.a == v && x.second.b == w) || (x.second.a == w && x.second.b == v)) expected.push_back(x.second.obj);
            std::sort(got.begin(), got.end());
            std::sort(expected.begin(), expected.end());
            c.check(got == expected, "edge-objects-between", "the objects of the edges between " + std::to_string(v) + " and " + std::to_string(w) + " differ: " + std::to_string(got.size()) + " instead of " + std::to_string(expected.size()));
            if (expected.size() > 1) c.label("parallel edges");
        }
    }

    void traversal() {
        const unsigned long start = anyVertex();
        // answers: per edge and direction, or depending on the history
        const unsigned mode = static_cast<unsigned>(s.draw(3));
        const unsigned stopPct = s.pickOf({0u, 20u, 50u});
        std::map<std::pair<unsigned long, unsigned long>, bool> go;
        for (const auto& e : m.edges) {
            const bool ab = !s.chance(stopPct), ba = mode == 1 ? !s.chance(stopPct) : ab;
            go[{e.first, e.second.b}] = ab;
            go[{e.first, e.second.a}] = ba;
        }
        std::vector<bool> encountered;
        std::set<unsigned long> before;
        if (s.chance(40)) {
            encountered.assign(m.vertices.empty() ? 0 : m.vertices.rbegin()->first + 1, false);
            for (size_t i = 0; i < encountered.size(); ++i) {
                if (s.chance(15) && has(i) && i != start) { encountered[i] = true; before.insert(i); }
            }
            c.label("vertices encountered before");
        }
        std::set<unsigned long> seen = before;
        seen.insert(start);
        std::set<unsigned long> tried;
        unsigned calls = 0, stops = 0;
        std::string bad;
        auto visitor = [&](unsigned long v1, unsigned long e, unsigned long v2) {
            ++calls;
            auto it = m.edges.find(e);
            const std::string what = "callback (" + std::to_string(v1) + ", " + std::to_string(e) + ", " + std::to_string(v2) + ")";
            if (it == m.edges.end()) { bad += what + ": no such edge\n"; return TraverseResult::TERMINATE; }
            if (!((it->second.a == v1 && it->second.b == v2) || (it->second.a == v2 && it->second.b == v1))) bad += what + ": not the ends of the edge\n";
            if (!seen.count(v1)) bad += what + ": comes from a vertex that was not reached\n";
            if (seen.count(v2)) bad += what + ": goes to a vertex reached before\n";
            if (!tried.insert(e).second) bad += what + ": edge crossed twice\n";
            const bool on = mode == 2 ? calls % 3 != 0 : go.at({e, v2});
            if (on) seen.insert(v2); else ++stops;
            return on ? TraverseResult::CONTINUE : TraverseResult::TERMINATE;
        };
        const bool simple = before.empty() && s.chance(30);
        if (!request("traverse from " + std::to_string(start), has(start), [&] { if (simple) g.traverse(start, visitor); else g.traverse(start, visitor, encountered); })) {
            c.checkEq(calls, 0u, "refused-with-effect", "callbacks of a refused traversal:");
            return;
        }
        c.check(bad.empty(), "traversal-callback", bad);
        if (!simple) {
            std::set<unsigned long> marked;
            for (size_t i = 0; i < encountered.size(); ++i) if (encountered[i]) marked.insert(i);
            c.check(marked == seen, "traversal-encountered", "the vertices marked as encountered are not those reached");
        }
        // every edge from a reached vertex to one that was not has been tried
        for (const auto& e : m.edges) {
            const bool a = seen.count(e.second.a) > 0 && !before.count(e.second.a), b = seen.count(e.second.b) > 0 && !before.count(e.second.b);
            if ((a && !seen.count(e.second.b)) || (b && !seen.count(e.second.a))) c.check(tried.count(e.first) > 0, "traversal-incomplete", "edge " + std::to_string(e.first) + " leads from a reached vertex to another one and was not tried");
        }
        if (mode != 2) {
            std::set<unsigned long> reach{start};
            for (bool more = true; more;) {
                more = false;
                for (const auto& e : m.edges) {
                    for (int d = 0; d < 2; ++d) {
                        const unsigned long x = d ? e.second.b : e.second.a, y = d ? e.second.a : e.second.b;
                        if (reach.count(x) && !reach.count(y) && !before.count(y) && go.at({e.first, y})) { reach.insert(y); more = true; }
                    }
                }
            }
            std::set<unsigned long> r = seen;
            for (unsigned long b : before) r.erase(b);
            c.check(r == reach, "traversal-reach", "from " + std::to_string(start) + " " + std::to_string(r.size()) + " vertices are reached instead of " + std::to_string(reach.size()));
        }
        if (stops > 0) c.label("stopped");
        if (seen.size() > 2) { c.label("traversal"); c.nontrivial(); }
    }

    void paths(unsigned long v, const std::set<int>& complete, const std::set<int>& cancelled, std::vector<unsigned long>& path, std::set<unsigned long>& seen, std::vector<std::vector<unsigned long>>& out) {
        for (const auto& e : m.edges) {
            if (e.second.a != v && e.second.b != v) continue;
            if (cancelled.count(e.second.obj)) continue;
            const unsigned long w = m.other(e.first, v);
            if (seen.count(w)) continue;
            path.push_back(e.first);
            if (complete.count(m.vertices.at(w))) out.push_back(path);
            else {
                seen.insert(w);
                paths(w, complete, cancelled, path, seen, out);
                seen.erase(w);
            }
            path.pop_back();
        }
    }

    void pathSearch() {
        if (m.edges.size() > 14) return;
        const unsigned long start = anyVertex();
        std::set<int> complete, cancelled;
        for (unsigned k = static_cast<unsigned>(s.draw(4)); k > 0; --k) complete.insert(obj());
        // prefer objects in use
        for (const auto& v : m.vertices) if (v.second >= 0 && s.chance(20)) complete.insert(v.second);
        for (const auto& e : m.edges) if (s.chance(10)) cancelled.insert(e.second.obj);
        std::vector<Graph::Path> got;
        if (!request("findAllPaths from " + std::to_string(start), has(start), [&] {
                got = g.findAllPaths(start, [&](const stdcxx::Reference<Obj>& o) { return complete.count(back(o)) > 0; }, [&](const stdcxx::Reference<Obj>& o) { return cancelled.count(back(o)) > 0; });
            })) return;
        for (size_t i = 1; i < got.size(); ++i) c.check(got[i - 1].size() <= got[i].size(), "paths-order", "a longer path comes first");
        std::vector<std::vector<unsigned long>> expected;
        std::vector<unsigned long> path;
        std::set<unsigned long> seen{start};
        paths(start, complete, cancelled, path, seen, expected);
        std::sort(got.begin(), got.end());
        std::sort(expected.begin(), expected.end());
        c.check(got == expected, "paths", "from " + std::to_string(start) + ": " + std::to_string(got.size()) + " paths instead of " + std::to_string(expected.size()));
        if (expected.size() > 1) c.label("several paths");
    }

    void componentNumbering() {
        std::vector<unsigned long> ids;
        std::map<unsigned long, unsigned long> index;
        for (const auto& v : m.vertices) { index[v.first] = ids.size(); ids.push_back(v.first); }
        math::GraphUtil::AdjacencyList adj(ids.size());
        std::vector<unsigned long> parent(ids.size());
        for (size_t i = 0; i < parent.size(); ++i) parent[i] = i;
        std::function<unsigned long(unsigned long)> root = [&](unsigned long x) { return parent[x] == x ? x : root(parent[x]); };
        for (const auto& e : m.edges) {
            const unsigned long a = index[e.second.a], b = index[e.second.b];
            adj[a].push_back(b);
            adj[b].push_back(a);
            parent[root(a)] = root(b);
        }
        const auto res = math::GraphUtil::computeConnectedComponents(adj);
        std::map<unsigned long, unsigned long> size, number;
        for (size_t i = 0; i < ids.size(); ++i) ++size[root(i)];
        c.checkEq(res.getComponentNumber().size(), ids.size(), "component-number", "numbered vertices:");
        c.checkEq(res.getComponentSize().size(), size.size(), "component-count", "components:");
        std::set<unsigned long> used;
        for (size_t i = 0; i < ids.size(); ++i) {
            c.check(static_cast<bool>(res.getComponentNumber()[i]), "component-number", "vertex without component");
            const unsigned long k = *res.getComponentNumber()[i];
            c.check(k < res.getComponentSize().size(), "component-number", "component number out of range");
            auto it = number.find(root(i));
            if (it == number.end()) {
                number[root(i)] = k;
                c.check(used.insert(k).second, "component-number", "two components have the same number");
                c.checkEq(res.getComponentSize()[k], size[root(i)], "component-size", "component " + std::to_string(k) + ":");
            } else {
                c.checkEq(k, it->second, "component-number", "vertices of the same component:");
            }
        }
        for (size_t k = 1; k < res.getComponentSize().size(); ++k) c.check(res.getComponentSize()[k - 1] >= res.getComponentSize()[k], "component-order", "a smaller component comes first");
        if (size.size() > 1) c.label("several components");
    }
};

}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C20";
    cfg.rule = "random histories (1-60 steps) of vertex and edge insertions and removals, object changes and requests on missing vertices and edges on a graph and a plain reference multigraph; after steps all counts, lists, ends and objects are compared, "
               "traversals with random answers (also depending on the history, also with vertices encountered before) are checked call by call and against direct reachability, path searches against an exhaustive enumeration, component numbering against union-find. "
               "Non-trivial: a traversal reached at least two further vertices.";
    cfg.quick = 300000;
    cfg.thorough = 3000000;
    cfg.quickSeconds = 40;
    cfg.requiredLabels = {"refused", "loop", "parallel edges", "traversal", "stopped", "several paths", "several components", "number reused", "vertices encountered before", "removeIsolatedVertices"};
    return pbt::runMain(argc, argv, cfg, [](Case& c) {
        Run r(c);
        const unsigned steps = 1 + static_cast<unsigned>(c.s.draw(60));
        for (unsigned i = 0; i < steps; ++i) {
            r.step();
            if (c.s.chance(50)) r.verify();
            if (c.s.chance(15)) r.queries();
            if (c.s.chance(15)) r.traversal();
            if (c.s.chance(8)) r.pathSearch();
            if (c.s.chance(6)) r.componentNumbering();
        }
        r.verify();
        r.traversal();
        r.pathSearch();
        r.componentNumbering();
        if (r.reused) c.label("number reused");
    });
}
