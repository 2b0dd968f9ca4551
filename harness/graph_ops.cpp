// G01 / G02: every history of mutations of the in-memory graph, up to a bound, against a plain reference multigraph.
#include <sstream>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/serialization/vector.hpp>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <vector>

#include "graph/adjacency_list.hpp"
#include "graph/compressed_sparse_row.hpp"
#include "graph/algorithm/breadth_first_search.hpp"
#include "mc.hpp"

using namespace map_matching_2;

static bool bake_suite = false;   // G02 instead of G01

enum Op { ADDV, ADDE, REME, REMP, CLEARV, REMV, REINDEX, COPY, ASSIGN, MOVE, BAKE };
static const char *op_name[] = {"add_vertex", "add_edge", "remove_edge", "remove_edges_between", "clear_vertex",
        "remove_vertex", "reindex", "copy", "assign", "move", "bake"};

struct Step { Op op; int a = -1, b = -1; };

static std::string show(const std::vector<Step> &h) {
    std::ostringstream os;
    for (auto &s : h) {
        os << op_name[s.op];
        if (s.a >= 0) { os << "(" << s.a; if (s.b >= 0) { os << "," << s.b; } os << ")"; }
        os << " ";
    }
    return os.str();
}

// positions, not ids: vertices/edges are lists in insertion order; vout/vin hold positions into edges
struct Model {
    struct E { int id, s, t; };   // s,t are vertex ids
    std::vector<int> vs;          // vertex ids in order
    std::vector<E> es;            // edges in order
    std::map<int, std::vector<int>> out, in;   // vertex id -> edge ids in order
    int nv = 0, ne = 0;
    bool dirty = false;

    const E &edge(int id) const { for (auto &e : es) { if (e.id == id) { return e; } } std::abort(); }
    int vpos(int id) const { for (std::size_t i = 0; i < vs.size(); ++i) { if (vs[i] == id) { return i; } } return -1; }
    int epos(int id) const { for (std::size_t i = 0; i < es.size(); ++i) { if (es[i].id == id) { return i; } } return -1; }

    std::string key() const {
        std::ostringstream os;
        os << dirty << "V" << vs.size();
        for (auto &e : es) { os << "|" << vpos(e.s) << "," << vpos(e.t); }
        for (int v : vs) {
            os << "/o";
            for (int e : out.at(v)) { os << epos(e) << ","; }
            os << "i";
            for (int e : in.at(v)) { os << epos(e) << ","; }
        }
        return os.str();
    }
};

template<typename Dir>
struct Sem {
    static constexpr bool und = std::is_base_of_v<graph::undirected, Dir>;
    static constexpr bool bi = std::is_base_of_v<graph::bidirectional, Dir>;

    static void drop(Model &m, int eid) {
        auto e = m.edge(eid);
        for (auto *mp : {&m.out, &m.in}) {
            for (auto &[v, l] : *mp) { std::erase(l, eid); }
        }
        m.es.erase(m.es.begin() + m.epos(eid));
        m.dirty = true;
    }

    // arguments are positions; returns false if the call must be refused
    static bool apply(Model &m, const Step &s) {
        switch (s.op) {
            case ADDV: {
                int id = m.nv++;
                m.vs.push_back(id);
                m.out[id];
                m.in[id];
                return true;
            }
            case ADDE: {
                int id = m.ne++;
                int u = m.vs[s.a], v = m.vs[s.b];
                m.es.push_back({id, u, v});
                m.out[u].push_back(id);
                if (und and u != v) { m.out[v].push_back(id); }
                if (bi) { m.in[v].push_back(id); }
                return true;
            }
            case REME: drop(m, m.es[s.a].id); return true;
            case REMP: {
                std::vector<int> ids;
                for (auto &e : m.es) { if (e.s == m.vs[s.a] and e.t == m.vs[s.b]) { ids.push_back(e.id); } }
                for (int i : ids) { drop(m, i); }
                return true;
            }
            case CLEARV: {
                std::vector<int> ids;
                for (auto &e : m.es) { if (e.s == m.vs[s.a] or e.t == m.vs[s.a]) { ids.push_back(e.id); } }
                for (int i : ids) { drop(m, i); }
                return true;
            }
            case REMV: {
                int v = m.vs[s.a];
                for (auto &e : m.es) { if (e.s == v or e.t == v) { return false; } }
                m.vs.erase(m.vs.begin() + s.a);
                m.out.erase(v);
                m.in.erase(v);
                m.dirty = true;
                return true;
            }
            case REINDEX: m.dirty = false; return true;
            default: return true;
        }
    }
};

template<typename Graph, typename Dir>
struct Real {
    using VD = typename Graph::vertex_descriptor;
    using ED = typename Graph::edge_descriptor;
    std::unique_ptr<Graph> g = std::make_unique<Graph>();
    std::map<int, VD> v;
    std::map<int, ED> e;

    void rebind(const Model &m) {
        v.clear();
        e.clear();
        std::size_t i = 0;
        auto vv = g->vertices_view();
        mc::require(vv.size() == m.vs.size(), "copy has ", vv.size(), " vertices instead of ", m.vs.size());
        for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) { v.emplace(m.vs[i++], VD{it}); }
        i = 0;
        auto ev = g->edges_view();
        mc::require(ev.size() == m.es.size(), "copy has ", ev.size(), " edges instead of ", m.es.size());
        for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) { e.emplace(m.es[i++].id, ED{it}); }
    }

    void apply(const Model &before, const Model &after, const Step &s, bool ok) {
        switch (s.op) {
            case ADDV: v.emplace(before.nv, g->add_vertex(100 + before.nv)); break;
            case ADDE: {
                int u = before.vs[s.a], w = before.vs[s.b];
                VD du = v.at(u), dw = v.at(w);
                e.emplace(before.ne, g->add_edge(du, dw, 1000 + before.ne));
                break;
            }
            case REME: if constexpr (requires(Graph &x, ED d) { x.remove_edge(d); }) {
                ED d = e.at(before.es[s.a].id);
                g->remove_edge(d);
            } break;
            case REMP: if constexpr (requires(Graph &x, VD d) { x.remove_edge(d, d); }) {
                VD a = v.at(before.vs[s.a]), b = v.at(before.vs[s.b]);
                g->remove_edge(a, b);
            } break;
            case CLEARV: if constexpr (requires(Graph &x, VD d) { x.clear_vertex(d); }) {
                VD a = v.at(before.vs[s.a]);
                g->clear_vertex(a);
            } break;
            case REMV: if constexpr (requires(Graph &x, VD d) { x.remove_vertex(d); }) {
                VD a = v.at(before.vs[s.a]);
                bool threw = false;
                try { g->remove_vertex(a); } catch (const std::runtime_error &) { threw = true; }
                mc::require(threw != ok, ok ? "removal of an isolated vertex was refused"
                        : "removal of a vertex that still has edges was not refused");
            } break;
            case REINDEX: if constexpr (requires(Graph &x) { x.reindex(); }) { g->reindex(); } break;
            case COPY: {
                auto n = std::make_unique<Graph>(*g);
                verify(before);      // source unchanged
                g = std::move(n);
                rebind(before);
                break;
            }
            case ASSIGN: {
                auto n = std::make_unique<Graph>();
                // assign over a non-empty target
                auto x = n->add_vertex(7);
                n->add_edge(x, x, 8);
                *n = *g;
                verify(before);
                g = std::move(n);
                rebind(before);
                auto &self = *g;
                *g = self;           // self assignment
                break;
            }
            case MOVE: {
                auto n = std::make_unique<Graph>(std::move(*g));
                g = std::move(n);
                rebind(before);
                break;
            }
            default: break;
        }
        for (auto it = v.begin(); it != v.end();) { if (after.vpos(it->first) < 0) { it = v.erase(it); } else { ++it; } }
        for (auto it = e.begin(); it != e.end();) { if (after.epos(it->first) < 0) { it = e.erase(it); } else { ++it; } }
    }

    mc::u64 verify(const Model &m) {
        mc::u64 h = 17;
        const Graph &cg = *g;
        const auto vv = cg.vertices_view();
        mc::require_eq(vv.size(), m.vs.size(), "number of vertices");
        mc::require_eq(vv.empty(), m.vs.empty(), "vertices empty()");
        std::size_t i = 0;
        std::map<const void *, int> vid, eid;
        for (auto it = vv.begin(); it != vv.end(); it = vv.next(it), ++i) {
            mc::require(i < m.vs.size(), "too many vertices when iterating");
            mc::require_eq(vv[it].get(), 100 + m.vs[i], "vertex payload at position ", i);
            vid[std::addressof(vv[it])] = m.vs[i];
            if (not m.dirty) { mc::require_eq(cg.vertex_index(it), i, "vertex index"); }
        }
        mc::require_eq(i, m.vs.size(), "iterated vertices");
        const auto ev = cg.edges_view();
        mc::require_eq(ev.size(), m.es.size(), "number of edges");
        i = 0;
        for (auto it = ev.begin(); it != ev.end(); it = ev.next(it), ++i) {
            mc::require(i < m.es.size(), "too many edges when iterating");
            mc::require_eq(ev[it].get(), 1000 + m.es[i].id, "edge payload at position ", i);
            const auto *s = std::addressof(cg.get_vertex(cg.source(it)));
            const auto *t = std::addressof(cg.get_vertex(cg.target(it)));
            mc::require(vid.contains(s) and vid.contains(t), "edge ", m.es[i].id, " points at a vertex that is gone");
            mc::require_eq(vid[s], m.es[i].s, "source of edge ", m.es[i].id);
            mc::require_eq(vid[t], m.es[i].t, "target of edge ", m.es[i].id);
            mc::require_eq(cg.is_self_loop(it), m.es[i].s == m.es[i].t, "self loop flag");
            eid[std::addressof(ev[it])] = m.es[i].id;
            if (not m.dirty) { mc::require_eq(cg.edge_index(it), i, "edge index"); }
            h = mc::hcat(h, mc::hcat(m.es[i].s, m.es[i].t));
        }
        mc::require_eq(i, m.es.size(), "iterated edges");
        i = 0;
        for (auto it = vv.begin(); it != vv.end(); it = vv.next(it), ++i) {
            int id = m.vs[i];
            auto list = [&](const auto &view, const std::vector<int> &want, const char *what) {
                std::vector<int> got;
                for (auto o = view.begin(); o != view.end(); o = view.next(o)) {
                    const auto *p = std::addressof(cg.get_edge(view[o]));
                    mc::require(eid.contains(p), what, " of vertex ", id, " reference a removed edge");
                    got.push_back(eid[p]);
                    if (got.size() > want.size() + 8) { break; }
                }
                mc::require_eq(mc::show(got), mc::show(want), what, " of vertex ", id);
                mc::require_eq(view.size(), want.size(), what, " size of vertex ", id);
                if (not want.empty()) {
                    std::vector<int> back;
                    auto o = view.end();
                    do {
                        o = view.prev(o);
                        back.push_back(eid.at(std::addressof(cg.get_edge(view[o]))));
                    } while (o != view.begin());
                    std::reverse(back.begin(), back.end());
                    mc::require_eq(mc::show(back), mc::show(want), what, " backwards of vertex ", id);
                    for (long k = 0; k < static_cast<long>(want.size()); ++k) {
                        mc::require_eq(eid.at(std::addressof(cg.get_edge(view.at(k)))), want[k], what, " at(", k, ")");
                        long r = k - static_cast<long>(want.size());
                        mc::require_eq(eid.at(std::addressof(cg.get_edge(view.at(r)))), want[k], what, " at(", r, ")");
                    }
                }
            };
            list(cg.out_edges_view(it), m.out.at(id), "out edges");
            mc::require_eq(cg.out_degree(it), m.out.at(id).size(), "out degree");
            if constexpr (Sem<Dir>::bi) {
                list(cg.in_edges_view(it), m.in.at(id), "in edges");
                mc::require_eq(cg.in_degree(it), m.in.at(id).size(), "in degree");
                mc::require_eq(cg.degree(it), m.in.at(id).size() + m.out.at(id).size(), "degree");
            }
            h = mc::hcat(h, m.out.at(id).size() * 16 + m.in.at(id).size());
        }
        return h;
    }

    // G02: the baked read-only graph against the graph it was baked from
    template<typename Csr>
    void bake(const Model &m) {
        const Graph &cg = *g;
        Csr c;
        c.from_adjacency_list(cg);
        Csr d{c};
        Csr a;
        a = c;
        Csr mv{std::move(d)};
        Csr rd;
        {
            std::stringstream io;
            { boost::archive::binary_oarchive out{io, boost::archive::no_header}; out << c; }
            { boost::archive::binary_iarchive in{io, boost::archive::no_header}; in >> rd; }
        }
        for (const Csr *cp : {&c, &a, &mv, &rd}) {
            const Csr &csr = *cp;
            mc::require_eq(csr.vertices_view().size(), m.vs.size(), "baked vertices");
            mc::require_eq(csr.edges_view().size(), m.es.size(), "baked edges");
            std::size_t total = 0;
            for (std::size_t i = 0; i < m.vs.size(); ++i) {
                mc::require_eq(csr.get_vertex_data(i), 100 + m.vs[i], "baked vertex payload");
                mc::require_eq(csr.vertex_index(i), i, "baked vertex index");
                std::vector<int> want;
                for (int eid : m.out.at(m.vs[i])) { if (m.edge(eid).s == m.vs[i]) { want.push_back(eid); } }
                const auto ov = csr.out_edges_view(i);
                std::vector<int> got;
                for (auto o = ov.begin(); o != ov.end(); o = ov.next(o)) {
                    mc::require(csr.edge_index(o) == o, "baked edge index");
                    got.push_back(csr.get_edge_data(o) - 1000);
                    mc::require_eq(csr.source(o), i, "baked source");
                    mc::require_eq(csr.target(o), static_cast<std::size_t>(m.vpos(m.edge(got.back()).t)), "baked target of edge ", got.back());
                    mc::require_eq(ov[o].get(), 1000 + got.back(), "baked payload by view");
                }
                mc::require_eq(mc::show(got), mc::show(want), "baked out edges of vertex ", i);
                mc::require_eq(ov.size(), want.size(), "baked out edges size");
                mc::require_eq(ov.empty(), want.empty(), "baked out edges empty()");
                mc::require_eq(csr.out_degree(i), want.size(), "baked out degree");
                if (not want.empty()) {
                    mc::require_eq(ov.front().get(), 1000 + want.front(), "baked front");
                    mc::require_eq(csr.get_edge(ov.prev(ov.end())).get(), 1000 + want.back(), "baked last edge");
                } else {
                    bool f = false;
                    try { (void) ov.front(); } catch (const std::out_of_range &) { f = true; }
                    mc::require(f, "front of an empty edge range must be refused");
                }
                total += got.size();
            }
            mc::require_eq(total, m.es.size(), "sum of baked out edges");
        }
    }
};

template<typename Graph, typename Dir, typename Csr>
void explore(const std::string &name, bool mutating, int max_v, int max_e, int depth) {
    mc::suite(name);
    struct Node { Model m; std::vector<Step> h; };
    std::deque<Node> q{{Model{}, {}}};
    std::unordered_set<std::string> seen{Model{}.key()};
    while (not q.empty()) {
        Node n = std::move(q.front());
        q.pop_front();
        std::vector<Step> ops;
        const int V = n.m.vs.size(), E = n.m.es.size();
        if (bake_suite) {
            if (not n.m.dirty) { ops.push_back({BAKE}); }
        }
        if (static_cast<int>(n.h.size()) < depth) {
            if (V < max_v) { ops.push_back({ADDV}); }
            if (E < max_e) { for (int a = 0; a < V; ++a) { for (int b = 0; b < V; ++b) { ops.push_back({ADDE, a, b}); } } }
            if (mutating) {
                for (int i = 0; i < E; ++i) { ops.push_back({REME, i}); }
                for (int a = 0; a < V; ++a) { for (int b = 0; b < V; ++b) { ops.push_back({REMP, a, b}); } }
                for (int a = 0; a < V; ++a) { ops.push_back({CLEARV, a}); }
                for (int a = 0; a < V; ++a) {
                    // a purely directional graph cannot see ingoing edges: removing their target is outside the contract
                    bool only_in = false;
                    for (auto &e : n.m.es) { only_in |= e.t == n.m.vs[a]; }
                    for (auto &e : n.m.es) { if (e.s == n.m.vs[a]) { only_in = false; break; } }
                    if (only_in and not Sem<Dir>::bi and not Sem<Dir>::und) { continue; }
                    ops.push_back({REMV, a});
                }
                if (n.m.dirty) { ops.push_back({REINDEX}); }
            }
            if (not n.m.dirty) { for (Op o : {COPY, ASSIGN, MOVE}) { ops.push_back({o}); } }
        }
        for (const Step &s : ops) {
            Model m2 = n.m;
            bool ok = Sem<Dir>::apply(m2, s);
            std::vector<Step> h = n.h;
            h.push_back(s);
            if (mc::mine() and (not bake_suite or s.op == BAKE)) {
                mc::exec([&] { return show(h); }, [&] {
                    Real<Graph, Dir> r;
                    Model m;
                    mc::u64 oc = 0;
                    for (const Step &st : h) {
                        Model nm = m;
                        bool k = Sem<Dir>::apply(nm, st);
                        r.apply(m, nm, st, k);
                        m = nm;
                        oc = r.verify(m);
                        mc::transition();
                    }
                    if (s.op == BAKE) { r.template bake<Csr>(m); }
                    if (h.size() > 3) { mc::nontrivial(); }
                    mc::state(mc::hstr(m.key() + name));
                    mc::outcome(oc);
                });
            }
            if (s.op != BAKE and ok and seen.insert(m2.key()).second) { q.push_back({m2, h}); }
        }
    }
}

template<typename Dir>
void all(const std::string &d) {
    using Csr = graph::compressed_sparse_row<std::vector, std::vector, graph::directional, int, int>;
    const bool t = mc::g.thorough;
    // baking only: many finished states, one operation each; otherwise every operation from every state
    const int v = bake_suite and t ? 4 : 3;
    const int e = bake_suite ? 4 : (t ? 5 : 4);
    using LL = graph::adjacency_list<std::list, std::list, Dir, int, int, std::list>;
    explore<LL, Dir, Csr>(d + "/lists", true, v, e, t ? 10 : 9);
    using VV = graph::adjacency_list<std::vector, std::vector, Dir, int, int, std::vector>;
    explore<VV, Dir, Csr>(d + "/vectors", false, v, e, t ? 10 : 9);
    using LVL = graph::adjacency_list<std::list, std::vector, Dir, int, int, std::list>;
    explore<LVL, Dir, Csr>(d + "/list-vector-list", false, v, e, t ? 9 : 7);
    using VLV = graph::adjacency_list<std::vector, std::list, Dir, int, int, std::vector>;
    explore<VLV, Dir, Csr>(d + "/vector-list-vector", false, v, e, t ? 9 : 7);
}

int main(int argc, char **argv) {
    for (int i = 1; i < argc; ++i) { if (std::string{argv[i]} == "--bake") { bake_suite = true; } }
    return mc::main_(argc, argv, [] {
        all<graph::directional>("directional");
        all<graph::bidirectional>("bidirectional");
        all<graph::undirected>("undirected");
    });
}
