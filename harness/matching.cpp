// M01/M02/M05: matching of tracks on small real networks.
// --search: candidates. Default: routes between candidates. --environment: environments and models on top of them.
#include "matching_common.hpp"
#include "learning/algorithms/value_iteration.hpp"
#include "learning/algorithms/policy_iteration.hpp"
#include "learning/algorithms/viterbi.hpp"

// ---------------------------------------------------------------- candidates
struct Mode {
    const char *name;
    Settings::CANDIDATE_SEARCH search;
    double radius, lower, upper;
    std::size_t k;
    bool adaptive, siblings, nearby, reverse;
    Settings settings() const {
        Settings s;
        s.candidate_search = search;
        s.radius = radius;
        s.radius_lower_limit = lower;
        s.radius_upper_limit = upper;
        s.k_nearest = k;
        s.adaptive_radius = adaptive;
        s.candidate_adoption_siblings = siblings;
        s.candidate_adoption_nearby = nearby;
        s.candidate_adoption_reverse = reverse;
        return s;
    }
};

static const std::vector<Mode> MODES{
        {"circle", Settings::CIRCLE, 12.3, 5, 12.3, 1, false, false, false, false},
        {"circle+doubling+siblings", Settings::CIRCLE, 3.7, 3.7, 100, 1, false, true, false, false},
        {"circle+adaptive+nearby", Settings::CIRCLE, 60.1, 4.3, 200, 1, true, false, true, false},
        {"circle+adaptive+all", Settings::CIRCLE, 60.1, 25.7, 40.3, 1, true, true, true, true},
        {"nearest", Settings::NEAREST, 200, 200, 10000, 1, true, false, false, false},
        {"nearest 3+siblings", Settings::NEAREST, 200, 200, 10000, 3, true, true, false, false},
        {"combined+doubling", Settings::COMBINED, 3.7, 3.7, 200, 2, false, false, false, false},
        {"combined+adaptive+nearby", Settings::COMBINED, 60.1, 4.3, 30.9, 4, true, false, true, false},
        {"next", Settings::NEXT, 200, 200, 10000, 1, true, false, false, false},
        {"next+siblings+nearby", Settings::NEXT, 200, 200, 10000, 1, true, true, true, false}
};

// edges that have to be and edges that may be candidates of their own
struct Want { std::set<int> must, may; };

static Want within(const Want &w, const Pt &p, const RNet &n, double radius, double *nearest = nullptr) {
    Want r;
    for (int e : w.may) {
        const double d = line_dist(p, n.edges[e].line);
        if (nearest) { *nearest = std::min(*nearest, d); }
        if (d <= radius + 1e-9) { r.may.insert(e); }
        if (d <= radius - 1e-9 and w.must.contains(e)) { r.must.insert(e); }
    }
    return r;
}

static Want k_nearest(const Pt &p, const RNet &n, std::size_t k) {
    std::vector<double> ds;
    for (auto &e : n.edges) { for (std::size_t i = 0; i + 1 < e.line.size(); ++i) { ds.push_back(seg_dist(p, e.line[i], e.line[i + 1])); } }
    std::sort(ds.begin(), ds.end());
    Want w;
    if (ds.empty()) { return w; }
    const double last = ds[std::min(k, ds.size()) - 1];
    for (int e = 0; e < static_cast<int>(n.edges.size()); ++e) {
        const double d = line_dist(p, n.edges[e].line);
        if (d <= last + 1e-9) { w.may.insert(e); }
        if (d <= last - 1e-9 or k >= ds.size()) { w.must.insert(e); }
    }
    return w;
}

// the point at the end of a line (its first or last one) is the nearest one beyond doubt
static bool nearest_at_end(const Pt &p, const Pts &l, bool first) {
    if (l.size() < 2) { return false; }
    const Pt &v = first ? l.front() : l.back(), &o = first ? l[1] : l[l.size() - 2];
    const double dot = (p.x - v.x) * (o.x - v.x) + (p.y - v.y) * (o.y - v.y);
    return dot < -1e-6 and std::fabs(line_dist(p, l) - seg_len(p, v)) < 1e-12;
}

static std::set<int> next_of(int e0, const Pt &p, const RNet &n, double eps) {
    const double d0 = line_dist(p, n.edges[e0].line);
    std::set<int> r{e0};
    for (int v : {n.edges[e0].s, n.edges[e0].t}) {
        for (int e = 0; e < static_cast<int>(n.edges.size()); ++e) {
            if (n.edges[e].s != v) { continue; }
            // roads that meet at their nearest point are equally near, without rounding
            const bool meet = nearest_at_end(p, n.edges[e].line, true) and nearest_at_end(p, n.edges[e0].line, n.edges[e0].s == v);
            if (meet or line_dist(p, n.edges[e].line) <= d0 + eps) { r.insert(e); }
        }
    }
    std::set<int> back = r;
    for (int f : r) {
        for (int e = 0; e < static_cast<int>(n.edges.size()); ++e) {
            if (n.edges[e].s == n.edges[f].t and n.edges[e].t == n.edges[f].s) { back.insert(e); }
        }
    }
    return back;
}

static void own_edges(const RNet &n, const Pts &track, std::size_t i, const Mode &m, const std::set<int> &got) {
    const Pt &p = track[i];
    Want all;
    for (int e = 0; e < static_cast<int>(n.edges.size()); ++e) { all.must.insert(e); all.may.insert(e); }
    if (m.search == Settings::NEXT) {
        const Want w = k_nearest(p, n, 1);
        bool ok = n.edges.empty() and got.empty();
        for (int e0 : w.may) {
            const auto lo = next_of(e0, p, n, -1e-9), hi = next_of(e0, p, n, 1e-9);
            ok = ok or (std::includes(got.begin(), got.end(), lo.begin(), lo.end()) and std::includes(hi.begin(), hi.end(), got.begin(), got.end()));
        }
        mc::require(ok, m.name, ": point ", i, ": got ", got.size(), " edges, not the nearest with its adjacent and reverse ones");
        return;
    }
    Want w = m.search == Settings::CIRCLE ? all : k_nearest(p, n, m.k);
    if (m.search != Settings::NEAREST) {
        double r = m.radius;
        if (m.adaptive) {
            const auto shrink = [&](std::size_t a, std::size_t b) { if (track[a] != track[b]) { r = std::min(r, seg_len(track[a], track[b])); } };
            if (i > 0) { shrink(i - 1, i); }
            if (i + 1 < track.size()) { shrink(i, i + 1); }
            r = std::max(r, m.lower);
        }
        r = std::min(r, m.upper);
        double nearest = 1e18;
        within(w, p, n, r, &nearest);
        if (std::fabs(nearest - r) < 1e-6) { mc::count("borderline"); }
        while (nearest > r and r < m.upper) { r = std::min(2 * r, m.upper); }
        w = within(w, p, n, r);
    }
    mc::require(std::includes(got.begin(), got.end(), w.must.begin(), w.must.end()), m.name, ": point ", i, ": got ", got.size(), " edges, at least ", w.must.size(), " are due");
    mc::require(std::includes(w.may.begin(), w.may.end(), got.begin(), got.end()), m.name, ": point ", i, ": got ", got.size(), " edges, at most ", w.may.size(), " are allowed");
}

// one candidate on its own: projection, distance and the two parts of its edge
static void check_candidate(const World &w, const Pt &p, const CEdge &c, bool own) {
    const REdge &e = w.plain.edges[w.edge(c.edge_desc)];
    const Pt q = pt_of(c.projection_point);
    mc::require_close(c.distance, seg_len(p, q), "distance of the candidate");
    mc::require(line_dist(q, e.line) < 1e-6, "projection lies on the edge");
    if (own) {
        mc::require(std::fabs(seg_len(p, q) - line_dist(p, e.line)) <= 1.01e-4, "projection is the nearest point: ", seg_len(p, q), " want ", line_dist(p, e.line));
        bool at_vertex = false;
        for (auto &v : e.line) { at_vertex = at_vertex or close(v, q, 1.01e-4); }
        if (not at_vertex) { mc::require(std::fabs(seg_len(p, q) - line_dist(p, e.line)) <= 1e-9, "projection is exactly the nearest point"); }
    }
    for (auto &v : e.line) { if (close(v, q, 0.99e-4)) { mc::require(v == q, "projection next to a point of the edge is this point"); } }
    const Pts from = points_of(c.from->line()), to = points_of(c.to->line());
    const bool front = q == e.line.front(), back = q == e.line.back();
    if (front) {
        mc::require(from.empty() and to == e.line, "candidate at the start of its edge: ", show(from), "| ", show(to));
    } else if (back) {
        mc::require(to.empty() and from == e.line, "candidate at the end of its edge: ", show(from), "| ", show(to));
    } else {
        mc::require(from.size() >= 2 and to.size() >= 2, "candidate within its edge has two parts");
        const double at = pos_on(q, e.line);
        Pts a, b{q};
        double s = 0;
        for (std::size_t i = 0; i < e.line.size(); ++i) {
            if (i) { s += seg_len(e.line[i - 1], e.line[i]); }
            if (s < at - 1e-7) { a.push_back(e.line[i]); }
            if (s > at + 1e-7) { b.push_back(e.line[i]); }
        }
        a.push_back(q);
        const auto same = [](const Pts &x, const Pts &y) {
            if (x.size() != y.size()) { return false; }
            for (std::size_t i = 0; i < x.size(); ++i) { if (not close(x[i], y[i])) { return false; } }
            return true;
        };
        mc::require(same(from, a), "part before the candidate: ", show(from), "want ", show(a));
        mc::require(same(to, b), "part behind the candidate: ", show(to), "want ", show(b));
        mc::require(from.back() == q and to.front() == q, "parts meet in the projection");
        mc::require_close(c.from->length() + c.to->length(), line_len(e.line), "parts make up the edge");
    }
}

using Key = std::pair<int, Pt>;
static bool has(const std::vector<Key> &s, const Key &k) {
    for (auto &x : s) { if (x.first == k.first and close(x.second, k.second)) { return true; } }
    return false;
}

static void check_search(const World &w, const Pts &track, const Mode &m, Algorithms &alg) {
    const Track t = track_of(track);
    const auto cands = alg.searcher.candidate_search(t, m.settings());
    mc::transition();
    mc::require_eq(cands.size(), track.size(), m.name, ": one candidate set per point");
    std::vector<std::vector<Key>> own(track.size());
    for (std::size_t i = 0; i < track.size(); ++i) {
        const Cand &c = cands[i];
        mc::require_eq(c.index, i, m.name, ": index");
        mc::require(c.track == &t, m.name, ": track");
        mc::require_eq(c.next_equal, i + 1 < track.size() and track[i] == track[i + 1], m.name, ": next_equal of ", i);
        std::set<int> edges;
        std::vector<Key> seen;
        double last = 0;
        for (auto &x : c.edges) {
            mc::require(x.distance >= last, m.name, ": candidates are sorted by distance");
            last = x.distance;
            const Key k{w.edge(x.edge_desc), pt_of(x.projection_point)};
            check_candidate(w, track[i], x, not x.adopted);
            mc::require(not has(seen, k), m.name, ": candidate twice");
            seen.push_back(k);
            if (not x.adopted) {
                mc::require(edges.insert(k.first).second, m.name, ": one candidate of its own per edge");
                own[i].push_back(k);
            }
        }
        own_edges(w.plain, track, i, m, edges);
        // nodes: the ends of all candidate edges
        std::set<int> ends, nodes;
        for (auto &k : seen) { ends.insert(w.plain.edges[k.first].s); ends.insert(w.plain.edges[k.first].t); }
        last = 0;
        for (auto &x : c.nodes) {
            const auto &v = w.net->vertex(x.vertex_desc);
            for (int j = 0; j < static_cast<int>(w.plain.nodes.size()); ++j) { if (w.plain.nodes[j].first == v.id) {
                mc::require(nodes.insert(j).second, m.name, ": node twice");
                mc::require_close(x.distance, seg_len(track[i], w.plain.nodes[j].second), "distance of the node");
            } }
            mc::require(x.distance >= last, m.name, ": nodes are sorted by distance");
            last = x.distance;
        }
        mc::require(nodes == ends, m.name, ": nodes of point ", i, " are the ends of its candidates");
        mc::outcome(mc::hcat(c.edges.size() * 32 + edges.size(), c.nodes.size()));
        if (not c.edges.empty()) { mc::nontrivial(); }
    }
    // adopted candidates
    const std::size_t n = track.size();
    std::vector<std::vector<Key>> must(n), may(n);
    const auto add = [](std::vector<Key> &to, const std::vector<Key> &from) { to.insert(to.end(), from.begin(), from.end()); };
    for (std::size_t i = 0; i < n; ++i) {
        if (m.siblings) {
            if (i > 0) { add(must[i], own[i - 1]); }
            if (i + 1 < n) { add(must[i], own[i + 1]); }
        }
        if (m.nearby) {
            double longest = 0;
            for (auto &k : own[i]) { longest = std::max(longest, seg_len(track[i], k.second)); }
            for (std::size_t j = 0; j < n; ++j) {
                if (j == i) { continue; }
                bool any = false;
                for (auto &k : own[j]) {
                    const double d = seg_dist(track[i], track[j], k.second);
                    if (longest > 0 and d <= longest + 1e-6) { may[i].push_back(k); }
                    if (longest > 1e-6 and d <= longest - 1e-6) { must[i].push_back(k); any = true; }
                }
                if (m.reverse and any) { add(must[j], own[i]); }
            }
        }
    }
    for (std::size_t i = 0; i < n; ++i) {
        add(may[i], must[i]);
        if (m.reverse) { for (auto &o : own) { add(may[i], o); } }
        std::vector<Key> got;
        bool adopted = false;
        for (auto &x : cands[i].edges) {
            const Key k{w.edge(x.edge_desc), pt_of(x.projection_point)};
            got.push_back(k);
            if (x.adopted) {
                adopted = true;
                mc::require(has(may[i], k), m.name, ": point ", i, " adopted a candidate it should not, on edge ", k.first);
            }
        }
        for (auto &k : must[i]) { mc::require(has(got, k), m.name, ": point ", i, " should have adopted a candidate on edge ", k.first); }
        if (adopted) { mc::count("adopted"); }
    }
}

static RNet nodes4() {
    RNet r;
    r.nodes = {{10, {0, 0}}, {11, {30, 0}}, {12, {30, 41}}, {13, {71, 10}}};
    return r;
}

static void road(RNet &r, const Road &o, unsigned long id) {
    const Pt a = r.nodes[o.a].second, b = r.nodes[o.b].second;
    Pts l{a};
    if (o.shape == 1) { l.push_back({(a.x + b.x) / 2 + (b.y - a.y) / 4 + 6, (a.y + b.y) / 2 + (a.x - b.x) * 3 / 10 - 4 + (o.a + o.b == 2 ? 39 : 0)}); }
    if (o.shape == 2) {
        const double k = 2.5 / seg_len(a, b);
        for (int i = 1; i < 20; ++i) {
            const double o = i % 2 ? k : 0;
            l.push_back({a.x + (b.x - a.x) * i / 20 - (b.y - a.y) * o, a.y + (b.y - a.y) * i / 20 + (b.x - a.x) * o});
        }
    }
    l.push_back(b);
    Pts back(l.rbegin(), l.rend());
    if (o.dir != 1) { r.edges.push_back({id, o.a, o.b, l}); }
    if (o.dir != 0) { r.edges.push_back({id, o.b, o.a, back}); }
}

static const Pts PLACES{{15, 0}, {30, 0}, {12.5, 4.25}, {29.99995, 7.5}, {44, 13.75}, {33.25, -9}, {30, 20.5}, {140, 95}};

template<typename F>
static void tracks_of(int len, int places, const F &f) {
    for (int n = 1; n <= len; ++n) {
        mc::product(std::vector<int>(n, places), [&](const std::vector<int> &v) {
            Pts p;
            for (int i : v) { p.push_back(PLACES[i]); }
            f(p);
        });
    }
}

static void searches(const char *name, const RNet &n, int len, int places) {
    mc::suite(name);
    std::unique_ptr<World> w;
    std::unique_ptr<util::time_helper> th;
    std::unique_ptr<Algorithms> used;       // one searcher for all tracks: it adapts itself to what it measured
    tracks_of(len, places, [&](const Pts &t) {
        mc::run_case([&] { return n.str() + " track " + show(t); }, [&] {
            if (not w) {
                w = std::make_unique<World>(n);
                th = std::make_unique<util::time_helper>();
                used = std::make_unique<Algorithms>(*w->net, *th);
            }
            mc::state(mc::hcat(mc::hstr(n.str()), mc::hstr(show(t))));
            for (auto &m : MODES) {
                Algorithms fresh{*w->net, *th};
                check_search(*w, t, m, fresh);
                check_search(*w, t, m, *used);
            }
        });
    });
}

static void search_body() {
    const bool deep = mc::g.thorough;
    const auto all = [&](const char *name, const std::vector<Road> &types, int roads, int len, int places) {
        multisets(static_cast<int>(types.size()), roads, [&](const std::vector<int> &pick) {
            for (std::size_t i = 1; i < pick.size(); ++i) { if (pick[i] == pick[i - 1]) { return; } }
            RNet n = nodes4();
            unsigned long id = 100;
            for (int t : pick) { road(n, types[t], id++); }
            searches(name, n, len, places);
        });
    };
    auto types = road_types(4, true, false);
    std::vector<Road> straight;
    for (auto &t : types) { if (t.shape == 0) { straight.push_back(t); } }
    std::vector<Road> lng;
    for (auto &t : straight) { Road x = t; x.shape = 2; lng.push_back(x); }
    all("search/no roads", types, 0, 2, 8);
    all("search/1 road", types, 1, 3, 8);
    all("search/1 long road", lng, 1, deep ? 3 : 2, 8);
    all("search/2 roads", types, 2, deep ? 3 : 2, deep ? 8 : 6);
    std::vector<Road> mix(straight.begin(), straight.begin() + 6);
    mix.insert(mix.end(), lng.begin(), lng.begin() + 6);
    all("search/2 roads with a long one", mix, 2, 2, 8);
    if (deep) { all("search/3 roads", straight, 3, 2, 7); }
    all("search/3 roads one point", straight, 3, 1, 8);
}

// ---------------------------------------------------------------- routes between candidates
using Route = NT::route_type;
using Policy = NT::policy_type;

// two ways one behind the other, the way back where they meet removed
static Pts reduced(Pts x, Pts y) {
    if (x.empty()) { return y; }
    if (y.empty()) { return x; }
    std::size_t at = 0;
    while (x.size() >= 2 and at + 1 < y.size()) {
        const Pt a = x[x.size() - 2], j = x.back(), b = y[at + 1];
        const double la = seg_len(a, j), lb = seg_len(j, b);
        const double cr = (j.x - a.x) * (b.y - j.y) - (j.y - a.y) * (b.x - j.x), dt = (j.x - a.x) * (b.x - j.x) + (j.y - a.y) * (b.y - j.y);
        if (dt >= 0 or std::fabs(cr) > 1e-6 * la * lb) { break; }
        if (std::fabs(la - lb) < 1e-7) { x.pop_back(); ++at; }
        else if (la < lb) { x.pop_back(); y[at] = a; }
        else { x.back() = b; ++at; }
        if (x.size() == 1) { x.back() = y[at]; }
    }
    x.insert(x.end(), y.begin() + static_cast<long>(at) + 1, y.end());
    return x;
}

static Pts concat(Pts x, const Pts &y) {
    if (x.empty()) { return y; }
    if (not y.empty()) { x.insert(x.end(), y.begin() + 1, y.end()); }
    return x;
}

// all shortest ways (as edges) from one node to another
static void ways(const RNet &n, int at, int goal, double left, std::vector<int> &way, std::vector<std::vector<int>> &out) {
    if (at == goal and left < 1e-6) { out.push_back(way); return; }
    for (int e = 0; e < static_cast<int>(n.edges.size()); ++e) {
        const double l = line_len(n.edges[e].line);
        if (n.edges[e].s == at and l <= left + 1e-6) {
            way.push_back(e);
            ways(n, n.edges[e].t, goal, left - l, way, out);
            way.pop_back();
        }
    }
}

struct Expect {
    bool stay = false, valid = false, open = false, near = false;     // open: at the bound, may be either; near: up to rounding at the same place
    double length = 0;
    std::vector<Pts> shapes;
    std::vector<std::vector<int>> edges;                 // edges along the way, one per shape; not when turns are cut
};

struct Opt { bool within, a_star; double factor; };

static const Opt OPTS[] = {{false, false, 10}, {true, false, 10}, {false, true, 10}, {true, true, -1}, {false, false, 1.3}, {false, true, 1.3}, {true, false, 1000}};

using Dist = std::map<std::pair<unsigned long, unsigned long>, double>;

static double bound_of(const World &w, const std::vector<Cand> &c, std::size_t from, std::size_t source, std::size_t to, std::size_t target, const Opt &o) {
    if (o.factor < 0) { return 1e17; }
    const RNet &n = w.plain;
    const Pt s = n.nodes[n.edges[w.edge(c[from].edges[source].edge_desc)].t].second;
    double m = 0;
    if (o.a_star) {
        m = seg_len(s, n.nodes[n.edges[w.edge(c[to].edges[target].edge_desc)].s].second);
    } else {
        for (auto &x : c[to].nodes) { m = std::max(m, seg_len(s, pt_of(w.net->vertex(x.vertex_desc).point))); }
    }
    return m * o.factor;
}

static Expect expected(const World &w, const Dist &d, const std::vector<Cand> &c, std::size_t from, std::size_t source, std::size_t to, std::size_t target, const Opt &o) {
    const RNet &n = w.plain;
    const CEdge &a = c[from].edges[source], &b = c[to].edges[target];
    const int e = w.edge(a.edge_desc), f = w.edge(b.edge_desc);
    const Pt p = pt_of(a.projection_point), q = pt_of(b.projection_point);
    const double pp = pos_on(p, n.edges[e].line), qq = pos_on(q, n.edges[f].line);
    Expect x;
    x.valid = true;
    if (p == q) { x.stay = true; return x; }
    x.near = close(p, q);
    const auto part = [&](const Pts &l, double lo, double hi, const Pt &first, const Pt &last) {
        if (hi - lo < 1e-9) { return Pts{}; }
        Pts r{first};
        double s = 0;
        for (std::size_t i = 0; i < l.size(); ++i) {
            if (i) { s += seg_len(l[i - 1], l[i]); }
            if (s > lo + 1e-7 and s < hi - 1e-7) { r.push_back(l[i]); }
        }
        r.push_back(last);
        return r;
    };
    if (e == f and pp <= qq) {
        x.length = qq - pp;
        x.shapes.push_back(part(n.edges[e].line, pp, qq, p, q));
        x.edges.push_back({e});
        return x;
    }
    const double path = d.at({n.nodes[n.edges[e].t].first, n.nodes[n.edges[f].s].first});
    const double bound = bound_of(w, c, from, source, to, target, o);
    if (path > 1e17 or path > bound + 1e-6) { x.valid = false; return x; }
    if (path > bound - 1e-6 and path > 0) { x.open = true; }
    const Pts &le = n.edges[e].line, &lf = n.edges[f].line;
    const Pts start = part(le, pp, line_len(le), p, le.back()), end = part(lf, 0, qq, lf.front(), q);
    x.length = line_len(start) + path + line_len(end);
    std::vector<int> way;
    std::vector<std::vector<int>> all;
    ways(n, n.edges[e].t, n.edges[f].s, path, way, all);
    for (auto &v : all) {
        Pts mid;
        std::vector<int> along;
        const auto add = [&](int i) { if (along.empty() or along.back() != i) { along.push_back(i); } };
        if (not start.empty()) { add(e); }
        for (int i : v) { mid = concat(mid, n.edges[i].line); add(i); }
        if (not end.empty()) { add(f); }
        if (o.within) {
            x.shapes.push_back(reduced(reduced(start, mid), end));
            x.length = line_len(x.shapes.back());
        } else {
            x.shapes.push_back(concat(concat(start, mid), end));
            x.edges.push_back(along);
        }
    }
    return x;
}

using Chunks = std::vector<Pts>;

// the lines of a route, attached ones together
static void attach(Chunks &c, const Pts &l) {
    if (l.size() < 2) { return; }
    if (not c.empty() and close(c.back().back(), l.front())) { c.back() = concat(c.back(), l); }
    else { c.push_back(l); }
}

static Chunks lines_of(const Route &r) {
    Chunks c;
    const auto m = r.template get_multi_rich_line<NT::lazy_multi_rich_line_type>();
    for (const auto &l : m.rich_lines()) { c.push_back(points_of(l.line())); }
    return c;
}

static Chunks chunks_of(const Route &r) {
    Chunks c;
    for (auto &l : lines_of(r)) { attach(c, l); }
    return c;
}

static std::string show(const Chunks &c) {
    std::string s;
    for (auto &l : c) { s += "[" + ::show(l) + "]"; }
    return s;
}

static bool same_chunks(const Chunks &a, const Chunks &b) {
    if (a.size() != b.size()) { return false; }
    for (std::size_t i = 0; i < a.size(); ++i) { if (not same_shape(a[i], b[i])) { return false; } }
    return true;
}

// the route (as chunks, empty if there is none), after comparing it with what is expected
static bool check_route(const World &w, const Route &r, const Expect &x, const std::string &what, Algorithms &alg, bool edges) {
    if (x.near and not r.is_invalid() and (not r.has_length() or r.length() < 1e-5)) { return true; }
    if (not x.valid or (x.open and r.is_invalid())) {
        mc::require(r.is_invalid(), what, ": there is no route within the bound, got ", show(chunks_of(r)));
        return false;
    }
    mc::require(not r.is_invalid(), what, ": there is a route of ", x.length);
    if (x.stay or x.length < 1e-9) {
        mc::require(not r.has_length() and chunks_of(r).empty(), what, ": nothing to travel, got ", show(chunks_of(r)));
        return true;
    }
    const Chunks c = chunks_of(r);
    mc::require_eq(c.size(), std::size_t{1}, what, ": connected route, got ", show(c));
    mc::require_close(line_len(c[0]), x.length, what, ": way of the route");
    mc::require(r.has_length(), what, ": has a length");
    mc::require_close(r.length(), x.length, what, ": length of the route");
    int hit = -1;
    for (std::size_t i = 0; i < x.shapes.size() and hit < 0; ++i) { if (same_shape(c[0], x.shapes[i])) { hit = static_cast<int>(i); } }
    mc::require(hit >= 0, what, ": got ", show(c), " want ", show(x.shapes));
    mc::nontrivial();
    mc::outcome(static_cast<mc::u64>(x.length * 16));
    if (edges and not x.edges.empty()) {
        const auto list = alg.router.edges_list(r);
        std::vector<int> got;
        for (auto &e : list) {
            const Pts l = points_of(e.get().rich_line.line());
            for (std::size_t i = 0; i < w.plain.edges.size(); ++i) { if (w.plain.edges[i].id == e.get().id and w.plain.edges[i].line == l) { got.push_back(static_cast<int>(i)); } }
        }
        bool ok = false;
        for (auto &v : x.edges) { ok = ok or v == got; }
        mc::require(ok, what, ": edges along the route: ", mc::show(got), " want ", mc::show(x.edges[0]));
        std::vector<std::uint64_t> ids;
        Chunks full;
        for (int i : got) {
            if (ids.empty() or ids.back() != w.plain.edges[i].id) { ids.push_back(w.plain.edges[i].id); }
            attach(full, w.plain.edges[i].line);
        }
        mc::require(alg.router.edge_ids(list) == ids, what, ": numbers of the edges");
        mc::require(same_chunks(chunks_of(alg.router.export_edges_route(list)), full), what, ": whole edges along the route");
    }
    return true;
}

static RNet nodes_street() {
    RNet r;
    r.nodes = {{20, {0, 0}}, {21, {30, 0}}, {22, {60, 0}}, {23, {30, 41}}};
    return r;
}

static const Pts SPOTS{{12.5, 4.25}, {30, 0}, {22, 0}, {44, -3}, {33.25, 18}};

static Settings wide() {
    Settings s;
    s.candidate_search = Settings::CIRCLE;
    s.radius = 500;
    s.radius_lower_limit = 500;
    s.candidate_adoption_siblings = s.candidate_adoption_nearby = s.adaptive_radius = false;
    return s;
}

static void routes_case(const World &w, const Dist &d, const Pts &track, util::time_helper &th) {
    const Track t = track_of(track);
    Algorithms finder{*w.net, th};
    const auto c = finder.searcher.candidate_search(t, wide());
    mc::require_eq(c[0].edges.size(), w.plain.edges.size(), "all edges are candidates");
    for (auto &o : OPTS) {
        Algorithms shared{*w.net, th};
        for (std::size_t s = 0; s < c[0].edges.size(); ++s) { for (std::size_t e = 0; e < c[1].edges.size(); ++e) {
            const Expect x = expected(w, d, c, 0, s, 1, e, o);
            std::ostringstream what;
            what << "from " << w.edge(c[0].edges[s].edge_desc) << " to " << w.edge(c[1].edges[e].edge_desc) << (o.within ? " within" : "") << (o.a_star ? " a*" : "") << " factor " << o.factor;
            Algorithms fresh{*w.net, th};
            mc::transition();
            check_route(w, fresh.router.candidate_route(c, 0, s, 1, e, o.within, o.a_star, o.factor), x, what.str(), fresh, not o.within);
            const Route again = shared.router.candidate_route(c, 0, s, 1, e, o.within, o.a_star, o.factor);
            check_route(w, again, x, what.str() + " with the same router", shared, false);
        } }
    }
}

// one router asked for all routes between three points, in every order of the pairs of points
static void history_case(const World &w, const Dist &d, const Pts &track, util::time_helper &th) {
    const Track t = track_of(track);
    Algorithms finder{*w.net, th};
    Settings near = wide();
    near.radius = near.radius_lower_limit = near.radius_upper_limit = 25;
    const auto c = finder.searcher.candidate_search(t, near);
    std::vector<std::pair<int, int>> legs{{0, 1}, {1, 2}, {0, 2}};
    std::sort(legs.begin(), legs.end());
    do {
        for (double factor : {1.0, 1.2, 1.5, 3.0}) { for (bool a_star : {false, true}) {
            const Opt o{false, a_star, factor};
            Algorithms shared{*w.net, th};
            for (auto [a, b] : legs) {
                for (std::size_t s = 0; s < c[a].edges.size(); ++s) { for (std::size_t e = 0; e < c[b].edges.size(); ++e) {
                    Expect x = expected(w, d, c, a, s, b, e, o);
                    const Expect free = expected(w, d, c, a, s, b, e, {false, a_star, -1});
                    const Route r = shared.router.candidate_route(c, a, s, b, e, o.within, o.a_star, o.factor);
                    mc::transition();
                    if (not x.valid and not r.is_invalid()) { x = free; }      // found earlier with a larger bound
                    check_route(w, r, x, "after other routes", shared, false);
                } }
            }
        } }
    } while (std::next_permutation(legs.begin(), legs.end()));
}

// policies: every point picks a candidate (after 0, 1 or 2 repetitions of the entry before it) or repeats the entry before it
static void policy_case(const World &w, const Dist &d, const Pts &track, int picks, util::time_helper &th) {
    const Track t = track_of(track);
    Algorithms finder{*w.net, th};
    const auto c = finder.searcher.candidate_search(t, wide());
    const int k = std::min<int>(picks, static_cast<int>(c[0].edges.size()));
    if (k == 0) { return; }
    const int n = static_cast<int>(track.size());
    mc::product(std::vector<int>(n, 3 * k + 1), [&](const std::vector<int> &v) {
        Policy pol;
        std::vector<std::pair<std::size_t, bool>> picked;       // entry of the policy, after a gap
        bool gap = false;
        for (int i = 0; i < n; ++i) {
            const int repeats = v[i] == 3 * k ? 1 : v[i] / k;
            for (int r = 0; r < repeats; ++r) { if (not pol.empty()) { pol.push_back(pol.back()); gap = true; } }
            if (v[i] < 3 * k) {
                picked.push_back({pol.size(), gap});
                pol.emplace_back(static_cast<std::size_t>(i), static_cast<std::size_t>(v[i] % k));
                gap = false;
            }
        }
        for (bool join : {false, true}) {
            const Opt o{false, false, 10};
            Chunks want;
            double length = 0;
            std::vector<Pt> inner;       // places within edges where two routes meet without turning back
            bool met = false, tie = false;
            for (std::size_t i = 1; i < picked.size(); ++i) {
                const auto &a = pol[picked[i - 1].first], &b = pol[picked[i].first];
                if (picked[i].second) { met = false; continue; }
                const Expect x = expected(w, d, c, a.first, a.second, b.first, b.second, o);
                tie = tie or x.open or x.near;
                if (not x.valid) { met = false; continue; }
                if (x.stay) { continue; }
                tie = tie or x.shapes.size() > 1;
                length += x.length;
                const Pt at = pt_of(c[a.first].edges[a.second].projection_point);
                if (met) {
                    bool vertex = false;
                    for (auto &e : w.plain.edges) { for (auto &q : e.line) { vertex = vertex or close(q, at); } }
                    const Pts &l = want.back(), &r = x.shapes[0];
                    const bool turns = same_shape(concat({l[l.size() - 2], l.back()}, {r[0], r[1]}), {l[l.size() - 2], l.back(), r[1]}) and not same_shape({l[l.size() - 2], r[1]}, {l[l.size() - 2], l.back(), r[1]});
                    if (not vertex and not turns) { inner.push_back(at); }
                }
                attach(want, x.shapes[0]);
                met = true;
            }
            if (tie) { return; }
            Algorithms alg{*w.net, th};
            const Route r = alg.router.candidates_route(c, pol, o.within, join, o.a_star, o.factor);
            mc::transition();
            const auto tell = [&] { std::ostringstream os; for (auto &p : pol) { os << p.first << ":" << w.edge(c[p.first].edges[p.second].edge_desc) << " "; } return os.str(); };
            if (want.empty()) {
                mc::require(not r.has_length() and chunks_of(r).empty(), "policy ", tell(), ": nothing to travel, got ", show(chunks_of(r)));
                continue;
            }
            mc::nontrivial();
            const Chunks got = chunks_of(r);
            mc::require(same_chunks(got, want), "policy ", tell(), ": got ", show(got), " want ", show(want));
            mc::require_close(r.length(), length, "policy ", tell(), ": length");
            if (join) {
                for (auto &at : inner) {
                    int times = 0;
                    for (auto &p : pol) { times += close(pt_of(c[p.first].edges[p.second].projection_point), at); }
                    if (times > 1) { continue; }
                    for (auto &l : lines_of(r)) { for (auto &q : l) { mc::require(not close(q, at), "policy ", tell(), ": point within an edge where two routes meet is still there"); } }
                    mc::count("joined");
                }
            }
        }
    });
}

static void routes_body() {
    const bool deep = mc::g.thorough;
    const auto worlds = [&](const char *name, const std::vector<Road> &types, int roads, const std::vector<Pts> &tracks, const auto &f) {
        multisets(static_cast<int>(types.size()), roads, [&](const std::vector<int> &pick) {
            for (std::size_t i = 1; i < pick.size(); ++i) { if (types[pick[i]].a == types[pick[i - 1]].a and types[pick[i]].b == types[pick[i - 1]].b and types[pick[i]].shape == types[pick[i - 1]].shape) { return; } }
            RNet n = nodes_street();
            unsigned long id = 100;
            for (int t : pick) { road(n, types[t], id++); }
            mc::suite(name);
            std::unique_ptr<World> w;
            Dist d;
            util::time_helper th;
            for (auto &t : tracks) {
                mc::run_case([&] { return n.str() + " track " + show(t); }, [&] {
                    if (not w) { w = std::make_unique<World>(n); d = all_distances(n); }
                    mc::state(mc::hcat(mc::hstr(n.str()), mc::hstr(show(t))));
                    f(*w, d, t, th);
                });
            }
        });
    };
    std::vector<Road> straight, types;
    for (auto &t : road_types(4, true, false)) {
        if (t.shape == 0 and not (t.a == 0 and t.b == 2)) { straight.push_back(t); }
        if (t.shape == 1 or not (t.a == 0 and t.b == 2)) { types.push_back(t); }
    }
    std::sort(straight.begin(), straight.end(), [](const Road &x, const Road &y) { return std::tie(x.a, x.b, x.dir) < std::tie(y.a, y.b, y.dir); });
    std::sort(types.begin(), types.end(), [](const Road &x, const Road &y) { return std::tie(x.a, x.b, x.shape, x.dir) < std::tie(y.a, y.b, y.shape, y.dir); });
    std::vector<Pts> pairs, few, triples, legs;
    for (auto &a : SPOTS) { for (auto &b : SPOTS) { pairs.push_back({a, b}); } }
    for (int i : {0, 2, 3}) { for (int j : {0, 1, 4}) { few.push_back({SPOTS[i], SPOTS[j]}); } }
    // beyond the ends of roads, and a bit back on the same road
    const Pts beyond{{-5, 3}, {70, 3}, {21.4, 1}};
    std::vector<Pts> all = pairs;
    for (auto &a : beyond) { for (auto &b : SPOTS) { all.push_back({a, b}); all.push_back({b, a}); } for (auto &b : beyond) { all.push_back({a, b}); } }
    for (auto &p : std::vector<Pts>{{beyond[0], beyond[1]}, {beyond[1], beyond[0]}, {SPOTS[2], beyond[2]}, {beyond[0], SPOTS[3]}}) { few.push_back(p); }
    for (auto &a : SPOTS) { for (auto &b : SPOTS) { for (auto &c : SPOTS) { triples.push_back({a, b, c}); } } }
    triples.push_back({SPOTS[0], {27, 35}, SPOTS[4]});
    worlds("routes/1 road", types, 1, all, routes_case);
    worlds("routes/2 roads", types, 2, deep ? all : few, routes_case);
    worlds("routes/3 roads", straight, 3, deep ? pairs : std::vector<Pts>{{SPOTS[0], SPOTS[3]}, {SPOTS[2], SPOTS[4]}, {SPOTS[3], SPOTS[2]}}, routes_case);
    worlds("histories/2 roads", straight, 2, triples, history_case);
    worlds("histories/3 roads", straight, 3, deep ? triples : legs = {{SPOTS[0], {27, 35}, SPOTS[4]}, {SPOTS[0], SPOTS[2], SPOTS[3]}, {SPOTS[3], SPOTS[4], SPOTS[0]}, {SPOTS[4], SPOTS[0], SPOTS[2]}}, history_case);
    const auto pol = [&](int picks) { return [picks](const World &w, const Dist &d, const Pts &t, util::time_helper &th) { policy_case(w, d, t, picks, th); }; };
    worlds("policies/1 road", types, 1, deep ? triples : std::vector<Pts>{{SPOTS[0], SPOTS[2], SPOTS[1]}, {SPOTS[2], SPOTS[0], SPOTS[3]}}, pol(2));
    worlds("policies/2 roads", straight, 2, {{SPOTS[0], SPOTS[2], SPOTS[3]}, {SPOTS[3], SPOTS[0], SPOTS[4]}, {SPOTS[2], SPOTS[1], SPOTS[2]}}, pol(deep ? 4 : 2));
    worlds("policies/4 points", straight, 2, {{SPOTS[0], SPOTS[2], SPOTS[3], SPOTS[4]}}, pol(deep ? 2 : 1));
}

// ---------------------------------------------------------------- environments and models
using Single = environment::single<Net>;
using Hmm = environment::hmm<Net>;

static double wrap(double a) { while (a > 180) { a -= 360; } while (a < -180) { a += 360; } return a; }
static double azim(const Pt &a, const Pt &b) { return std::atan2(b.x - a.x, b.y - a.y) * 180 / M_PI; }

// cost parts of going from one candidate to the next: distance, length, azimuth, turn, direction
struct Cost { double part[5]{}; double fail = 0; bool skip = false, done = false, open = false; };

struct Step { std::vector<std::int64_t> next; std::size_t action; double reward; bool done; };

static double total(const Cost &c, const Settings &s) {
    return -(s.mdp_distance_factor * c.part[0] + s.mdp_length_factor * c.part[1] + s.mdp_azimuth_factor * c.part[2]
            + s.mdp_turn_factor * c.part[3] + s.mdp_direction_factor * c.part[4] + c.fail);
}

static Cost cost(const World &, const std::vector<Cand> &c, const Pts &track, const std::vector<std::int64_t> &st, std::int64_t action, const Settings &s, const Algorithms &alg) {
    Cost r;
    if (action < 0) { return r; }
    const std::size_t next = st.back(), n = track.size();
    const double nd = c[next].edges[action].distance;
    if (st.size() < 3) {
        r.part[0] = next == 0 ? nd * 3 : nd * 0.1;
        return r;
    }
    const std::size_t cur = st[st.size() - 3];
    const std::int64_t ca = st[st.size() - 2];
    if (ca < 0) { return r; }
    const auto rest = [&] { double x = 0; for (std::size_t i = cur; i + 1 < n; ++i) { x += seg_len(track[i], track[i + 1]); } return x; };
    const double cd = c[cur].edges[ca].distance;
    const Route route = alg.router.candidate_route(c, cur, ca, next, action, s.within_edge_turns, s.a_star, s.routing_max_distance_factor);
    if (route.is_invalid()) { r.fail = rest(); r.skip = s.skip_errors; return r; }
    const bool still = track[cur] == track[next];
    const double length = route.has_length() ? route.length() : 0, way = seg_len(track[cur], track[next]);
    if (not (still and not route.has_length())) {
        r.part[0] = nd + cd + (next + 1 == n ? 2 * nd : 0);
        const double diff = std::fabs(way - length);
        if (length > 0 and way > 0) {
            r.part[1] = diff * length / way;
            r.skip = s.skip_errors and length / way > 10;
            r.open = std::fabs(length / way - 10) < 1e-6;
        } else {
            r.part[1] = diff;
        }
        if (route.has_azimuth()) {
            const double ra = route.azimuth(), ta = still ? ra : azim(track[cur], track[next]);
            r.part[2] = std::fabs(wrap(ta - ra));
            if (cur >= 1 and next >= 2 and not (track[cur - 1] == track[cur])) {
                const double before = azim(track[cur - 1], track[cur]);
                if (next == cur + 1 ? not still : true) {
                    const double tt = wrap(before - ta), rt = wrap(before - ra);
                    r.part[3] = std::fabs(wrap(tt - rt));
                    r.open = r.open or std::fabs(std::fabs(wrap(tt - rt)) - 180) < 1e-6;
                }
            }
        }
        if (route.has_directions()) { r.part[4] = route.absolute_directions(); }
    }
    if (st.size() > 3) {
        const std::size_t prev = st[st.size() - 5];
        const std::int64_t pa = st[st.size() - 4];
        if (pa >= 0) {
            const Route before = alg.router.candidate_route(c, prev, pa, cur, ca, s.within_edge_turns, s.a_star, s.routing_max_distance_factor);
            if (not before.is_invalid()) {
                const Chunks x = chunks_of(before), y = chunks_of(route);
                if (not x.empty() and not y.empty()) {
                    if (before.has_azimuth() and route.has_azimuth() and not (track[prev] == track[cur]) and not still) {
                        const double tt = wrap(azim(track[prev], track[cur]) - azim(track[cur], track[next])), rt = wrap(before.azimuth() - route.azimuth());
                        r.part[3] += std::fabs(wrap(tt - rt));
                    }
                    // the way back where both meet
                    const Pts cut = reduced(x.back(), y.front());
                    const double back = (line_len(x.back()) + line_len(y.front()) - line_len(cut)) / 2;
                    if (back > 1e-9) { r.part[1] += back * 2; r.open = true; }        // where it ends within a segment is for the routes to say
                }
            }
        }
    }
    return r;
}

static std::string show_state(const std::vector<std::int64_t> &v) { return mc::show(v); }

using Graph = std::map<std::vector<std::int64_t>, std::map<std::size_t, Step>>;

// everything reachable, in one order of the actions or the other
static Graph explore(Single &env, bool backwards) {
    Graph g;
    const auto start = env.reset();
    std::vector<std::size_t> todo{start};
    std::set<std::size_t> seen{start};
    while (not todo.empty()) {
        const std::size_t st = backwards ? todo.back() : todo.front();
        todo.erase(backwards ? todo.end() - 1 : todo.begin());
        const auto in = env.state2internal(st);
        auto &out = g[in];
        env.state = st;
        auto acts = env.actions();
        if (backwards) { std::reverse(acts.begin(), acts.end()); }
        for (auto a : acts) {
            env.state = st;
            const auto [next, action, reward, done] = env.step(a);
            mc::require_eq(env.state, next, "state after a step");
            out[a] = {env.state2internal(next), action, reward, done};
            mc::transition();
            if (not done and seen.insert(next).second) { todo.push_back(next); }
        }
    }
    return g;
}

static void brute(const Graph &g, const std::vector<std::int64_t> &st, double value, double factor, const Policy &p, std::vector<std::pair<double, Policy>> &all) {
    for (auto &[a, x] : g.at(st)) {
        Policy q = p;
        if (x.action >= 2) { q.emplace_back(st.back(), x.action - 2); } else if (not q.empty()) { q.push_back(Policy::value_type{q.back()}); }
        const double v = value + factor * x.reward;
        if (x.done) { all.emplace_back(v, q); } else { brute(g, x.next, v, factor * 0.99, q, all); }
    }
}

static void single_case(const World &w, const Pts &track, Settings s, util::time_helper &th, bool learn) {
    Algorithms alg{*w.net, th};
    Single env{*w.net, alg, s};
    env.set(track_of(track));
    env.init();
    const auto &c = env.candidates();
    mc::require_eq(c.size(), track.size(), "candidates of all points");
    const Graph g = explore(env, false);
    Algorithms fresh{*w.net, th};
    for (auto &[st, acts] : g) {
        const std::size_t pos = st.back();
        mc::state(mc::hcat(mc::hstr(w.plain.str() + show(track)), mc::hstr(show_state(st))));
        mc::require(pos < track.size(), "state beyond the end");
        const std::size_t n = c[pos].edges.size();
        mc::require_eq(acts.size(), std::max<std::size_t>(n, 1), "actions at ", show_state(st));
        mc::require(n > 0 or acts.contains(0), "only no action without candidates");
        for (auto &[a, x] : acts) {
            std::ostringstream what;
            what << "state " << show_state(st) << " action " << a << ": ";
            const std::int64_t choice = n ? static_cast<std::int64_t>(a) - 2 : -1;
            const Cost k = cost(w, c, track, st, choice, s, fresh);
            mc::require(std::isfinite(x.reward) and x.reward <= 0, what.str(), "reward ", x.reward);
            mc::outcome(static_cast<mc::u64>(-x.reward * 64));
            mc::require_eq(x.done, static_cast<std::size_t>(x.next.back()) >= track.size(), what.str(), "done");
            mc::require(x.action == a or x.action == 1, what.str(), "does something else");
            if (not k.open) {
                mc::require(mc::close_to(x.reward, total(k, s), 1e-7, 1e-5), what.str(), "reward ", x.reward, " want ", total(k, s));
                mc::nontrivial();
            }
            if (not k.open or not x.done) { mc::require_eq(x.action == 1, k.skip, what.str(), "skip"); }
            if (x.action == 1) {
                mc::count("skips");
                // same point again, knowing less about the points before
                if (not x.done) { mc::require(x.next.back() == st.back() and x.next.size() < st.size(), what.str(), "skipped to ", show_state(x.next)); }
            } else {
                if (not x.done or x.next.back() == st.back() + 1) {
                    std::vector<std::int64_t> want = st;
                    want.push_back(choice);
                    want.push_back(st.back() + 1);
                    const std::size_t most = 2 * s.state_size - 1;
                    if (want.size() > most) { want.erase(want.begin(), want.begin() + 2); }
                    mc::require(x.next == want, what.str(), "went to ", show_state(x.next));
                }
            }
        }
    }
    // asking again, in another order or best first, changes nothing
    Algorithms other{*w.net, th};
    Single again{*w.net, other, s};
    again.set(track_of(track));
    again.init();
    for (int round = 0; round < 3; ++round) {
        again.intelligent_action = round == 2;
        const Graph h = explore(again, true);
        mc::require_eq(h.size(), g.size(), "reachable states, round ", round);
        for (auto &[st, acts] : g) {
            const auto f = h.find(st);
            mc::require(f != h.end(), "state ", show_state(st), " not reached, round ", round);
            for (auto &[a, x] : acts) {
                const auto i = f->second.find(a);
                mc::require(i != f->second.end() and i->second.next == x.next and i->second.action == x.action and i->second.done == x.done
                        and mc::close_to(i->second.reward, x.reward, 1e-9, 1e-9), "step ", a, " from ", show_state(st), " differs, round ", round);
            }
        }
    }
    again.state = again.reset();
    const auto best = again.actions();
    double last = 1;
    for (auto a : best) {
        const double r = g.at({0}).at(a).reward;
        mc::require(r <= last, "best actions first");
        last = r;
    }
    if (not learn) { return; }
    std::vector<std::pair<double, Policy>> all;
    brute(g, {0}, 0, 1, {}, all);
    double optimum = -1e18;
    for (auto &[v, p] : all) { optimum = std::max(optimum, v); }
    const auto judge = [&](const char *name, const Policy &p) {
        double got = -1e18;
        for (auto &[v, q] : all) { if (q == p) { got = std::max(got, v); } }
        mc::require(got >= optimum - 5e-3, name, " matched with value ", got, ", the optimum is ", optimum);
    };
    Algorithms third{*w.net, th};
    Single value{*w.net, third, s}, policy{*w.net, third, s};
    value.set(track_of(track));
    policy.set(track_of(track));
    judge("value iteration", learning::value_iteration<Single>{value, s}());
    judge("policy iteration", learning::policy_iteration<Single>{policy, s}());
    mc::count("learned");
}

static void hmm_case(const World &w, const Pts &track, const Settings &s, util::time_helper &th) {
    Algorithms alg{*w.net, th};
    Hmm env{*w.net, alg, s};
    env.set(track_of(track));
    const auto &c = env.candidates();
    const auto &obs = env.observations();
    const auto &tr = env.transitions();
    mc::require_eq(c.size(), track.size(), "candidates of all points");
    mc::require_eq(obs.size(), c.size(), "observations of all points");
    mc::require_eq(tr.size(), c.size(), "transitions of all points");
    Algorithms fresh{*w.net, th};
    for (std::size_t i = 0; i < c.size(); ++i) {
        mc::require_eq(obs[i].size(), c[i].edges.size(), "observations of point ", i);
        mc::require_eq(tr[i].size(), c[i].edges.size(), "transitions of point ", i);
        double most = 0;
        for (auto &e : c[i].edges) { most = std::max(most, static_cast<double>(e.distance)); }
        most = (most + 0.01) * 1.01;
        for (std::size_t j = 0; j < c[i].edges.size(); ++j) {
            const double near = (most - c[i].edges[j].distance) / most, power = i == 0 or i + 1 == c.size() ? 3 : 1;
            mc::require(std::isfinite(obs[i][j]) and obs[i][j] <= 0, "probability of candidate ", j, " of point ", i, ": ", obs[i][j]);
            mc::require_close(obs[i][j], std::log(near) * power * s.hmm_distance_factor, "probability of candidate ", j, " of point ", i);
            if (i == 0) {
                mc::require_eq(tr[0][j].size(), std::size_t{1}, "start probabilities");
                mc::require_close(tr[0][j][0], -std::log(c[0].edges.size()), "start probability");
                continue;
            }
            mc::require_eq(tr[i][j].size(), c[i - 1].edges.size(), "transitions to candidate ", j, " of point ", i);
            for (std::size_t k = 0; k < tr[i][j].size(); ++k) {
                mc::transition();
                const double t = tr[i][j][k];
                const Route r = fresh.router.candidate_route(c, i - 1, k, i, j, s.within_edge_turns, s.a_star, s.routing_max_distance_factor);
                mc::require(not std::isnan(t) and t <= 1e-12, "probability of a transition: ", t);
                mc::require_eq(std::isinf(t), r.is_invalid(), "impossible without a route only");
                mc::outcome(static_cast<mc::u64>(std::min(1e6, -t) * 64));
                if (r.is_invalid()) { mc::count("impossible"); continue; }
                const bool still = track[i - 1] == track[i];
                if (still and not r.has_length()) { mc::require(std::fabs(t) < 1e-12, "staying is certain"); continue; }
                if (still or not r.has_length()) { continue; }
                const double way = seg_len(track[i - 1], track[i]), len = r.length(), q = std::min(way, len) / std::max(way, len);
                // the shorter of both in parts of the longer, counted for the difference and for the ratio; much longer ways are unlikely
                double want = s.hmm_length_factor * std::log(q * q * (len / way > 10 ? 0.01 : 1));
                const double ta = azim(track[i - 1], track[i]), ra = r.azimuth();
                want += s.hmm_azimuth_factor * std::log(std::max(1e-20, (180 - std::fabs(wrap(ta - ra))) / 180));
                if (i >= 2 and not (track[i - 2] == track[i - 1])) {
                    const double before = azim(track[i - 2], track[i - 1]), d = std::fabs(wrap(wrap(before - ta) - wrap(before - ra)));
                    want += s.hmm_turn_factor * std::log((360 - d) / 360);
                }
                if (r.has_directions()) { want += s.hmm_direction_factor * std::log(std::max(1e-20, (360 - r.absolute_directions()) / 360)); }
                if (want > -9 and std::fabs(len / way - 10) > 1e-6) { mc::require(mc::close_to(t, want, 1e-6, 1e-6), "probability of a transition ", k, " to ", j, " of point ", i, ": ", t, " want ", want); mc::nontrivial(); }
            }
        }
    }
    // the most probable sequence of candidates, one per point
    for (auto &x : c) { if (x.edges.empty()) { return; } }
    double optimum = -std::numeric_limits<double>::infinity();
    std::vector<int> radix;
    for (auto &x : c) { radix.push_back(static_cast<int>(x.edges.size())); }
    const auto value = [&](const std::vector<int> &v) {
        double x = 0;
        for (std::size_t i = 0; i < v.size(); ++i) { x += obs[i][v[i]] + tr[i][v[i]][i ? v[i - 1] : 0]; }
        return x;
    };
    mc::product(radix, [&](const std::vector<int> &v) { optimum = std::max(optimum, value(v)); });
    const Policy p = learning::viterbi<Hmm>{env, s}();
    if (std::isinf(optimum)) { mc::count("no sequence"); return; }
    mc::require_eq(p.size(), c.size(), "matched points");
    std::vector<int> v;
    for (std::size_t i = 0; i < p.size(); ++i) { mc::require_eq(p[i].first, i, "matched point"); v.push_back(static_cast<int>(p[i].second)); }
    mc::require(value(v) >= optimum - 1e-9, "matched with probability ", value(v), ", the optimum is ", optimum);
    mc::count("decoded");
}

static void environment_body() {
    const bool deep = mc::g.thorough;
    std::vector<Road> straight, types;
    for (auto &t : road_types(4, true, false)) {
        if (t.shape == 0 and t.dir != 1 and not (t.a == 0 and t.b == 2)) { straight.push_back(t); }
        if (t.dir != 1 and (t.shape == 1 or not (t.a == 0 and t.b == 2))) { types.push_back(t); }
    }
    std::vector<Pts> triples, all, four;
    for (auto &a : SPOTS) { for (auto &b : SPOTS) { for (auto &c : SPOTS) { all.push_back({a, b, c}); } } }
    triples = {{SPOTS[0], SPOTS[2], SPOTS[3]}, {SPOTS[3], SPOTS[0], SPOTS[4]}, {SPOTS[2], SPOTS[2], SPOTS[0]}, {SPOTS[4], SPOTS[1], SPOTS[1]}, {SPOTS[0], SPOTS[3], SPOTS[0]}, {SPOTS[0], {22, 400}, SPOTS[3]}};
    four = {{SPOTS[0], SPOTS[2], SPOTS[3], SPOTS[4]}, {SPOTS[4], SPOTS[0], SPOTS[0], SPOTS[3]}, {SPOTS[0], {22, 400}, {40, 420}, SPOTS[3]}};
    const auto worlds = [&](const char *name, const std::vector<Road> &ts, int roads, const std::vector<Pts> &tracks, std::size_t k, bool learn) {
        multisets(static_cast<int>(ts.size()), roads, [&](const std::vector<int> &pick) {
            for (std::size_t i = 1; i < pick.size(); ++i) { if (pick[i] == pick[i - 1]) { return; } }
            RNet n = nodes_street();
            unsigned long id = 100;
            for (int t : pick) { road(n, ts[t], id++); }
            mc::suite(name);
            std::unique_ptr<World> w;
            util::time_helper th;
            for (auto &t : tracks) {
                mc::run_case([&] { return n.str() + " track " + show(t); }, [&] {
                    if (not w) { w = std::make_unique<World>(n); }
                    Settings s;
                    s.filter_duplicates = s.simplify_track = s.median_merge = false;
                    s.candidate_adoption_nearby = false;
                    s.radius = s.radius_lower_limit = 60;
                    s.radius_upper_limit = 100;
                    s.k_nearest = k;
                    for (std::size_t size : {2, 3}) { for (int v = 0; v < 3; ++v) {
                        s.state_size = size;
                        s.skip_errors = v != 1;
                        s.within_edge_turns = v == 2;
                        s.candidate_adoption_siblings = v == 0;
                        s.routing_max_distance_factor = v == 0 ? 5 : 3;
                        single_case(*w, t, s, th, learn);
                        if (size == 2) { hmm_case(*w, t, s, th); }
                    } }
                });
            }
        });
    };
    if (deep) {
        four.clear();
        for (auto &a : SPOTS) { for (auto &b : SPOTS) { for (auto &c : SPOTS) { for (auto &e : SPOTS) { four.push_back({a, b, c, e}); } } } }
    }
    worlds("environments/1 road", types, 1, all, 3, true);
    worlds("environments/2 roads", types, 2, deep ? all : triples, deep ? 4 : 2, true);
    worlds("environments/2 roads all tracks", straight, 2, all, 3, true);
    worlds("environments/3 roads", straight, 3, deep ? all : triples, 4, true);
    worlds("environments/4 points", straight, 2, four, 2, true);
    worlds("environments/4 points 3 roads", straight, 3, {{SPOTS[0], SPOTS[2], SPOTS[3], SPOTS[4]}, {SPOTS[4], SPOTS[0], SPOTS[0], SPOTS[3]}}, 2, true);
}

int main(int argc, char **argv) {
    std::string mode;
    for (int i = 1; i < argc; ++i) { const std::string a = argv[i]; if (a == "--search" or a == "--environment") { mode = a; } }
    return mc::main_(argc, argv, [&] { if (mode == "--search") { search_body(); } else if (mode == "--environment") { environment_body(); } else { routes_body(); } });
}
