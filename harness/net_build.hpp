// Building real networks out of reference networks, and the roads they are enumerated from.
#pragma once
#include "net_common.hpp"

template<typename Net>
static void build_network(Net &net, const RNet &r, bool own_tags = true) {
    using traits = map_matching_2::geometry::network::network_traits<Net>;
    using point_type = typename traits::point_type;
    using line_type = typename traits::line_type;
    using rich_line_type = typename traits::rich_line_type;
    using node_type = typename traits::vertex_data_type;
    using edge_type = typename traits::edge_data_type;
    auto &gh = net.graph_helper();
    for (auto &n : r.nodes) {
        (void) gh.add_vertex_with_index_mapping(node_type{n.first, point_type{n.second.x, n.second.y}});
    }
    std::set<unsigned long> ids;
    for (auto &e : r.edges) {
        if (ids.insert(e.id).second) {
            using V = typename std::decay_t<decltype(net.tag_helper())>::tag_vector_type;
            V tags;
            if (own_tags) { tags.emplace_back(net.tag_helper().id("way", std::to_string(e.id))); }
            tags.emplace_back(net.tag_helper().id("shared", "yes"));
            net.tag_helper().set_edge_tags(e.id, std::move(tags));
        }
        line_type l;
        for (auto &p : e.line) { l.emplace_back(point_type{p.x, p.y}); }
        gh.add_edge(e.s, e.t, edge_type{e.id, rich_line_type{std::move(l)}});
    }
}


struct Road { int a, b, dir, shape; };   // dir 0 ->, 1 <-, 2 both; shape 0 straight, 1 via; a == b: loop (via two points)

static std::vector<Road> road_types(int v, bool shapes, bool loops) {
    std::vector<Road> r;
    for (int d = 0; d < 3; ++d) { for (int a = 0; a < v; ++a) { for (int b = a + 1; b < v; ++b) { r.push_back({a, b, d, 0}); } } }
    if (loops) { for (int d : {0, 2}) { for (int a = 0; a < v; ++a) { r.push_back({a, a, d, 0}); } } }
    if (shapes) { for (int d = 0; d < 3; ++d) { for (int a = 0; a < v; ++a) { for (int b = a + 1; b < v; ++b) { r.push_back({a, b, d, 1}); } } } }
    return r;
}

static void add_road(RNet &r, const Road &o, unsigned long id, bool integral = false) {
    const Pt a = r.nodes[o.a].second, b = r.nodes[o.b].second;
    std::vector<Pt> l{a};
    if (o.a == o.b and integral) { l.push_back({a.x, a.y + 1}); l.push_back({a.x, a.y + 2}); }
    else if (o.a == o.b) { l.push_back({a.x + 0.25, a.y + 0.5}); l.push_back({a.x + 0.5, a.y + 0.125}); }
    else if (o.shape == 1 and integral) { l.push_back({a.x, b.y}); l.push_back({a.x, b.y + 2}); l.push_back({a.x, b.y}); }
    else if (o.shape == 1) { l.push_back({(a.x + b.x) / 2 + 0.5, (a.y + b.y) / 2 + 0.25}); }
    l.push_back(b);
    std::vector<Pt> back(l.rbegin(), l.rend());
    if (o.dir != 1) { r.edges.push_back({id, o.a, o.b, l}); }
    if (o.dir != 0) { r.edges.push_back({id, o.b, o.a, back}); }
}

// every multiset of exactly k of n things
template<typename F>
static void multisets(int n, int k, const F &f) {
    if (k == 0) { f(std::vector<int>{}); return; }
    std::vector<int> c(k, 0);
    for (;;) {
        f(c);
        int i = k - 1;
        while (i >= 0 and c[i] == n - 1) { --i; }
        if (i < 0) { return; }
        ++c[i];
        for (int j = i + 1; j < k; ++j) { c[j] = c[i]; }
    }
}
