// Small real networks and tracks with coordinates in meters, and plain geometry on them.
#pragma once
#include "types/geometry/network/network_import.hpp"
#include "types/geometry/network/network.hpp"
#include "types/environment/environments/single.hpp"
#include "types/environment/environments/hmm.hpp"
#include "types/geometry/rich_type/lazy_rich_line.hpp"

#include "net_common.hpp"
#include "net_build.hpp"

using namespace map_matching_2;

using Import = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)));
using GH = MM2_GRAPH_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES));
using IH = MM2_INDEX_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_MEMORY_TYPES);
using Net = MM2_NETWORK(GH, IH);
using NT = matching::network_traits<Net>;
using Point = NT::point_type;
using Track = NT::track_type;
using Cand = NT::candidate_type;
using CEdge = NT::candidate_edge_type;
using Algorithms = matching::algorithms<Net>;
using Settings = matching::settings;
using Lazy = MM2_LAZY_RICH_LINE(MM2_CARTESIAN, MM2_MEMORY_TYPES);

using Pts = std::vector<Pt>;

static std::string show(const Pts &p) {
    std::ostringstream os;
    for (auto &q : p) { os << q.x << "," << q.y << " "; }
    return os.str();
}

template<typename L>
static Pts points_of(const L &l) {
    Pts p;
    for (auto &q : l) { p.push_back({boost::geometry::get<0>(q), boost::geometry::get<1>(q)}); }
    return p;
}

static Pt pt_of(const Point &q) { return {boost::geometry::get<0>(q), boost::geometry::get<1>(q)}; }

static bool close(const Pt &a, const Pt &b, double tol = 1e-6) { return seg_len(a, b) <= tol; }

static double seg_dist(const Pt &p, const Pt &a, const Pt &b, Pt *foot = nullptr) {
    const double dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy;
    double t = l > 0 ? ((p.x - a.x) * dx + (p.y - a.y) * dy) / l : 0;
    t = std::min(1.0, std::max(0.0, t));
    const Pt f{a.x + t * dx, a.y + t * dy};
    if (foot) { *foot = f; }
    return seg_len(p, f);
}

static double line_dist(const Pt &p, const Pts &l) {
    double d = 1e18;
    for (std::size_t i = 0; i + 1 < l.size(); ++i) { d = std::min(d, seg_dist(p, l[i], l[i + 1])); }
    return d;
}

// distance along the line of the first place where it passes the point
static double pos_on(const Pt &p, const Pts &l) {
    double s = 0;
    for (std::size_t i = 0; i + 1 < l.size(); ++i) {
        Pt f;
        if (seg_dist(p, l[i], l[i + 1], &f) < 1e-6) { return s + seg_len(l[i], f); }
        s += seg_len(l[i], l[i + 1]);
    }
    return -1;
}

// the line without repeated points and points in the middle of straight parts: the same shape has one spelling
static Pts shape(const Pts &l) {
    Pts r;
    for (auto &p : l) {
        if (not r.empty() and close(r.back(), p)) { continue; }
        while (r.size() >= 2) {
            const Pt a = r[r.size() - 2], b = r.back();
            const double cr = (b.x - a.x) * (p.y - b.y) - (b.y - a.y) * (p.x - b.x), dt = (b.x - a.x) * (p.x - b.x) + (b.y - a.y) * (p.y - b.y);
            if (dt > 0 and std::fabs(cr) <= 1e-6 * (1 + seg_len(a, b) * seg_len(b, p))) { r.pop_back(); } else { break; }
        }
        r.push_back(p);
    }
    return r;
}

static bool same_shape(const Pts &a, const Pts &b) {
    const Pts x = shape(a), y = shape(b);
    if (x.size() != y.size()) { return false; }
    for (std::size_t i = 0; i < x.size(); ++i) { if (not close(x[i], y[i], 1e-5)) { return false; } }
    return true;
}

// a real network and the plain one it was built from
struct World {
    RNet plain;
    std::unique_ptr<Net> net;
    using ED = NT::edge_descriptor;

    explicit World(RNet r) : plain{std::move(r)}, net{std::make_unique<Net>()} {
        Import import{};
        build_network(import, plain);
        net->graph_helper().from_adjacency_list(import.graph_helper(), import.tag_helper());
        net->build_spatial_indices();
    }

    // which plain edge a real one is (by number and geometry)
    int edge(ED e) const {
        const auto &d = net->edge(e);
        const Pts l = points_of(d.rich_line.line());
        const auto s = net->vertex(net->graph().source(e)).id, t = net->vertex(net->graph().target(e)).id;
        for (std::size_t i = 0; i < plain.edges.size(); ++i) {
            const REdge &r = plain.edges[i];
            if (r.id == d.id and r.line == l and plain.nodes[r.s].first == s and plain.nodes[r.t].first == t) { return static_cast<int>(i); }
        }
        mc::fail("the network has an edge it was not given");
        return -1;
    }
};

static Track track_of(const Pts &p) {
    typename Track::line_type l;
    for (auto &q : p) { l.emplace_back(typename Track::line_type::value_type{q.x, q.y}); }
    return Track{"t", typename Track::rich_line_type{std::move(l)}};
}
