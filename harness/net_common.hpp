// Small road networks enumerated exhaustively, and the boring reference the real network is compared with.
#pragma once
#include <algorithm>
#include <cmath>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <vector>

#include "mc.hpp"

struct Pt { double x, y; bool operator==(const Pt &) const = default; auto operator<=>(const Pt &) const = default; };

// one directed edge of the reference network
struct REdge {
    unsigned long id;
    int s, t;
    std::vector<Pt> line;
};

struct RNet {
    std::vector<std::pair<unsigned long, Pt>> nodes;
    std::vector<REdge> edges;

    std::string str() const {
        std::ostringstream os;
        os.precision(12);
        os << "nodes";
        for (auto &n : nodes) { os << " " << n.first << "@" << n.second.x << "," << n.second.y; }
        os << " edges";
        for (auto &e : edges) {
            os << " [" << e.id << ": " << e.s << "->" << e.t;
            for (std::size_t i = 1; i + 1 < e.line.size(); ++i) { os << " via " << e.line[i].x << "," << e.line[i].y; }
            os << "]";
        }
        return os.str();
    }
};

inline double seg_len(const Pt &a, const Pt &b) { return std::hypot(a.x - b.x, a.y - b.y); }

inline double line_len(const std::vector<Pt> &l) {
    double s = 0;
    for (std::size_t i = 1; i < l.size(); ++i) { s += seg_len(l[i - 1], l[i]); }
    return s;
}

// all pairs shortest distances between node ids
inline std::map<std::pair<unsigned long, unsigned long>, double> all_distances(const RNet &n) {
    const double inf = 1e18;
    const int k = static_cast<int>(n.nodes.size());
    std::vector<std::vector<double>> d(k, std::vector<double>(k, inf));
    for (int i = 0; i < k; ++i) { d[i][i] = 0; }
    for (auto &e : n.edges) { d[e.s][e.t] = std::min(d[e.s][e.t], line_len(e.line)); }
    for (int m = 0; m < k; ++m) { for (int i = 0; i < k; ++i) { for (int j = 0; j < k; ++j) {
        d[i][j] = std::min(d[i][j], d[i][m] + d[m][j]);
    } } }
    std::map<std::pair<unsigned long, unsigned long>, double> r;
    for (int i = 0; i < k; ++i) { for (int j = 0; j < k; ++j) {
        r[{n.nodes[i].first, n.nodes[j].first}] = d[i][j];
    } }
    return r;
}
