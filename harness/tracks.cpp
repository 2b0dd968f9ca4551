// K01/L04: sanitising of tracks (duplicates, line simplification, merging of point clouds) on every short track.
// --simplify: line simplification alone. Default: duplicates, point clouds, and what the matching environments make of a track.
#include "types/geometry/network/network_import.hpp"
#include "types/geometry/network/network.hpp"
#include "types/environment/environments/single.hpp"
#include "types/environment/environments/hmm.hpp"
#include "types/geometry/rich_type/rich_line.hpp"
#include "types/geometry/rich_type/lazy_rich_line.hpp"
#include "types/geometry/rich_type/eager_rich_line.hpp"
#include "geometry/algorithm/simplify.hpp"
#include "geometry/algorithm/median_merge.hpp"

#include "net_common.hpp"
#include "net_build.hpp"

using namespace map_matching_2;

using Import = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)));
using GH = MM2_GRAPH_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES));
using IH = MM2_INDEX_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_MEMORY_TYPES);
using Net = MM2_NETWORK(GH, IH);
using Traits = matching::network_traits<Net>;
using Point = Traits::point_type;
using Track = Traits::track_type;
using TLine = Track::rich_line_type;
using Line = Track::line_type;
using Plain = MM2_RICH_LINE(MM2_CARTESIAN, MM2_MEMORY_TYPES);
using Lazy = MM2_LAZY_RICH_LINE(MM2_CARTESIAN, MM2_MEMORY_TYPES);

using Pts = std::vector<Pt>;

static std::string show(const Pts &p) {
    std::ostringstream os;
    for (auto &q : p) { os << q.x << "," << q.y << " "; }
    return os.str();
}

template<typename L>
static L line_of(const Pts &p) {
    L l;
    for (auto &q : p) { l.emplace_back(typename L::value_type{q.x, q.y}); }
    return l;
}

template<typename L>
static Pts points_of(const L &l) {
    Pts p;
    for (auto &q : l) { p.push_back({boost::geometry::get<0>(q), boost::geometry::get<1>(q)}); }
    return p;
}

static double dist(const Pt &p, const Pt &a, const Pt &b) {
    const double dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy;
    double t = l > 0 ? ((p.x - a.x) * dx + (p.y - a.y) * dy) / l : 0;
    t = std::min(1.0, std::max(0.0, t));
    return std::hypot(p.x - a.x - t * dx, p.y - a.y - t * dy);
}

// ---------------------------------------------------------------- line simplification
// every outcome Douglas-Peucker may have (equally far points are all allowed to be taken), as sets of kept positions
using Sets = std::set<std::vector<int>>;

static Sets dp(const Pts &p, int a, int b, double tol) {        // positions strictly between a and b
    if (b - a < 2) { return {{}}; }
    double far = 0;
    for (int i = a + 1; i < b; ++i) { far = std::max(far, dist(p[i], p[a], p[b])); }
    if (far <= tol + 1e-9) {
        if (far < tol - 1e-9 or far <= tol) { return {{}}; }
    }
    Sets r;
    for (int i = a + 1; i < b; ++i) {
        if (dist(p[i], p[a], p[b]) < far - 1e-9) { continue; }
        for (auto &x : dp(p, a, i, tol)) { for (auto &y : dp(p, i, b, tol)) {
            std::vector<int> k = x;
            k.push_back(i);
            k.insert(k.end(), y.begin(), y.end());
            r.insert(k);
        } }
    }
    return r;
}

static bool reversal(const Pts &p, int i) {      // the way turns straight back at i
    const double ax = p[i].x - p[i - 1].x, ay = p[i].y - p[i - 1].y, bx = p[i + 1].x - p[i].x, by = p[i + 1].y - p[i].y;
    if ((ax == 0 and ay == 0) or (bx == 0 and by == 0)) { return false; }
    return std::fabs(ax * by - ay * bx) < 1e-9 and ax * bx + ay * by < 0;
}

static std::set<Pts> simplified(const Pts &p, double tol, bool retain) {
    if (p.size() < 3) { return {p}; }
    std::vector<int> cuts{0};
    const int n = static_cast<int>(p.size());
    if (retain) { for (int i = 1; i + 1 < n; ++i) { if (reversal(p, i)) { cuts.push_back(i); } } }
    cuts.push_back(n - 1);
    Sets all{{0}};
    for (std::size_t c = 0; c + 1 < cuts.size(); ++c) {
        Sets next;
        for (auto &x : all) { for (auto &y : dp(p, cuts[c], cuts[c + 1], tol)) {
            std::vector<int> k = x;
            k.insert(k.end(), y.begin(), y.end());
            k.push_back(cuts[c + 1]);
            next.insert(k);
        } }
        all = next;
    }
    std::set<Pts> r;
    for (auto &k : all) {
        Pts q;
        for (int i : k) { q.push_back(p[i]); }
        r.insert(q);
    }
    return r;
}

template<typename RL>
static void check_data(const RL &l, const Pts &p, const char *what) {
    mc::require_eq(l.size(), p.size(), what, ": size");
    double sum = 0;
    bool any = false;
    for (std::size_t i = 0; i + 1 < p.size(); ++i) {
        const double d = seg_len(p[i], p[i + 1]);
        mc::require_eq(l.has_length(i), d > 0, what, ": has_length ", i);
        if (d > 0) { mc::require_close(l.length(i), d, what, ": length ", i); any = true; }
        sum += d;
    }
    mc::require_eq(l.has_length(), any, what, ": has_length");
    if (any) { mc::require_close(l.length(), sum, what, ": length"); }
}

template<typename RL>
static void simplify_case(const Pts &p, double tol, bool retain) {
    const auto want = simplified(p, tol, retain);
    using line_type = typename geometry::rich_line_traits<RL>::line_type;
    RL l{line_of<line_type>(p)};
    geometry::simplify_rich_line(l, retain, tol);
    const Pts got = points_of(l.line());
    mc::require(want.contains(got), "simplified to ", show(got), " but want ", show(*want.begin()));
    check_data(l, got, "simplified line");
    mc::outcome(mc::hcat(got.size(), p.size()));
    if (got.size() < p.size()) { mc::nontrivial(); }
    const RL once = l;
    geometry::simplify_rich_line(l, retain, tol);
    mc::require(points_of(l.line()).size() <= got.size(), "simplifying again must not add points");
}

static void segments_case(const Pts &p, double tol, bool retain) {
    if (p.size() < 2) { return; }
    using RS = typename geometry::rich_line_traits<TLine>::rich_segment_type;
    using segment_type = typename geometry::rich_segment_traits<RS>::segment_type;
    std::pmr::list<RS> segs;
    for (std::size_t i = 0; i + 1 < p.size(); ++i) {
        segs.emplace_back(segment_type{Point{p[i].x, p[i].y}, Point{p[i + 1].x, p[i + 1].y}});
    }
    geometry::simplify_rich_segments(segs, retain, tol);
    mc::require(not segs.empty(), "segments must not vanish");
    Pts got{{boost::geometry::get<0>(segs.front().first()), boost::geometry::get<1>(segs.front().first())}};
    for (auto &s : segs) {
        const Pt a{boost::geometry::get<0>(s.first()), boost::geometry::get<1>(s.first())};
        const Pt b{boost::geometry::get<0>(s.second()), boost::geometry::get<1>(s.second())};
        mc::require(a == got.back(), "segments must stay connected");
        mc::require_eq(s.has_length(), not (a == b), "segment has_length");
        if (not (a == b)) { mc::require_close(s.length(), seg_len(a, b), "segment length"); }
        got.push_back(b);
    }
    const auto want = simplified(p, tol, retain);
    mc::require(want.contains(got), "segments simplified to ", show(got), " but want ", show(*want.begin()));
}

template<typename F>
static void tracks(const Pts &pool, int n, const F &f) {
    f(Pts{});
    for (int k = 1; k <= n; ++k) {
        mc::product(std::vector<int>(k, static_cast<int>(pool.size())), [&](const std::vector<int> &v) {
            Pts p;
            for (int i : v) { p.push_back(pool[i]); }
            f(p);
        });
    }
}

static void simplify_suites(bool th) {
    const Pts pool{{0, 0}, {2, 0}, {4, 0}, {2, 1}, {5, 3}, {1, -2}};
    mc::suite("simplify");
    tracks(pool, th ? 7 : 6, [&](const Pts &p) {
        mc::run_case([&] { return show(p); }, [&] {
            mc::state(mc::hstr(show(p)));
            for (double tol : {0.001, 0.8, 1.5, 2.5}) {
                for (bool retain : {false, true}) {
                    simplify_case<TLine>(p, tol, retain);
                    segments_case(p, tol, retain);
                    if (p.size() < 6) { simplify_case<Plain>(p, tol, retain); simplify_case<Lazy>(p, tol, retain); }
                    mc::transition(2);
                }
            }
        });
    });
    // longer lines: every word of steps ahead, to the left, to the right and straight back
    mc::suite("simplify-long");
    const Pts steps{{2, 0.3}, {1.5, 1.1}, {1.7, -0.9}, {-1.7, 0.9}};
    mc::product(std::vector<int>(th ? 9 : 8, 4), [&](const std::vector<int> &v) {
        mc::run_case([&] { return mc::show(v); }, [&] {
            Pts p{{0, 0}};
            for (int i : v) { p.push_back({p.back().x + steps[i].x, p.back().y + steps[i].y}); }
            p.push_back({20, 3});
            mc::state(mc::hstr(show(p)));
            for (double tol : {0.4, 1.3, 3.0}) {
                for (bool retain : {false, true}) {
                    simplify_case<TLine>(p, tol, retain);
                    segments_case(p, tol, retain);
                    mc::transition(2);
                }
            }
        });
    });
    mc::suite("simplify-part");
    tracks(pool, th ? 6 : 5, [&](const Pts &p) {
        mc::run_case([&] { return show(p); }, [&] {
            const int n = static_cast<int>(p.size());
            for (int from = 0; from <= n; ++from) { for (int to = 0; to <= n + 1; ++to) {
                auto l = line_of<Line>(p);
                geometry::simplify(l, from, to, 0.8);
                const Pts got = points_of(l);
                if (from + 2 > to or to > n) { mc::require(got == p, "an impossible part must leave the line as it is"); continue; }
                std::set<Pts> want;
                for (auto &w : simplified(Pts(p.begin() + from, p.begin() + to), 0.8, false)) {
                    Pts q(p.begin(), p.begin() + from);
                    q.insert(q.end(), w.begin(), w.end());
                    q.insert(q.end(), p.begin() + to, p.end());
                    want.insert(q);
                }
                mc::require(want.contains(got), "part ", from, " to ", to, " simplified to ", show(got));
                mc::transition();
            } }
        });
    });
}

// ---------------------------------------------------------------- duplicates and point clouds
static Pts no_duplicates(const Pts &p) {
    Pts r;
    for (auto &q : p) { if (r.empty() or not (r.back() == q)) { r.push_back(q); } }
    return r;
}

static double med(std::vector<double> v) {
    std::sort(v.begin(), v.end());
    const std::size_t n = v.size();
    return n % 2 ? v[n / 2] : (v[n / 2 - 1] + v[n / 2]) / 2;
}

template<typename Tol>
static Pts merged(const Pts &p, const Tol &tol) {
    Pts r;
    for (std::size_t i = 0; i < p.size();) {
        const double t = tol(p[i]);
        std::size_t j = i + 1;
        while (j < p.size() and seg_len(p[i], p[j]) <= t) { ++j; }
        std::vector<double> x, y;
        for (std::size_t k = i; k < j; ++k) { x.push_back(p[k].x); y.push_back(p[k].y); }
        r.push_back({med(x), med(y)});
        i = j;
    }
    return r;
}

static void require_same(const Pts &got, const Pts &want, const char *what) {
    mc::require(got.size() == want.size(), what, ": got ", show(got), " want ", show(want));
    for (std::size_t i = 0; i < got.size(); ++i) {
        mc::require(seg_len(got[i], want[i]) < 1e-9, what, ": got ", show(got), " want ", show(want));
    }
}

static Net make(const RNet &r) {
    Import imp;
    build_network(imp, r);
    Net net;
    net.graph_helper().from_adjacency_list(imp.graph_helper(), imp.tag_helper());
    net.build_spatial_indices();
    return net;
}

static RNet street() {
    RNet r;
    r.nodes = {{1, {0, 0}}, {2, {60, 0}}, {3, {60, 80}}};
    add_road(r, {0, 1, 2, 0}, 1);
    add_road(r, {1, 2, 0, 0}, 2);
    return r;
}

static double street_distance(const Pt &p) {
    return std::min(dist(p, {0, 0}, {60, 0}), dist(p, {60, 0}, {60, 80}));
}

static void sanitise_suites(bool th) {
    const Pts pool{{0, 0}, {3, 0}, {6, 0}, {6, 4}, {13, 0}};
    mc::suite("duplicates");
    tracks(pool, th ? 7 : 6, [&](const Pts &p) {
        mc::run_case([&] { return show(p); }, [&] {
            mc::state(mc::hstr(show(p)));
            using Det = matching::algorithms<Net>;
            TLine l{line_of<Line>(p)};
            auto det = decltype(std::declval<Det>().detector){};
            const auto defects = det.detect(l, true);
            mc::require_eq(defects.size(), p.size(), "a verdict for each point");
            for (std::size_t i = 0; i < p.size(); ++i) {
                const bool dup = i > 0 and p[i] == p[i - 1];
                mc::require_eq(defects[i].contains(matching::defect::equal), dup, "duplicate ", i);
                mc::require_eq(defects[i].contains(matching::defect::none), not dup, "no defect ", i);
            }
            det.remove_defects(l, defects);
            const Pts got = points_of(l.line());
            require_same(got, no_duplicates(p), "duplicates removed");
            check_data(l, got, "duplicates removed");
            TLine same{line_of<Line>(p)};
            det.remove_defects(same, det.detect(same, false));
            require_same(points_of(same.line()), p, "nothing to detect");
            mc::transition(2);
            if (got.size() < p.size()) { mc::nontrivial(); }
        });
    });
    mc::suite("median-merge");
    const Pts cloud{{0, 0}, {3, 0}, {6, 1}, {5, 4}, {-2, 3}, {13, 0}};
    tracks(cloud, th ? 7 : 6, [&](const Pts &p) {
        mc::run_case([&] { return show(p); }, [&] {
            mc::state(mc::hstr(show(p)));
            for (double tol : {0.5, 4.0, 5.0, 8.0, 100.0}) {
                const Pts got = points_of(geometry::median_merge(line_of<Line>(p), tol));
                require_same(got, merged(p, [&](const Pt &) { return tol; }), "point clouds merged");
                mc::transition();
                mc::outcome(mc::hcat(got.size(), p.size()));
                if (got.size() < p.size()) { mc::nontrivial(); }
            }
        });
    });
    mc::suite("median-merge-adaptive");
    const Pts far{{10, 0}, {14, 12}, {18, 12}, {20, 40}, {28, 44}, {58, 44}};
    static const Net net = make(street());
    tracks(far, th ? 6 : 5, [&](const Pts &p) {
        mc::run_case([&] { return show(p); }, [&] {
            for (double tol : {1.0, 6.0, 10.0}) {
                const Pts got = points_of(geometry::median_merge(line_of<Line>(p), tol, true, &net));
                require_same(got, merged(p, [&](const Pt &q) { return std::max(tol, street_distance(q) / 2); }), "point clouds merged");
                const Pts fix = points_of(geometry::median_merge(line_of<Line>(p), tol, false, &net));
                require_same(fix, merged(p, [&](const Pt &) { return tol; }), "point clouds merged, not adaptive");
                const Pts none = points_of(geometry::median_merge<Line, Net>(line_of<Line>(p), tol, true, nullptr));
                require_same(none, fix, "point clouds merged, without network");
                mc::transition(3);
            }
        });
    });
    const Pts gps{{2, 1}, {12, 3}, {20, -2}, {24, 3}, {44, 4}, {58, 30}};
    // longer tracks: runs of every length one after the other
    mc::suite("long");
    mc::product(std::vector<int>(th ? 5 : 4, 5), [&](const std::vector<int> &v) {
        mc::run_case([&] { return mc::show(v); }, [&] {
            Pts p;
            for (std::size_t i = 0; i < v.size(); ++i) {
                for (int k = 0; k <= v[i] * 2; ++k) { p.push_back({i * 30.0 + (k * 5 % 7), (k * 3 % 4) * 1.0}); if (k == 3) { p.push_back(p.back()); } }
            }
            for (double tol : {0.5, 4.0, 8.0, 29.0}) {
                const Pts got = points_of(geometry::median_merge(line_of<Line>(p), tol));
                require_same(got, merged(p, [&](const Pt &) { return tol; }), "point clouds merged");
                mc::transition();
                mc::outcome(mc::hcat(got.size(), p.size()));
                if (got.size() < p.size()) { mc::nontrivial(); }
            }
            TLine l{line_of<Line>(p)};
            auto det = decltype(std::declval<matching::algorithms<Net>>().detector){};
            det.remove_defects(l, det.detect(l, true));
            require_same(points_of(l.line()), no_duplicates(p), "duplicates removed");
            check_data(l, points_of(l.line()), "duplicates removed");
            mc::state(mc::hstr(show(p)));
        });
    });
    const auto environments = [&]<typename Env>(const char *name, std::type_identity<Env>) {
        mc::suite(std::string{"environment-"} + name);
        tracks(gps, th ? 5 : 4, [&](const Pts &p) {
            mc::run_case([&] { return show(p); }, [&] {
                mc::state(mc::hstr(show(p)));
                for (int m = 0; m < 32; ++m) {
                    matching::settings st;
                    if (m & 16) {   // other tolerances than the defaults
                        if (not (m & 6)) { continue; }
                        st.simplify_track_distance_tolerance = 2;
                        st.median_merge_distance_tolerance = 13;
                    }
                    st.filter_duplicates = m & 1;
                    st.simplify_track = m & 2;
                    st.median_merge = m & 4;
                    st.adaptive_median_merge = m & 8;
                    st.candidate_search = matching::settings::NEAREST;
                    std::set<Pts> want{st.filter_duplicates ? no_duplicates(p) : p};
                    if (st.simplify_track) { want = simplified(*want.begin(), st.simplify_track_distance_tolerance, false); }
                    if (st.median_merge) {
                        std::set<Pts> w;
                        for (auto &q : want) {
                            w.insert(merged(q, [&](const Pt &x) {
                                return std::max(st.median_merge_distance_tolerance, st.adaptive_median_merge ? street_distance(x) / 2 : 0.0);
                            }));
                        }
                        want = w;
                    }
                    util::time_helper th{};
                    matching::algorithms<Net> alg{net, th};
                    Env env{net, alg, st};
                    env.set(Track{"the id", line_of<Line>(p)});
                    if constexpr (requires { env.init(); }) { env.init(); }
                    const Pts got = points_of(env.track().rich_line.line());
                    mc::require(want.contains(got), "track became ", show(got), " but want ", show(*want.begin()),
                                " duplicates=", st.filter_duplicates, " simplify=", st.simplify_track, " merge=", st.median_merge,
                                " adaptive=", st.adaptive_median_merge);
                    mc::require_eq(env.track().id, std::string{"the id"}, "the id is kept");
                    check_data(env.track().rich_line, got, "prepared track");
                    mc::require_eq(env.candidates().size(), got.size(), "one candidate per point");
                    for (std::size_t i = 0; i < got.size(); ++i) {
                        const auto &c = env.candidates()[i];
                        mc::require(c.track == &env.track(), "candidates belong to the prepared track");
                        mc::require_eq(c.index, i, "candidates in order");
                        mc::require(c.point() == env.track().rich_line.at(i), "candidates at their points");
                        mc::require(not c.edges.empty(), "each point has candidates");
                    }
                    mc::transition();
                    if (got.size() < p.size()) { mc::nontrivial(); }
                }
            });
        });
    };
    environments("mdp", std::type_identity<environment::single<Net>>{});
    environments("hmm", std::type_identity<environment::hmm<Net>>{});
}

int main(int argc, char **argv) {
    bool simplify = false;
    for (int i = 1; i < argc; ++i) { simplify |= std::string{argv[i]} == "--simplify"; }
    return mc::main_(argc, argv, [&] {
        const bool th = mc::g.thorough;
        if (simplify) { simplify_suites(th); } else { sanitise_suites(th); }
    });
}
