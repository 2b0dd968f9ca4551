// L03: parts of lines by distance and by point. D01 (--measures): distances, azimuths, lengths, turns, boxes, and their caches.
#include "mc.hpp"
#include "types/geometry/point.hpp"
#include "types/geometry/rich_type/rich_line.hpp"
#include "types/geometry/rich_type/lazy_rich_line.hpp"
#include "types/geometry/rich_type/eager_rich_line.hpp"
#include "geometry/algorithm/substring.hpp"
#include "geometry/algorithm/length.hpp"
#include "geometry/algorithm/direction.hpp"
#include "geometry/algorithm/buffer.hpp"
#include "geometry/algorithm/reverse.hpp"
#include "geometry/algorithm/wkt.hpp"
#include "geometry/cache.hpp"

using namespace map_matching_2;
using geometry::cs_cartesian;
using geometry::cs_geographic;
using geometry::cs_spherical_equatorial;

struct Pt {
    double x, y;
    bool operator==(const Pt &) const = default;
};
using Pts = std::vector<Pt>;

static std::string show(const Pts &p) {
    std::ostringstream os;
    for (auto &q : p) { os << q.x << "," << q.y << " "; }
    return os.str();
}

template<typename Line>
static Line line_of(const Pts &p) {
    Line l;
    for (auto &q : p) { l.emplace_back(typename Line::value_type{q.x, q.y}); }
    return l;
}

template<typename Line>
static Pts points_of(const Line &l) {
    Pts p;
    for (auto &q : l) { p.push_back({boost::geometry::get<0>(q), boost::geometry::get<1>(q)}); }
    return p;
}

template<typename F>
static void lines(const Pts &pool, int from, int n, const F &f) {
    for (int k = from; k <= n; ++k) {
        mc::product(std::vector<int>(k, static_cast<int>(pool.size())), [&](const std::vector<int> &v) {
            Pts p;
            for (int i : v) { p.push_back(pool[i]); }
            f(p);
        });
    }
}

static bool repeats(const Pts &p) {
    for (std::size_t i = 1; i < p.size(); ++i) { if (p[i] == p[i - 1]) { return true; } }
    return false;
}

static double cross(const Pt &o, const Pt &a, const Pt &b) { return (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x); }

static double planar(const Pt &p, const Pt &a, const Pt &b) {
    const double dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy;
    double t = l > 0 ? ((p.x - a.x) * dx + (p.y - a.y) * dy) / l : 0;
    t = std::min(1.0, std::max(0.0, t));
    return std::hypot(p.x - a.x - t * dx, p.y - a.y - t * dy);
}

static bool touch(const Pt &a, const Pt &b, const Pt &c, const Pt &d) {
    const double o1 = cross(a, b, c), o2 = cross(a, b, d), o3 = cross(c, d, a), o4 = cross(c, d, b);
    if (((o1 > 0) != (o2 > 0)) and ((o3 > 0) != (o4 > 0)) and o1 != 0 and o2 != 0 and o3 != 0 and o4 != 0) { return true; }
    return planar(a, c, d) < 1e-12 or planar(b, c, d) < 1e-12 or planar(c, a, b) < 1e-12 or planar(d, a, b) < 1e-12;
}

// never meets itself: each point on it has exactly one position
static bool simple(const Pts &p) {
    const int n = static_cast<int>(p.size());
    for (int i = 0; i + 1 < n; ++i) {
        if (p[i] == p[i + 1]) { return false; }
        for (int j = i + 1; j + 1 < n; ++j) {
            if (j == i + 1) {
                const double c = cross(p[i], p[i + 1], p[j + 1]);
                const double dot = (p[i].x - p[i + 1].x) * (p[j + 1].x - p[i + 1].x) + (p[i].y - p[i + 1].y) * (p[j + 1].y - p[i + 1].y);
                if (c == 0 and dot > 0) { return false; }
            } else if (touch(p[i], p[i + 1], p[j], p[j + 1])) { return false; }
        }
    }
    return true;
}

// ---------------------------------------------------------------- L03
template<typename RL>
struct Sub {
    using line_type = typename geometry::rich_line_traits<RL>::line_type;
    using point_type = typename geometry::rich_line_traits<RL>::point_type;

    static double dist(const Pt &a, const Pt &b) { return geometry::distance(point_type{a.x, a.y}, point_type{b.x, b.y}); }

    static constexpr double TOL = std::same_as<typename boost::geometry::coordinate_system<point_type>::type, cs_cartesian> ? 1e-9 : 1e-4;

    struct Pos { Pt p; double at; int seg; };        // a point of the line and how far along it is

    static std::vector<double> starts(const Pts &p) {
        std::vector<double> r{0};
        for (std::size_t i = 1; i < p.size(); ++i) { r.push_back(r.back() + dist(p[i - 1], p[i])); }
        return r;
    }

    static void expect(const RL &got, const Pts &line, const std::vector<double> &st, double a, double b, const Pt *pa, const Pt *pb, const std::string &what) {
        const double tol = TOL * (1 + st.back());
        if (a >= b) {
            mc::require(got.empty() or not got.has_length(), what, " is empty, but got ", geometry::to_wkt(got.line()));
            return;
        }
        Pts inner;
        for (std::size_t i = 0; i < line.size(); ++i) { if (st[i] > a + tol and st[i] < b - tol) { inner.push_back(line[i]); } }
        const Pts g = points_of(got.line());
        mc::require(g.size() == inner.size() + 2, what, ": got ", show(g), " inner points ", show(inner));
        for (std::size_t i = 0; i < inner.size(); ++i) { mc::require(g[i + 1] == inner[i], what, ": got ", show(g), " inner points ", show(inner)); }
        if (pa) { mc::require(dist(g.front(), *pa) <= tol, what, ": begins at ", show({g.front()})); }
        if (pb) { mc::require(dist(g.back(), *pb) <= tol, what, ": ends at ", show({g.back()})); }
        mc::require(got.has_length(), what, " has a length");
        mc::require(std::fabs(got.length() - (b - a)) <= tol, what, ": length ", got.length(), " want ", b - a);
        mc::outcome(mc::hcat(g.size(), line.size()));
        mc::nontrivial();
    }

    static void line_case(const Pts &p, bool interpolate) {
        const RL l{line_of<line_type>(p)};
        const auto st = starts(p);
        std::vector<Pos> pos;
        const int n = static_cast<int>(p.size());
        for (int i = 0; i < n; ++i) {
            pos.push_back({p[i], st[i], i});
            if (i + 1 < n) {
                for (double f : {0.25, 0.5}) {
                    const Pt q{p[i].x + (p[i + 1].x - p[i].x) * f, p[i].y + (p[i + 1].y - p[i].y) * f};
                    pos.push_back({q, st[i] + dist(p[i], q), i});
                }
            }
        }
        const bool single = simple(p);
        auto pt = [](const Pt &q) { return point_type{q.x, q.y}; };
        const double len = l.length();
        for (auto &a : pos) {
            const double aa = a.seg == n - 1 ? len : a.at;
            for (auto &b : pos) {
                const double bb = b.seg == n - 1 ? len : b.at;
                const std::string w = "from " + std::to_string(a.at) + " to " + std::to_string(b.at);
                // a way that returns to where it began, between given points, is documented to give nothing
                if (not (a.p == b.p and a.at < b.at)) {
                    expect(geometry::substring(l, aa, bb, pt(a.p), pt(b.p), true, true), p, st, a.at, b.at, &a.p, &b.p, "substring " + w);
                }
                if (interpolate) {
                    expect(geometry::substring(l, aa, bb), p, st, a.at, b.at, &a.p, &b.p, "substring by distance " + w);
                }
                if (single) {
                    expect(geometry::substring_points(l, pt(a.p), pt(b.p), true, true), p, st, a.at, b.at, &a.p, &b.p, "substring by points " + w);
                }
                mc::transition(2);
            }
            if (single) {
                const double tol = TOL * (1 + len);
                const auto ds = geometry::distances(l, pt(a.p), pt(a.p), true, true, true, true);
                mc::require(std::fabs(ds.first - a.at) <= tol and std::fabs(ds.second - a.at) <= tol, "position of ", show({a.p}), ": ", ds.first, " and ", ds.second, " want ", a.at);
                mc::require(std::fabs(geometry::distance_from(l, pt(a.p), true) - a.at) <= tol, "distance_from");
                mc::require(std::fabs(geometry::distance_to(l, pt(a.p), true) - a.at) <= tol, "distance_to");
                expect(geometry::substring_point_from(l, pt(a.p), true), p, st, a.at, st.back(), &a.p, &p.back(), "from a point");
                expect(geometry::substring_point_to(l, pt(a.p), true), p, st, 0, a.at, &p.front(), &a.p, "up to a point");
            }
            if (not (a.p == p.back() and a.seg < n - 1)) expect(geometry::substring_from(l, aa, pt(a.p), true), p, st, a.at, st.back(), nullptr, &p.back(), "from a distance");
            if (not (a.p == p.front() and a.at > 0)) expect(geometry::substring_to(l, aa, pt(a.p), true), p, st, 0, a.at, &p.front(), nullptr, "up to a distance");
        }
    }

    static void suite(const std::string &name, const Pts &pool, int n, bool interpolate) {
        mc::suite(name);
        lines(pool, 2, n, [&](const Pts &p) {
            if (repeats(p)) { return; }
            mc::run_case([&] { return show(p); }, [&] {
                mc::state(mc::hstr(show(p)));
                line_case(p, interpolate);
            });
        });
        mc::suite(name + "-degenerate");
        for (const Pts &p : {Pts{}, Pts{{1, 1}}}) {
            mc::run_case([&] { return show(p); }, [&] {
                const RL l{line_of<line_type>(p)};
                for (double a : {0.0, 1.0}) { for (double b : {0.0, 1.0, 2.0}) {
                    const auto s = geometry::substring(l, a, b);
                    mc::require_eq(s.size(), p.size(), "nothing to cut from a line without extent");
                } }
                const auto d = geometry::distances(l, point_type{1, 1}, point_type{1, 1});
                mc::require(d.first == 0 and d.second == 0, "no distance on a line without extent");
            });
        }
    }
};

static void substring_suites(bool th) {
    const int n = th ? 5 : 4;
    const Pts grid{{0, 0}, {2, 0}, {4, 0}, {4, 3}, {1, 3}, {0, 8}};
    Sub<MM2_RICH_LINE(MM2_CARTESIAN, MM2_MEMORY_TYPES)>::suite("substring-plain", grid, n, true);
    Sub<MM2_LAZY_RICH_LINE(MM2_CARTESIAN, MM2_MEMORY_TYPES)>::suite("substring-lazy", grid, n, true);
    Sub<MM2_EAGER_RICH_LINE(MM2_CARTESIAN, MM2_MEMORY_TYPES)>::suite("substring-eager", grid, n, true);
    const Pts earth{{11.5, 48.0}, {11.501, 48.0}, {11.501, 48.0005}, {11.4995, 48.001}, {11.5005, 47.9995}};
    Sub<MM2_LAZY_RICH_LINE(MM2_GEOGRAPHIC, MM2_MEMORY_TYPES)>::suite("substring-geographic", earth, n, false);
    Sub<MM2_LAZY_RICH_LINE(MM2_SPHERICAL_EQUATORIAL, MM2_MEMORY_TYPES)>::suite("substring-spherical", earth, n, false);
}

// ---------------------------------------------------------------- D01
template<typename CS>
static double ref_distance(const Pt &a, const Pt &b) {
    if constexpr (std::same_as<CS, cs_cartesian>) {
        return std::hypot(a.x - b.x, a.y - b.y);
    } else if constexpr (std::same_as<CS, cs_spherical_equatorial>) {
        const double r = M_PI / 180;
        const double s = std::pow(std::sin((b.y - a.y) * r / 2), 2) + std::cos(a.y * r) * std::cos(b.y * r) * std::pow(std::sin((b.x - a.x) * r / 2), 2);
        return 2 * 6371000.0 * std::asin(std::min(1.0, std::sqrt(s)));
    } else {        // close enough for small distances on the ellipsoid
        const double r = M_PI / 180, lat = (a.y + b.y) / 2 * r, e2 = 0.00669437999014, A = 6378137.0;
        const double w = std::sqrt(1 - e2 * std::sin(lat) * std::sin(lat));
        double dl = b.x - a.x;
        while (dl > 180) { dl -= 360; }
        while (dl < -180) { dl += 360; }
        return std::hypot(dl * r * A * std::cos(lat) / w, (b.y - a.y) * r * A * (1 - e2) / (w * w * w));
    }
}

static double norm(double d) {
    while (d > 180) { d -= 360; }
    while (d < -180) { d += 360; }
    return d;
}

template<typename CS>
static double ref_azimuth(const Pt &a, const Pt &b) {      // clockwise from north
    const double r = M_PI / 180;
    if constexpr (std::same_as<CS, cs_cartesian>) { return std::atan2(b.x - a.x, b.y - a.y) / r; }
    const double dl = (b.x - a.x) * r;
    return std::atan2(std::sin(dl) * std::cos(b.y * r), std::cos(a.y * r) * std::sin(b.y * r) - std::sin(a.y * r) * std::cos(b.y * r) * std::cos(dl)) / r;
}

template<typename CS>
struct Meas {
    using point_type = geometry::point_type<CS>;
    using line_type = typename geometry::models<point_type>::template line_type<>;
    using segment_type = typename geometry::models<point_type>::segment_type;
    static constexpr bool flat = std::same_as<CS, cs_cartesian>;
    static point_type pt(const Pt &p) { return point_type{p.x, p.y}; }

    static void measures(const std::string &name, const Pts &pool, int n) {
        mc::suite(name);
        const double rel = std::same_as<CS, cs_geographic> ? 1e-4 : 1e-9;
        const auto near = [&](double got, double want, const char *what) {
            mc::require(mc::close_to(got, want, rel, 1e-3), what, ": got ", got, ", expected ", want);
        };
        lines(pool, 0, n, [&](const Pts &p) {
            mc::run_case([&] { return show(p); }, [&] {
                mc::state(mc::hstr(show(p)));
                const auto l = line_of<line_type>(p);
                double sum = 0, turn = 0, abs_turn = 0;
                for (std::size_t i = 0; i + 1 < p.size(); ++i) {
                    const double d = ref_distance<CS>(p[i], p[i + 1]);
                    sum += d;
                    near(geometry::point_distance(pt(p[i]), pt(p[i + 1])), d, "point_distance");
                }
                near(geometry::length(l), sum, "length");
                for (std::size_t i = 0; i + 1 < p.size(); ++i) {
                    const segment_type s{pt(p[i]), pt(p[i + 1])};
                    near(geometry::length_segment(s), ref_distance<CS>(p[i], p[i + 1]), "length_segment");
                    mc::require_eq(geometry::equals_points(s.first, s.second), p[i] == p[i + 1], "equals_points");
                    if (not (p[i] == p[i + 1])) {
                        const double a = geometry::azimuth_deg(s.first, s.second);
                        mc::require(a >= -180 and a <= 180, "azimuth in range: ", a);
                        mc::require(std::fabs(norm(a - ref_azimuth<CS>(p[i], p[i + 1]))) < (flat ? 1e-9 : 0.3), "azimuth ", a, " want ", ref_azimuth<CS>(p[i], p[i + 1]));
                        mc::require_eq(geometry::azimuth_segment_deg(s), a, "azimuth of the segment");
                    }
                }
                if (p.size() >= 2) {
                    mc::require_eq(geometry::azimuth_line_deg(l), geometry::azimuth_deg(l.front(), l.back()), "azimuth of the line");
                }
                if (not repeats(p)) {
                    bool half = false;
                    for (std::size_t i = 0; i + 2 < p.size(); ++i) {
                        const double d = geometry::direction_deg(l[i], l[i + 1], l[i + 2]);
                        mc::require(d >= -180 and d <= 180, "turn in range: ", d);
                        const double w = norm(ref_azimuth<CS>(p[i], p[i + 1]) - ref_azimuth<CS>(p[i + 1], p[i + 2]));
                        mc::require(std::fabs(norm(d - w)) < (flat ? 1e-9 : 0.6), "turn ", d, " want ", w);
                        half = half or std::fabs(std::fabs(d) - 180) < 1e-6;
                        turn += d;
                        abs_turn += std::fabs(d);
                    }
                    mc::require_close(geometry::absolute_directions_deg(l), abs_turn, "absolute turns");
                    mc::require_close(geometry::combined_directions_deg(l).second, abs_turn, "absolute turns together");
                    mc::require_close(geometry::directions_deg(l), turn, "turns");
                    mc::require_close(geometry::combined_directions_deg(l).first, turn, "turns together");
                }
                mc::outcome(mc::hcat(p.size(), static_cast<mc::u64>(sum)));
                mc::nontrivial();
                mc::transition(p.size());
            });
        });
    }

    // every point within the radius is in the box; the box is not much larger
    static void boxes(const std::string &name, const Pts &centers, const std::vector<double> &radii) {
        mc::suite(name);
        for (auto &c : centers) { for (double r : radii) {
            mc::run_case([&] { return show({c}) + std::to_string(r); }, [&] {
                const auto box = geometry::buffer_box(pt(c), r);
                const double dy = flat ? 1 : 1 / 111000.0, dx = flat ? 1 : 1 / (111000.0 * std::cos(c.y * M_PI / 180));
                long in = 0;
                for (int i = -22; i <= 22; ++i) { for (int j = -22; j <= 22; ++j) {
                    const Pt q{c.x + i * dx * r / 20, c.y + j * dy * r / 20};
                    const double d = geometry::distance(pt(c), pt(q));
                    const bool covered = boost::geometry::covered_by(pt(q), box);
                    if (d <= r * 0.999) { mc::require(covered, "a point at ", d, " is not in the box around with ", r); ++in; }
                    if (d >= r * 1.6) { mc::require(not covered, "a point at ", d, " is in the box around with ", r); }
                } }
                mc::require(in > 900, "points within the radius");
                const Pt e{c.x + 30 * dx * r / 20, c.y + 12 * dy * r / 20};
                const segment_type s{pt(c), pt(e)};
                const auto sbox = geometry::segment_buffer_box(s, r);
                for (int i = -22; r <= 1000 and i <= 55; ++i) { for (int j = -22; j <= 36; ++j) {
                    const Pt q{c.x + i * dx * r / 20, c.y + j * dy * r / 20};
                    if (geometry::distance(pt(q), s) <= r * 0.999) { mc::require(boost::geometry::covered_by(pt(q), sbox), "a point near the segment is not in the box"); }
                } }
                mc::transition(in);
                mc::nontrivial();
            });
        } }
        mc::run_case([&] { return std::string{"no radius"}; }, [&] {
            for (double r : {0.0, -1.0}) {
                bool thrown = false;
                try { (void) geometry::buffer_box(pt(centers[0]), r); } catch (const std::invalid_argument &) { thrown = true; }
                mc::require(thrown, "a buffer needs a radius");
            }
        });
    }

    // every sequence of questions and changes of the caches: the answers never depend on it
    static void caches(const std::string &name, const Pts &pool, int depth) {
        mc::suite(name);
        struct Op { int kind; int a, b; };
        std::vector<Op> ops{{2, 0, 0}, {3, 0, 0}, {4, 0, 0}, {5, 0, 0}};
        const int k = static_cast<int>(pool.size());
        for (int a = 0; a < k; ++a) { for (int b = 0; b < k; ++b) { ops.push_back({0, a, b}); if (a != b) { ops.push_back({1, a, b}); } } }
        mc::product(std::vector<int>(depth, static_cast<int>(ops.size())), [&](const std::vector<int> &v) {
            mc::run_case([&] { return mc::show(v); }, [&] {
                geometry::disable_cache();
                geometry::distance_cache.reset();
                geometry::azimuth_cache.reset();
                geometry::enable_cache();
                mc::state(mc::hstr(mc::show(v)));
                for (int i : v) {
                    const auto &o = ops[i];
                    if (o.kind == 0) {
                        mc::require_close(geometry::point_distance(pt(pool[o.a]), pt(pool[o.b])), geometry::distance(pt(pool[o.a]), pt(pool[o.b])), "distance ", o.a, " ", o.b);
                        mc::nontrivial();
                    } else if (o.kind == 1) {
                        mc::require_close(geometry::azimuth_rad(pt(pool[o.a]), pt(pool[o.b])), boost::geometry::azimuth(pt(pool[o.a]), pt(pool[o.b])), "azimuth ", o.a, " ", o.b);
                        mc::nontrivial();
                    } else if (o.kind == 2) { geometry::reset_distance_cache(); }
                    else if (o.kind == 3) { geometry::reset_azimuth_cache(); }
                    else if (o.kind == 4) { geometry::disable_cache(); }
                    else { geometry::enable_cache(); }
                    mc::transition();
                }
                geometry::disable_cache();
            });
        });
    }
};

static void measure_suites(bool th) {
    const Pts grid{{0, 0}, {3, 0}, {3, 4}, {-2, 4}, {-2, -7}};
    const Pts earth{{11.5, 48.0}, {11.501, 48.0}, {11.501, 48.0005}, {11.4995, 48.001}, {11.5005, 47.9995}};
    const Pts south{{179.999, -33.0}, {-179.9995, -33.0}, {179.9995, -33.0004}, {-179.999, -32.9996}};
    const int n = th ? 6 : 5;
    const auto all = [&]<typename CS>(const std::string &name, std::type_identity<CS>, const Pts &pool, const Pts &more) {
        Meas<CS>::measures("measures-" + name, pool, n);
        if (not more.empty()) { Meas<CS>::measures("measures-antimeridian-" + name, more, n); }
        Pts centers = pool;
        centers.insert(centers.end(), more.begin(), more.end());
        if (not Meas<CS>::flat) { for (double lat : {0.0, 30.0, -60.0, 75.0, -80.0}) { for (double lon : {0.0, -75.0, 120.0}) { centers.push_back({lon, lat}); } } }
        Meas<CS>::boxes("boxes-" + name, centers, {10, 50, 200, 1000, 10000});
        Meas<CS>::caches("caches-" + name, {pool[0], pool[1], pool[2]}, th ? 4 : 3);
    };
    all("cartesian", std::type_identity<cs_cartesian>{}, grid, Pts{});
    all("geographic", std::type_identity<cs_geographic>{}, earth, south);
    all("spherical", std::type_identity<cs_spherical_equatorial>{}, earth, south);
}

int main(int argc, char **argv) {
    bool m = false;
    for (int i = 1; i < argc; ++i) { m |= std::string{argv[i]} == "--measures"; }
    return mc::main_(argc, argv, [&] {
        if (m) { measure_suites(mc::g.thorough); } else { substring_suites(mc::g.thorough); }
    });
}
