// L01: derived data (length, azimuth, turns) of plain, lazy and eager lines, after every sequence of edits and queries.
// L02 (--multi): the same for lines made of several lines.
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/container/vector.hpp>
#include <boost/serialization/vector.hpp>

#include "types/geometry/point.hpp"
#include "types/geometry/rich_type/rich_line.hpp"
#include "types/geometry/rich_type/lazy_rich_line.hpp"
#include "types/geometry/rich_type/eager_rich_line.hpp"
#include "types/geometry/rich_type/multi_rich_line.hpp"
#include "types/geometry/rich_type/lazy_multi_rich_line.hpp"
#include "types/geometry/rich_type/eager_multi_rich_line.hpp"

#include "mc.hpp"

using namespace map_matching_2;
using namespace map_matching_2::geometry;

template<typename T, typename A>
using bvec = boost::container::vector<T, A>;

using P = MM2_POINT(MM2_CARTESIAN);
using Plain = rich_line<P>;
using Lazy = lazy_rich_line<P>;
using Eager = eager_rich_line<P>;
using Line = Plain::line_type;
using PlainB = rich_line<P, bvec>;
using LazyB = lazy_rich_line<P, bvec>;
using EagerB = eager_rich_line<P, bvec>;

struct Pt { double x, y; bool operator==(const Pt &) const = default; };
using Pts = std::vector<Pt>;
static const Pts PAL{{0, 0}, {3, 0}, {3, 4}, {6, 0}};

static Line mk(const Pts &p) {
    Line l;
    for (auto &q : p) { l.emplace_back(P{q.x, q.y}); }
    return l;
}

static std::string show(const Pts &p) {
    std::ostringstream os;
    os << "(";
    for (std::size_t i = 0; i < p.size(); ++i) { os << (i ? " " : "") << p[i].x << "," << p[i].y; }
    os << ")";
    return os.str();
}

static double norm(double d) {
    while (d >= 360) { d -= 360; }
    while (d < 0) { d += 360; }
    return d;
}

static bool same_angle(double a, double b) {
    const double d = norm(a - b);
    return d < 1e-6 or d > 360 - 1e-6;
}

static double azi(const Pt &a, const Pt &b) { return norm(std::atan2(b.x - a.x, b.y - a.y) * 180 / M_PI); }

// a turn: left positive, right negative; the sign of a full reversal is not prescribed
struct Turn { bool valid; double v; bool uturn; };
static Turn turn(const Pt &a, const Pt &b, const Pt &c) {
    if (a == b or b == c) { return {false, 0, false}; }
    double d = norm(azi(a, b) - azi(b, c));
    if (std::fabs(d - 180) < 1e-9) { return {true, 180, true}; }
    if (d > 180) { d -= 360; }
    return {true, d, false};
}

struct Want {
    bool has_len = false, has_az = false, has_dir = false;
    double len = 0, az = 0, dir = 0, adir = 0;
    int uturns = 0;
};

static Want want(const Pts &p) {
    Want w;
    for (std::size_t i = 1; i < p.size(); ++i) {
        if (not(p[i] == p[i - 1])) { w.has_len = true; w.len += std::hypot(p[i].x - p[i - 1].x, p[i].y - p[i - 1].y); }
    }
    if (p.size() >= 2 and not(p.front() == p.back())) { w.has_az = true; w.az = azi(p.front(), p.back()); }
    for (std::size_t i = 2; i < p.size(); ++i) {
        auto t = turn(p[i - 2], p[i - 1], p[i]);
        if (t.valid) {
            w.has_dir = true;
            w.adir += std::fabs(t.v);
            if (t.uturn) { ++w.uturns; } else { w.dir += t.v; }
        }
    }
    return w;
}

// the sum of turns, with every reversal counted as +180 or -180
static bool dir_ok(double got, const Want &w) {
    for (int k = -w.uturns; k <= w.uturns; k += 2) { if (mc::close_to(got, w.dir + 180 * k, 1e-9, 1e-6)) { return true; } }
    return false;
}

template<typename R>
static void check_whole(const R &x, const Want &w, const char *what) {
    mc::require_eq(x.has_length(), w.has_len, what, ": has_length()");
    if (w.has_len) { mc::require_close(x.length(), w.len, what, ": length()"); }
    mc::require_eq(x.has_azimuth(), w.has_az, what, ": has_azimuth()");
    if (w.has_az) { mc::require(same_angle(x.azimuth(), w.az), what, ": azimuth() ", x.azimuth(), " should be ", w.az); }
    mc::require_eq(x.has_directions(), w.has_dir, what, ": has_directions()");
    if (w.has_dir) {
        mc::require(dir_ok(x.directions(), w), what, ": directions() ", x.directions(), " should be ", w.dir, " plus ", w.uturns, " reversals");
        mc::require(mc::close_to(x.absolute_directions(), w.adir, 1e-9, 1e-6), what, ": absolute_directions() ", x.absolute_directions(), " should be ", w.adir);
    }
}

template<typename R>
static void check_parts(const R &x, const Pts &p, const char *what) {
    mc::require_eq(x.size(), p.size(), what, ": size()");
    for (std::size_t i = 0; i < p.size(); ++i) {
        mc::require(x[i].template get<0>() == p[i].x and x[i].template get<1>() == p[i].y, what, ": point ", i);
    }
    for (std::size_t i = 0; i + 1 < p.size(); ++i) {
        const bool ok = not(p[i] == p[i + 1]);
        const double len = std::hypot(p[i].x - p[i + 1].x, p[i].y - p[i + 1].y);
        mc::require_eq(x.has_length(i), ok, what, ": has_length(", i, ")");
        mc::require_eq(x.has_azimuth(i), ok, what, ": has_azimuth(", i, ")");
        if (ok) {
            mc::require_close(x.length(i), len, what, ": length(", i, ")");
            mc::require(same_angle(x.azimuth(i), azi(p[i], p[i + 1])), what, ": azimuth(", i, ") ", x.azimuth(i));
        }
        const auto s = x.rich_segment(i);
        mc::require_eq(s.has_length(), ok, what, ": rich_segment(", i, ").has_length()");
        if (ok) {
            mc::require_close(s.length(), len, what, ": rich_segment(", i, ").length()");
            mc::require(same_angle(s.azimuth(), azi(p[i], p[i + 1])), what, ": rich_segment(", i, ").azimuth()");
        }
        if (i + 2 < p.size()) {
            const auto t = turn(p[i], p[i + 1], p[i + 2]);
            mc::require_eq(x.has_direction(i), t.valid, what, ": has_direction(", i, ")");
            if (t.valid) {
                mc::require(t.uturn ? std::fabs(std::fabs(x.direction(i)) - 180) < 1e-6 : std::fabs(x.direction(i) - t.v) < 1e-6,
                        what, ": direction(", i, ") ", x.direction(i), " should be ", t.v);
                mc::require(std::fabs(x.absolute_direction(i) - std::fabs(t.v)) < 1e-6, what, ": absolute_direction(", i, ")");
            }
        }
    }
}

template<typename R>
static void check(const R &x, const Pts &p) {
    const Want w = want(p);
    // whole-line data first and parts first: both orders on copies, so that the object under test keeps its caches
    { const R c{x}; check_whole(c, w, "line"); check_parts(c, p, "line"); }
    { const R c{x}; check_parts(c, p, "line, parts first"); check_whole(c, w, "line, parts first"); }
    { const Plain c{x}; check_whole(c, w, "as plain line"); check_parts(c, p, "as plain line"); }
    { const R c{x}; const Lazy l{c}; check_whole(l, w, "as lazy line"); check_parts(l, p, "as lazy line"); }
    { const R c{x}; const Eager l{c}; check_whole(l, w, "as eager line"); check_parts(l, p, "as eager line"); }
    mc::require(static_cast<const Plain &>(x) == Plain{mk(p)}, "equality with the plain line");
    if (not p.empty()) { mc::require(static_cast<const Plain &>(x) != Plain{mk(Pts(p.begin() + 1, p.end()))}, "inequality"); }
}

template<typename R>
static mc::u64 dump(const R &x) {
    using D = typename R::rich_line_data_base_type;
    const D &d = x;
    auto f = [](double v) -> mc::u64 { return std::isnan(v) ? 1 : std::isinf(v) ? 2 : 3 + static_cast<mc::u64>(std::llround(v * 1000) & 0xffffffff); };
    mc::u64 h = mc::hcat(f(d.length()), f(d.azimuth()));
    h = mc::hcat(h, f(d.directions()));
    h = mc::hcat(h, f(d.absolute_directions()));
    h = mc::hcat(h, d.lengths().size());
    for (auto v : d.lengths()) { h = mc::hcat(h, f(v)); }
    h = mc::hcat(h, d.azimuths().size());
    for (auto v : d.azimuths()) { h = mc::hcat(h, f(v)); }
    for (auto &q : x.line()) { h = mc::hcat(h, static_cast<mc::u64>(q.template get<0>() * 64 + q.template get<1>() + 4096)); }
    return mc::hcat(h, x.size());
}

template<typename R>
struct Node { R x; Pts p; std::string path; int depth; };

template<typename R>
static void query(const R &x, int q) {
    if (q == 0 or q == 9) { (void) x.has_length(); (void) x.length(); }
    if (q == 1 or q == 9) { (void) x.has_azimuth(); (void) x.azimuth(); }
    if (q == 2 or q == 9) { (void) x.has_directions(); (void) x.directions(); (void) x.absolute_directions(); }
    if ((q == 3 or q == 9) and x.size() >= 2) { (void) x.length(0); }
    if ((q == 4 or q == 9) and x.size() >= 2) { (void) x.azimuth(x.size() - 2); }
    if ((q == 5 or q == 9) and x.size() >= 3) { (void) x.direction(0); }
}

// an object of the same points in another representation
template<typename R>
using Other = std::conditional_t<std::is_same_v<R, Lazy>, Eager, Lazy>;

template<typename R>
static R archive_trip(const R &x) {
    std::stringstream ss;
    { boost::archive::binary_oarchive oa{ss}; oa << x; }
    R y;
    { boost::archive::binary_iarchive ia{ss}; ia >> y; }
    return y;
}

template<typename R, typename F>
static void successors(const Node<R> &n, std::size_t cap, const F &f) {
    auto go = [&](const std::string &name, const Pts &p, auto &&make) {
        if (p.size() > cap) { return; }
        f(name, p, make);
    };
    const Pts &p = n.p;
    for (int q = 0; q <= 5; ++q) { go("q" + std::to_string(q), p, [&, q](R &x) { query(x, q); }); }
    for (std::size_t i = 0; i <= p.size(); ++i) {
        Pts r = p;
        if (i < p.size()) { r.erase(r.begin() + i); }
        go("erase " + std::to_string(i), r, [i](R &x) { x.erase(i, true); });
        for (std::size_t j = i + 1; j < p.size(); ++j) {
            Pts s = p;
            s.erase(s.begin() + j);
            s.erase(s.begin() + i);
            go("erase {" + std::to_string(i) + "," + std::to_string(j) + "}", s, [i, j](R &x) { x.erase(std::vector<std::size_t>{i, j}); });
        }
        if (i < p.size()) { go("erase {" + std::to_string(i) + "}", r, [i](R &x) { x.erase(std::vector<std::size_t>{i}); }); }
    }
    go("erase {}", p, [](R &x) { x.erase(std::vector<std::size_t>{}); });
    for (std::size_t i = 0; i < p.size(); ++i) {
        for (std::size_t j = i; j <= p.size(); ++j) {
            go("sub " + std::to_string(i) + "," + std::to_string(j), Pts(p.begin() + i, p.begin() + j), [i, j](R &x) { R y = x.sub_rich_line(i, j); x = std::move(y); });
        }
    }
    for (int warm = 0; warm < 2; ++warm) {
        const std::string w = warm ? " warm" : " cold";
        for (int k = 0; k < 3; ++k) {
            Pts tail = p.empty() ? Pts{PAL[2]} : Pts{p.back()};
            if (k >= 1) { tail.push_back(PAL[k]); }
            if (k == 2) { tail.push_back(PAL[0]); }
            Pts r = p;
            if (r.empty()) { r = tail; } else { r.insert(r.end(), tail.begin() + 1, tail.end()); }
            go("merge " + show(tail) + w, r, [tail, warm](R &x) { R o{mk(tail)}; if (warm) { query(o, 9); } x.merge(std::move(o)); });
            if (k == 2) {
                Pts two{tail.back(), PAL[3]};
                Pts r2 = r;
                r2.push_back(PAL[3]);
                go("merge both " + show(tail) + show(two) + w, r2, [tail, two, warm](R &x) {
                    R o{mk(tail)}, o2{mk(two)};
                    if (warm) { query(o, 9); }
                    x.merge(std::move(o), std::move(o2));
                });
                go("merge list " + show(tail) + show(two) + w, r2, [tail, two, warm](R &x) {
                    std::vector<R> v;
                    v.emplace_back(mk(tail));
                    v.emplace_back(mk(two));
                    if (warm) { query(v[1], 9); }
                    x.merge(std::move(v));
                });
            }
        }
        go("merge ()" + w, p, [](R &x) { x.merge(R{}); });
        for (const Pts &a : {Pts{}, Pts{PAL[1]}, Pts{PAL[2], PAL[0]}, Pts{PAL[1], PAL[1], PAL[3]}, Pts{PAL[0], PAL[1], PAL[2], PAL[0]}}) {
            if (not warm) { go("= points " + show(a), a, [a](R &x) { x = mk(a); }); }
            if (not warm) { go("= plain " + show(a), a, [a](R &x) { x = Plain{mk(a)}; }); }
            if (not warm) { go("= plain other " + show(a), a, [a](R &x) { x = PlainB{mk(a)}; }); }
            go("= same " + show(a) + w, a, [a, warm](R &x) { R o{mk(a)}; if (warm) { query(o, 9); } x = o; });
            go("= moved " + show(a) + w, a, [a, warm](R &x) { R o{mk(a)}; if (warm) { query(o, 9); } x = std::move(o); });
            go("= other kind " + show(a) + w, a, [a, warm](R &x) { Other<R> o{mk(a)}; if (warm) { query(o, 9); } x = o; });
            go("= other kind, other container " + show(a) + w, a, [a, warm](R &x) {
                if constexpr (std::is_same_v<R, Lazy>) { EagerB o{mk(a)}; x = o; }
                else { LazyB o{mk(a)}; if (warm) { query(o, 9); } x = o; }
            });
        }
    }
    go("copy", p, [](R &x) { R y{x}; x = y; });
    go("move", p, [](R &x) { R y{std::move(x)}; x = std::move(y); });
    go("via other kind", p, [](R &x) { Other<R> y{x}; x = R{y}; });
    go("via other container", p, [](R &x) {
        if constexpr (std::is_same_v<R, Lazy>) { LazyB y{x}; x = R{y}; } else { EagerB y{x}; x = R{y}; }
    });
    go("archive", p, [](R &x) { x = archive_trip(x); });
}

template<typename R>
static void line_suite(const std::string &name, int n, int np, int depth, std::size_t cap) {
    mc::suite(name);
    mc::product(std::vector<int>(n, np), [&](const std::vector<int> &c) {
        Pts p;
        for (int i : c) { p.push_back(PAL[i]); }
        std::string at;
        mc::run_case([&] { return name + " from " + show(p) + at; }, [&] {
            std::unordered_set<mc::u64> seen;
            std::vector<Node<R>> level;
            Node<R> root{R{mk(p)}, p, "", 0};
            check(root.x, p);
            seen.insert(dump(root.x));
            level.push_back(std::move(root));
            for (int d = 0; d < depth; ++d) {
                std::vector<Node<R>> next;
                for (auto &nd : level) {
                    successors(nd, cap, [&](const std::string &op, const Pts &want, const auto &apply) {
                        at = nd.path + "; " + op;
                        R y{nd.x};
                        apply(y);
                        mc::transition();
                        const mc::u64 h = dump(y);
                        if (not seen.insert(h).second) {
                            // same object as one checked before; its points still have to be the wanted ones
                            check_parts(y, want, "line");
                            return;
                        }
                        check(y, want);
                        mc::state(mc::hcat(h, std::is_same_v<R, Lazy>));
                        mc::outcome(h);
                        if (d + 1 < depth) { next.push_back(Node<R>{std::move(y), want, at, d + 1}); }
                    });
                }
                level = std::move(next);
            }
            if (n >= 2) { mc::nontrivial(); }
        });
    });
}

// longer lines: every set of points erased at once, whatever was measured before, and then every part, every single point erased, or a merge
template<typename R>
static void long_suite(const std::string &name, int n) {
    mc::suite(name);
    for (int kind = 0; kind < 3; ++kind) {
        Pts p;
        for (int i = 0; i < n; ++i) {
            if (kind == 0) { p.push_back({i * 2.0, static_cast<double>(i * i % 5)}); }
            if (kind == 1) { p.push_back(PAL[i % 3]); }
            if (kind == 2) { p.push_back(PAL[(i / 2) % 3]); }   // with points that repeat
        }
        for (int set = 0; set < (1 << n); ++set) {
            for (int q : {-1, 0, 1, 2, 3, 4, 5, 9}) {
                std::string at;
                mc::run_case([&] { return name + " " + show(p) + " erased " + mc::show(std::vector<int>{set, q}) + at; }, [&] {
                    R x{mk(p)};
                    query(x, q);
                    std::vector<std::size_t> v;
                    Pts want;
                    for (int i = 0; i < n; ++i) { if (set >> i & 1) { v.push_back(i); } else { want.push_back(p[i]); } }
                    x.erase(v);
                    {
                        R y{x};
                        check(y, want);
                        mc::outcome(dump(y));
                    }
                    mc::transition();
                    auto then = [&](const std::string &what, const Pts &w, const auto &apply) {
                        at = "; " + what;
                        R y{x};
                        apply(y);
                        check(y, w);
                        mc::transition();
                    };
                    for (std::size_t i = 0; i < want.size(); ++i) {
                        Pts w = want;
                        w.erase(w.begin() + i);
                        then("erase " + std::to_string(i), w, [&](R &y) { y.erase(i, true); });
                        for (std::size_t j = i; j <= want.size(); ++j) {
                            then("sub " + std::to_string(i) + "," + std::to_string(j), Pts(want.begin() + i, want.begin() + j),
                                    [&](R &y) { R z = y.sub_rich_line(i, j); y = std::move(z); });
                        }
                    }
                    if (not want.empty()) {
                        Pts tail{want.back(), {1, 1}, {2, 7}, {0, 0}}, w = want;
                        w.insert(w.end(), tail.begin() + 1, tail.end());
                        for (int tq : {-1, 9}) { then("merge", w, [&](R &y) { R o{mk(tail)}; query(o, tq); y.merge(std::move(o)); }); }
                    }
                    mc::nontrivial();
                    mc::state(mc::hcat(mc::hstr(show(want)), q));
                });
            }
        }
    }
}

// merging lines that do not meet is refused
template<typename R>
static void refuse_suite(const std::string &name) {
    mc::suite(name);
    mc::product({4, 4, 4, 4}, [&](const std::vector<int> &c) {
        mc::run_case([&] { return name + mc::show(c); }, [&] {
            R a{mk({PAL[c[0]], PAL[c[1]]})}, b{mk({PAL[c[2]], PAL[c[3]]})};
            mc::require_eq(a.attaches(b), c[1] == c[2], "attaches()");
            bool threw = false;
            try { a.merge(std::move(b)); } catch (const rich_line_merge_exception &) { threw = true; }
            mc::require_eq(threw, c[1] != c[2], "merge of lines that do not meet throws");
            for (std::size_t i = 0; i <= 4; ++i) { for (std::size_t j = 0; j <= 4; ++j) {
                R x{mk({PAL[c[0]], PAL[c[1]], PAL[c[2]]})};
                bool t2 = false;
                try { (void) x.sub_rich_line(i, j); } catch (const std::out_of_range &) { t2 = true; }
                mc::require_eq(t2, not(i <= j and i < 3 and j <= 3), "sub_rich_line(", i, ",", j, ") bounds");
            } }
            mc::transition();
            mc::nontrivial();
            mc::state(mc::hstr(name + mc::show(c)));
            mc::outcome(threw + 2);
        });
    });
}

// ------------------------------------------------------------------------------------------------------------ multi
using MPts = std::vector<Pts>;
static std::string show(const MPts &m) { std::string s; for (auto &p : m) { s += ::show(p); } return s; }

static Want want(const MPts &m) {
    Want w;
    for (std::size_t i = 0; i < m.size(); ++i) {
        const Want a = want(m[i]);
        w.has_len |= a.has_len;
        w.len += a.len;
        w.has_dir |= a.has_dir;
        w.dir += a.dir;
        w.adir += a.adir;
        w.uturns += a.uturns;
        if (i + 1 < m.size() and m[i].size() >= 2 and m[i + 1].size() >= 2 and m[i].back() == m[i + 1].front()) {
            const auto t = turn(m[i][m[i].size() - 2], m[i].back(), m[i + 1][1]);
            if (t.valid) {
                w.has_dir = true;
                w.adir += std::fabs(t.v);
                if (t.uturn) { ++w.uturns; } else { w.dir += t.v; }
            }
        }
    }
    if (m.size() == 1) { const Want a = want(m[0]); w.has_az = a.has_az; w.az = a.az; }
    else if (m.size() > 1 and not(m.front().front() == m.back().back())) { w.has_az = true; w.az = azi(m.front().front(), m.back().back()); }
    return w;
}

template<typename M>
static M mkm(const MPts &m) {
    typename M::rich_lines_container_type c;
    for (auto &p : m) { c.emplace_back(typename M::rich_line_type{mk(p)}); }
    return M{std::move(c)};
}

template<typename M>
static void check_lines(const M &x, const MPts &m, const char *what) {
    mc::require_eq(x.size(), m.size(), what, ": number of lines");
    std::size_t total = 0;
    for (std::size_t i = 0; i < m.size(); ++i) {
        total += m[i].size();
        check_parts(x[i], m[i], what);
        check_whole(x[i], want(m[i]), what);
    }
    mc::require_eq(x.sizes(), total, what, ": sizes()");
    mc::require_eq(x.empty(), total == 0, what, ": empty()");
    const auto ml = x.multi_line();
    std::size_t k = 0;
    for (auto &p : m) { if (not p.empty()) { mc::require(k < ml.size() and ml[k].size() == p.size(), what, ": multi_line()"); ++k; } }
    mc::require_eq(ml.size(), k, what, ": lines of multi_line()");
}

using MPlain = multi_rich_line<Plain>;
using MLazy = lazy_multi_rich_line<Lazy>;
using MEager = eager_multi_rich_line<Eager>;
using MLazyP = lazy_multi_rich_line<Plain>;
using MEagerL = eager_multi_rich_line<Lazy>;

template<typename M>
static void mquery(const M &x, int q) {
    if (q & 1) { (void) x.has_length(); }
    if (q & 2) { (void) x.has_azimuth(); }
    if (q & 4) { (void) x.has_directions(); }
}

template<typename M>
static void mcheck(const M &x, const MPts &m, const char *what) {
    const Want w = want(m);
    { const M c{x}; check_whole(c, w, what); check_lines(c, m, what); }
    { const M c{x}; check_lines(c, m, what); check_whole(c, w, what); }
}

// every representation converted into every other one, before and after queries
template<typename A, typename B>
static void convert(const MPts &m, const MPts &old, int q, const char *what) {
    mc::transition();
    const A a = mkm<A>(m);
    mquery(a, q);
    // an eager one cannot be constructed from a lazy one (that constructor does not compile), only assigned
    if constexpr (not(std::is_same_v<B, MEager> and (std::is_same_v<A, MLazy> or std::is_same_v<A, MLazyP>))) {
        const B b{a};
        mcheck(b, m, what);
    }
    B b = mkm<B>(old);
    mquery(b, q);
    b = a;
    mcheck(b, m, what);
    { B c{b}; B d{std::move(c)}; mcheck(d, m, what); c = std::move(d); mcheck(c, m, what); }
}

template<typename M>
static void multi_case(const MPts &m, const MPts &old, int q) {
    mcheck(mkm<M>(m), m, "multi line");
    convert<MPlain, M>(m, old, q, "from plain");
    convert<MLazy, M>(m, old, q, "from lazy");
    convert<MEager, M>(m, old, q, "from eager");
    convert<MLazyP, M>(m, old, q, "from lazy of plain");
    convert<MEagerL, M>(m, old, q, "from eager of lazy");
    const M x = mkm<M>(m);
    mquery(x, q);
    if (m.size() == 1) { const M y{typename M::rich_line_type{mk(m[0])}}; mcheck(y, m, "of one line"); }
}

template<typename M>
static void merge_case(const MPts &m, const MPts &parts, int q, const char *what) {
    using RL = typename M::rich_line_type;
    M x = mkm<M>(m);
    mquery(x, q);
    std::vector<RL> v;
    for (auto &p : parts) { v.emplace_back(mk(p)); }
    x.merge(std::move(v));
    MPts want = m;
    Pts cur;
    bool open = false;
    for (auto &p : parts) {
        if (open and (p.empty() or cur.empty() or cur.back() == p.front())) {
            if (cur.empty()) { cur = p; } else if (not p.empty()) { cur.insert(cur.end(), p.begin() + 1, p.end()); }
        } else {
            if (open) { want.push_back(cur); }
            cur = p;
            open = true;
        }
    }
    want.push_back(cur);
    mcheck(x, want, what);
    mc::transition();
}

static void multi_suite(const std::string &name, int lines, int maxpts, int np) {
    mc::suite(name);
    std::vector<Pts> all;
    for (int n = 1; n <= maxpts; ++n) {
        mc::product(std::vector<int>(n, np), [&](const std::vector<int> &c) { Pts p; for (int i : c) { p.push_back(PAL[i]); } all.push_back(p); });
    }
    const MPts olds[] = {{}, {{PAL[0], PAL[2], PAL[1]}, {PAL[1], PAL[0], PAL[2]}}};
    mc::product(std::vector<int>(lines, static_cast<int>(all.size())), [&](const std::vector<int> &c) {
        if (not mc::mine()) { return; }
        MPts m;
        for (int i : c) { m.push_back(all[i]); }
        mc::exec([&] { return name + " " + ::show(m); }, [&] {
            for (auto &old : olds) {
                for (int q : {0, 7}) {
                    multi_case<MPlain>(m, old, q);
                    multi_case<MLazy>(m, old, q);
                    multi_case<MEager>(m, old, q);
                }
            }
            if (lines >= 1) {
                for (int q : {0, 1, 7}) {
                    merge_case<MPlain>({}, m, q, "merged plain");
                    for (auto &base : {MPts{}, MPts{{PAL[0], PAL[1]}}}) {
                        merge_case<MLazy>(base, m, q, "merged lazy");
                        merge_case<MEager>(base, m, q, "merged eager");
                    }
                }
            }
            if (lines >= 2) { mc::nontrivial(); }
            mc::state(mc::hstr(::show(m)));
            const Want w = want(m);
            mc::outcome(mc::hstr(std::to_string(w.len) + "," + std::to_string(w.az) + "," + std::to_string(w.dir)));
        });
    });
}

int main(int argc, char **argv) {
    bool multi = false;
    for (int i = 1; i < argc; ++i) { multi |= std::string{argv[i]} == "--multi"; }
    return mc::main_(argc, argv, [&] {
        const bool t = mc::g.thorough;
        if (multi) {
            for (int l = 0; l <= 2; ++l) { multi_suite("lines" + std::to_string(l), l, 3, 3); }
            multi_suite("lines3", 3, 2, 3);
            if (t) { multi_suite("lines3-long", 3, 3, 3); multi_suite("lines2-4points", 2, 3, 4); multi_suite("lines4", 4, 2, 2); }
            return;
        }
        for (int n = 0; n <= 4; ++n) {
            const int d = t ? (n == 4 ? 4 : 5) : n >= 3 ? 3 : 4;
            line_suite<Lazy>("lazy" + std::to_string(n), n, n == 4 ? 3 : 4, d, t ? 6 : 5);
            line_suite<Eager>("eager" + std::to_string(n), n, n == 4 ? 3 : 4, d, t ? 6 : 5);
        }
        for (int n = 6; n <= (t ? 10 : 7); ++n) {
            long_suite<Lazy>("lazy-long" + std::to_string(n), n);
            long_suite<Eager>("eager-long" + std::to_string(n), n);
        }
        refuse_suite<Lazy>("refuse-lazy");
        refuse_suite<Eager>("refuse-eager");
    });
}
