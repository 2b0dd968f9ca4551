// C01: comparing a match with a ground truth accounts for every part of both lines, on every pair of short walks.
#include "types/geometry/rich_type/multi_rich_line.hpp"
#include "types/geometry/rich_type/eager_multi_rich_line.hpp"
#include "types/geometry/rich_type/lazy_multi_rich_line.hpp"
#include "types/geometry/algorithm/compare.hpp"

#include "mc.hpp"

using namespace map_matching_2;

struct Pt { double x, y; bool operator==(const Pt &) const = default; auto operator<=>(const Pt &) const = default; };
using Pts = std::vector<Pt>;
using Lines = std::vector<std::vector<int>>;         // each a walk over the nodes

// nodes of a little town and where they are; edges between neighbours
struct Town {
    Pts node;
    std::vector<std::vector<int>> next;
    bool geo = false;                                  // coordinates in degrees
    bool adjacent(int a, int b) const { return std::find(next[a].begin(), next[a].end(), b) != next[a].end(); }
};

static Town grid(int w, int h, double step, bool diagonal) {
    Town t;
    for (int y = 0; y < h; ++y) { for (int x = 0; x < w; ++x) { t.node.push_back({x * step, y * step}); } }
    t.next.resize(t.node.size());
    for (int a = 0; a < w * h; ++a) { for (int b = 0; b < w * h; ++b) {
        const int dx = std::abs(a % w - b % w), dy = std::abs(a / w - b / w);
        if (dx + dy == 1 or (diagonal and dx == 1 and dy == 1 and (a % w + a / w) % 2 == 0)) { t.next[a].push_back(b); }
    } }
    return t;
}

static std::vector<std::vector<int>> walks(const Town &t, int most) {
    std::vector<std::vector<int>> all, last;
    for (int i = 0; i < static_cast<int>(t.node.size()); ++i) { last.push_back({i}); }
    for (int n = 0; n < most; ++n) {
        std::vector<std::vector<int>> now;
        for (auto &w : last) { for (int b : t.next[w.back()]) { auto v = w; v.push_back(b); now.push_back(v); } }
        all.insert(all.end(), now.begin(), now.end());
        last = now;
    }
    return all;
}

using Part = std::pair<int, int>;
using Parts = std::multiset<Part>;

static Parts parts_of(const Lines &l) {
    Parts p;
    for (auto &w : l) { for (std::size_t i = 0; i + 1 < w.size(); ++i) { if (w[i] != w[i + 1]) { p.insert({w[i], w[i + 1]}); } } }
    return p;
}

static Parts common(const Parts &a, const Parts &b) {
    Parts c;
    std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::inserter(c, c.end()));
    return c;
}

static Parts minus(const Parts &a, const Parts &b) {
    Parts c;
    std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::inserter(c, c.end()));
    return c;
}

static std::string show(const Parts &p) {
    std::ostringstream os;
    for (auto &[a, b] : p) { os << a << ">" << b << " "; }
    return os.str();
}

static std::string show(const Lines &l) {
    std::ostringstream os;
    os << "[";
    for (auto &w : l) { for (int n : w) { os << n << " "; } os << "| "; }
    os << "]";
    return os.str();
}

static double seg_len(const Pt &a, const Pt &b) { return std::hypot(a.x - b.x, a.y - b.y); }

static double off(const Pt &p, const Pt &a, const Pt &b, double *at) {
    const double dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy;
    const double t = l > 0 ? std::min(1.0, std::max(0.0, ((p.x - a.x) * dx + (p.y - a.y) * dy) / l)) : 0;
    *at = t;
    return std::hypot(p.x - a.x - t * dx, p.y - a.y - t * dy);
}

// the parts between nodes that a segment runs over, places within tol of it
template<typename Segments>
static Parts parts_of_result(const Town &t, const Segments &segments, double tol, const char *name) {
    Parts p;
    for (auto &s : segments) {
        const Pt a{boost::geometry::get<0>(s.first()), boost::geometry::get<1>(s.first())}, b{boost::geometry::get<0>(s.second()), boost::geometry::get<1>(s.second())};
        if (a == b or seg_len(a, b) < tol / 4) { continue; }
        std::vector<std::pair<double, int>> on;
        for (int n = 0; n < static_cast<int>(t.node.size()); ++n) { double at; if (off(t.node[n], a, b, &at) <= tol) { on.push_back({at, n}); } }
        std::sort(on.begin(), on.end());
        mc::require(on.size() >= 2 and seg_len(t.node[on.front().second], a) <= tol and seg_len(t.node[on.back().second], b) <= tol,
                name, ": segment ", a.x, ",", a.y, " to ", b.x, ",", b.y, " is not between places");
        for (std::size_t i = 0; i + 1 < on.size(); ++i) {
            mc::require(t.adjacent(on[i].second, on[i + 1].second), name, ": segment ", a.x, ",", a.y, " to ", b.x, ",", b.y, " leaves the roads");
            p.insert({on[i].second, on[i + 1].second});
        }
    }
    return p;
}

static double length_of(const Town &t, const Parts &p) {
    double l = 0;
    for (auto &[a, b] : p) {
        const Pt &x = t.node[a], &y = t.node[b];
        const double rad = M_PI / 180, lat = (x.y + y.y) / 2 * rad;
        l += t.geo ? std::hypot((x.x - y.x) * std::cos(lat), x.y - y.y) * rad * 6371008.8 : seg_len(x, y);
    }
    return l;
}

template<typename Multi>
static Multi multi_of(const Town &t, const Lines &l, const std::vector<Pt> &shift, bool sparse) {
    using RL = typename Multi::rich_line_type;
    std::vector<RL> lines;
    std::size_t k = 0;
    for (auto &w : l) {
        typename Multi::line_type line;
        for (std::size_t i = 0; i < w.size(); ++i) {
            const Pt s = k < shift.size() ? shift[k] : Pt{0, 0};
            ++k;
            if (sparse and i > 0 and i + 1 < w.size()) {
                const Pt a = t.node[w[i - 1]], b = t.node[w[i]], c = t.node[w[i + 1]];
                if ((b.x - a.x) * (c.y - b.y) == (b.y - a.y) * (c.x - b.x) and (b.x - a.x) * (c.x - b.x) + (b.y - a.y) * (c.y - b.y) > 0) { continue; }
            }
            line.emplace_back(typename Multi::line_type::value_type{t.node[w[i]].x + s.x, t.node[w[i]].y + s.y});
        }
        lines.emplace_back(RL{std::move(line)});
    }
    return Multi{std::move(lines)};
}

struct Opt { double tol = 1e-9, slack = 0; bool sparse = false, single = false; double rel = 1e-6; };

template<typename Multi>
static void compare_case(const Town &t, const geometry::line_comparator<Multi> &cmp, const Lines &a, const Lines &b, const Opt &o,
        const std::vector<Pt> &sa = {}, const std::vector<Pt> &sb = {}) {
    const Multi ma = multi_of<Multi>(t, a, sa, o.sparse), mb = multi_of<Multi>(t, b, sb, o.sparse);
    const auto r = o.single ? cmp.compare(ma.rich_lines().front(), mb.rich_lines().front()) : cmp.compare(ma, mb);
    mc::transition();
    const Parts pa = parts_of(a), pb = parts_of(b), both = common(pa, pb);
    const Parts c = parts_of_result(t, r.corrects, o.tol, "correct"), m = parts_of_result(t, r.error_misses, o.tol, "missed"), x = parts_of_result(t, r.error_adds, o.tol, "added");
    const auto tell = [&] { std::ostringstream os; for (auto *v : {&sa, &sb}) { os << " shifted"; for (auto &q : *v) { os << " " << q.x << "," << q.y; } } return os.str() + " correct " + show(c) + " missed " + show(m) + " added " + show(x); };
    mc::require(c == both, "correct parts are not the common ones ", show(both), ":", tell());
    mc::require(m == minus(pa, both), "missed parts are not the rest of the ground truth:", tell());
    mc::require(x == minus(pb, both), "added parts are not the rest of the match:", tell());
    const double la = length_of(t, pa), lb = length_of(t, pb), lc = length_of(t, both), lm = length_of(t, m), lx = length_of(t, x);
    const auto near = [&](double got, double want, const char *what) { mc::require(mc::close_to(got, want, o.rel, 1e-6 + o.slack), what, " ", got, " want ", want); };
    near(r.correct, lc, "correct length");
    near(r.error_missed, lm, "missed length");
    near(r.error_added, lx, "added length");
    const auto still = [](const Lines &l) { return std::ranges::any_of(l, [](auto &w) { return w.size() >= 2; }); };
    if (la == 0 and lb == 0 and still(a) != still(b)) {
        mc::count("a line without extent against none");
    } else if (o.slack == 0 and m.empty() and x.empty()) {
        mc::require(r.correct_fraction == 1, "everything correct: fraction ", r.correct_fraction);
        mc::require(r.error_fraction == 0, "no error: fraction ", r.error_fraction);
    } else {
        const double s = o.slack / std::max(1e-9, std::max(la, 1e-9));
        if (la > 0) {
            mc::require(mc::close_to(r.error_fraction, (lm + lx) / la, 2 * o.rel, 1e-9 + 3 * s), "error fraction ", r.error_fraction, " want ", (lm + lx) / la);
        } else {
            mc::require(std::isinf(r.error_fraction), "no ground truth: error fraction ", r.error_fraction);
        }
        const double want = la > 0 and lb > 0 ? lc / std::max(la, lb) : 0;
        mc::require(mc::close_to(r.correct_fraction, want, 2 * o.rel, 1e-9 + 3 * s) or (m.empty() and x.empty() and r.correct_fraction >= 1 - 3 * s), "correct fraction ", r.correct_fraction, " want ", want);
        mc::require(r.correct_fraction >= 0 and r.correct_fraction <= 1, "correct fraction ", r.correct_fraction);
    }
    if (not both.empty() and not (m.empty() and x.empty())) { mc::nontrivial(); }
    mc::outcome(mc::hcat(mc::hcat(c.size(), m.size()), x.size()));
}

using Cart = MM2_MULTI_RICH_LINE(MM2_CARTESIAN, MM2_MEMORY_TYPES);
using Geo = MM2_MULTI_RICH_LINE(MM2_GEOGRAPHIC, MM2_MEMORY_TYPES);
using Sph = MM2_MULTI_RICH_LINE(MM2_SPHERICAL_EQUATORIAL, MM2_MEMORY_TYPES);
using Lazy = MM2_LAZY_MULTI_RICH_LINE(MM2_CARTESIAN, MM2_MEMORY_TYPES);
using Eager = MM2_EAGER_MULTI_RICH_LINE(MM2_CARTESIAN, MM2_MEMORY_TYPES);

static void body() {
    const bool deep = mc::g.thorough;
    const auto pairs = [&](const char *name, const Town &t, const std::vector<Lines> &as, const std::vector<Lines> &bs, const auto &f) {
        mc::suite(name);
        for (auto &a : as) { for (auto &b : bs) {
            mc::run_case([&] { return "ground truth " + show(a) + " match " + show(b); }, [&] {
                mc::state(mc::hcat(mc::hstr(name), mc::hstr(show(a) + show(b))));
                f(t, a, b);
            });
        } }
    };
    const auto single = [](const std::vector<std::vector<int>> &w) { std::vector<Lines> l; for (auto &x : w) { l.push_back({x}); } return l; };
    const geometry::line_comparator<Cart> reused;

    const Town row = grid(5, 1, 30, false), block = grid(2, 2, 30, false), town = grid(3, 2, 30, false), slant = grid(3, 2, 30, true);
    const auto exact = [&](const Town &t, const Lines &a, const Lines &b) {
        compare_case<Cart>(t, reused, a, b, {});
        geometry::line_comparator<Cart> fresh;
        compare_case<Cart>(t, fresh, a, b, {.sparse = true, .single = true});
    };
    pairs("one line/row", row, single(walks(row, deep ? 6 : 5)), single(walks(row, deep ? 6 : 5)), exact);
    pairs("one line/block", block, single(walks(block, deep ? 7 : 6)), single(walks(block, deep ? 7 : 6)), exact);
    pairs("one line/town", town, single(walks(town, deep ? 5 : 4)), single(walks(town, deep ? 5 : 4)), exact);
    pairs("one line/slant", slant, single(walks(slant, deep ? 4 : 3)), single(walks(slant, deep ? 4 : 3)), exact);

    // lines in parts, with gaps between them or not
    const auto twos = [&](const Town &t, int most, bool sorted) {
        std::vector<Lines> l;
        const auto w = walks(t, most);
        for (auto &x : w) { for (auto &y : w) { if (not sorted or x < y) { l.push_back({x, y}); } } }
        return l;
    };
    const auto parts = [&](const Town &t, const Lines &a, const Lines &b) {
        compare_case<Cart>(t, reused, a, b, {});
        compare_case<Lazy>(t, {}, a, b, {});
    };
    const auto ones = [&](const Town &t, int most) { std::vector<Lines> l = single(walks(t, most)); l.push_back({}); return l; };
    pairs("parts/row 2 and 1", row, twos(row, deep ? 3 : 2, false), ones(row, 4), parts);
    pairs("parts/row 1 and 2", row, ones(row, 4), twos(row, deep ? 3 : 2, false), parts);
    pairs("parts/row 2 and 2", row, twos(row, 2, not deep), twos(row, 2, not deep), parts);
    pairs("parts/town 2 and 2", town, twos(town, deep ? 2 : 1, false), twos(town, 2, not deep), parts);
    std::vector<Lines> threes;
    for (auto &l : twos(town, 1, false)) { for (auto &w : walks(town, 1)) { auto x = l; x.push_back(w); threes.push_back(x); } }
    pairs("parts/town 3 and 1", town, threes, ones(town, deep ? 4 : 2), parts);

    // on the globe, along and across the antimeridian's neighbourhood, and other settings
    const auto globe = [](Town t, double lon, double lat) { for (auto &p : t.node) { p = {lon + p.x * 1e-5, lat + p.y * 1e-5}; } t.geo = true; return t; };
    const auto geo = [](const Town &t, const Lines &a, const Lines &b) {
        compare_case<Geo>(t, {}, a, b, {.tol = 1e-8, .rel = 0.01});
        compare_case<Sph>(t, {}, a, b, {.tol = 1e-8, .rel = 0.01});
    };
    pairs("globe/town", globe(town, 12, 50), single(walks(town, 3)), single(walks(town, deep ? 4 : 3)), geo);
    pairs("globe/south", globe(slant, -58, -34), single(walks(slant, 2)), single(walks(slant, deep ? 3 : 2)), geo);
    pairs("globe/parts", globe(row, 179.9, 5), ones(row, 3), twos(row, deep ? 2 : 1, false), geo);
    pairs("settings", town, twos(town, 1, true), ones(town, deep ? 4 : 3), [](const Town &t, const Lines &a, const Lines &b) {
        for (double simple : {0.0, 0.5}) { for (double reverse : {0.01, 10.0}) { for (double adopt : {0.0, 0.5}) { for (double split : {0.01, 5.0}) { for (double turn : {45.0, 170.0}) {
            const geometry::line_comparator<Cart> cmp{simple, reverse, adopt, split, turn, false};
            compare_case<Cart>(t, cmp, a, b, {});
        } } } } }
    });

    // points a little beside their places: within the tolerances nothing changes
    const auto beside = [&](const char *name, const Town &t, const std::vector<Lines> &as, const std::vector<Lines> &bs, double by, bool both) {
        pairs(name, t, as, bs, [&](const Town &t, const Lines &a, const Lines &b) {
            const auto points = [](const Lines &l) { std::size_t n = 0; for (auto &w : l) { n += w.size(); } return n; };
            const std::size_t na = points(a), nb = points(b);
            const Opt o{.tol = 1.0, .slack = 4 * by * static_cast<double>(na + nb)};
            for (const Pt &d : {Pt{by, 0.0}, Pt{-by * 0.6, by * 0.7}}) {
                for (std::size_t i = 0; i < nb; ++i) {
                    std::vector<Pt> sb(nb, Pt{0, 0}), sa(na, Pt{0, 0});
                    sb[i] = d;
                    compare_case<Cart>(t, reused, a, b, o, sa, sb);
                    compare_case<Cart>(t, reused, b, a, o, sb, sa);
                    for (std::size_t j = i + 1; j < nb and both; ++j) {
                        sb[j] = {-d.y, d.x};
                        compare_case<Cart>(t, reused, a, b, o, sa, sb);
                        sb[j] = {0, 0};
                    }
                    for (std::size_t j = 0; j < na and both; ++j) {
                        sa[j] = {-d.x, d.y};
                        compare_case<Cart>(t, reused, a, b, o, sa, sb);
                        sa[j] = {0, 0};
                    }
                }
            }
        });
    };
    beside("beside/row", row, single(walks(row, 3)), single(walks(row, 3)), 0.03, true);
    beside("beside/block", block, single(walks(block, 3)), single(walks(block, 3)), 0.03, true);
    beside("beside/town", town, single(walks(town, 3)), single(walks(town, 3)), 0.03, deep);
    beside("beside/row parts", row, ones(row, 3), twos(row, 1, false), 0.03, true);
    beside("beside/town parts", town, twos(town, 1, true), twos(town, 1, true), 0.03, deep);

    // nothing to compare: no lines, lines of one point
    const std::vector<Lines> none{{}, {{0}}, {{0}, {3}}, {{0, 1}}, {{0}, {1, 2}}, {{0, 1, 2}}, {{0, 1}, {2}}, {{0, 0}}, {{0, 0, 1}}, {{1, 1}, {1, 0}},
        {{}}, {{}, {}}, {{0, 1}, {}}, {{}, {0, 1}}, {{0, 1}, {}, {1, 2}}, {{}, {0}}, {{}, {0, 1}, {2, 1}}};
    pairs("empty", row, none, none, [&](const Town &t, const Lines &a, const Lines &b) {
        parts(t, a, b);
        compare_case<Eager>(t, {}, a, b, {});
    });
}

int main(int argc, char **argv) { return mc::main_(argc, argv, body); }
