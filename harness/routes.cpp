// R01: routes (sequences of lines, owned or referred to) against plain point sequences.
// Default: derived data, copies, parts of routes. --merge: merge, join, trim_merge, return lines.
#include "mc.hpp"
#include "types/geometry/point.hpp"
#include "types/geometry/rich_type/lazy_multi_rich_line.hpp"
#include "types/geometry/rich_type/multi_rich_line.hpp"
#include "types/geometry/network/route/route.hpp"
#include "types/geometry/network/route/lazy_route.hpp"
#include "types/geometry/network/route/eager_route.hpp"

using namespace map_matching_2;
using Point = MM2_POINT(MM2_CARTESIAN);
using Plain = MM2_RICH_LINE(MM2_CARTESIAN, MM2_MEMORY_TYPES);
using Lazy = MM2_LAZY_RICH_LINE(MM2_CARTESIAN, MM2_MEMORY_TYPES);
using Eager = MM2_EAGER_RICH_LINE(MM2_CARTESIAN, MM2_MEMORY_TYPES);
using Variant = MM2_RICH_LINE_VARIANT(MM2_CARTESIAN);
using Multi = geometry::multi_rich_line<Plain>;

struct Pt {
    int x, y;
    bool operator==(const Pt &) const = default;
};
using Pts = std::vector<Pt>;
using Lines = std::vector<Pts>;
using Seg = std::pair<Pt, Pt>;
using Segs = std::vector<Seg>;

static std::ostream &operator<<(std::ostream &o, const Pt &p) { return o << p.x << " " << p.y; }
static std::ostream &operator<<(std::ostream &o, const Seg &s) { return o << s.first << ">" << s.second; }

static std::string str(const Pts &l) { return mc::show(l); }
static std::string str(const Lines &l) {
    std::string s;
    for (auto &x : l) { s += (s.empty() ? "" : " ") + str(x); }
    return "{" + s + "}";
}

static const Pts POOL{{0, 0}, {2, 0}, {4, 0}, {2, 3}};

static Lines lines_up_to(int n, int pool) {
    Lines r{{}};
    for (int k = 1; k <= n; ++k) {
        mc::product(std::vector<int>(k, pool), [&](const std::vector<int> &v) {
            Pts l;
            for (int i = k; i-- > 0;) { l.push_back(POOL[v[i]]); }
            r.push_back(l);
        });
    }
    return r;
}

// ---------------------------------------------------------------- reference
static Segs segs(const Pts &l) {
    Segs r;
    for (std::size_t i = 0; i + 1 < l.size(); ++i) { if (not (l[i] == l[i + 1])) { r.push_back({l[i], l[i + 1]}); } }
    return r;
}

static Segs segs(const Lines &ls) {
    Segs r;
    for (auto &l : ls) { for (auto &s : segs(l)) { r.push_back(s); } }
    return r;
}

static double len(const Seg &s) { return std::hypot(s.second.x - s.first.x, s.second.y - s.first.y); }
static double azi(const Pt &a, const Pt &b) {
    return std::atan2(b.x - a.x, b.y - a.y) * 180 / M_PI;
}
static double turn(const Seg &s, const Seg &t) {     // counter-clockwise positive, as the library has it
    const double a = azi(s.first, s.second), b = azi(t.first, t.second);
    double d = a - b;
    while (d > 180) { d -= 360; }
    while (d < -180) { d += 360; }
    return d;
}

struct Data {
    bool has_length = false, has_azimuth = false, has_dir = false, connected = true;
    double length = 0, azimuth = 0, dir = 0, abs_dir = 0;
    bool half_turn = false;    // the sign of a full reversal is not prescribed
};

static void line_turns(const Pts &l, Data &d) {
    for (std::size_t i = 0; i + 2 < l.size(); ++i) {
        if (l[i] == l[i + 1] or l[i + 1] == l[i + 2]) { continue; }
        const double t = turn({l[i], l[i + 1]}, {l[i + 1], l[i + 2]});
        d.half_turn |= std::fabs(std::fabs(t) - 180) < 1e-6;
        d.dir += t;
        d.abs_dir += std::fabs(t);
        d.has_dir = true;
    }
}

static Data data(const Lines &ls) {
    Data d;
    const auto s = segs(ls);
    d.has_length = not s.empty();
    for (auto &x : s) { d.length += len(x); }
    const Pts *first = nullptr, *last = nullptr;
    for (auto &l : ls) {
        if (l.empty()) { continue; }
        if (not first) { first = &l; }
        last = &l;
    }
    if (first and not (first->front() == last->back())) {
        d.has_azimuth = true;
        d.azimuth = azi(first->front(), last->back());
    }
    for (std::size_t i = 0; i < ls.size(); ++i) {
        line_turns(ls[i], d);
        if (i + 1 < ls.size() and not ls[i].empty() and not ls[i + 1].empty()) {
            const Pts &a = ls[i], &b = ls[i + 1];
            if (not (a.back() == b.front())) { d.connected = false; continue; }
            if (a.size() >= 2 and b.size() >= 2 and not (a[a.size() - 2] == a.back()) and not (b[0] == b[1])) {
                const double t = turn({a[a.size() - 2], a.back()}, {b[0], b[1]});
                d.half_turn |= std::fabs(std::fabs(t) - 180) < 1e-6;
                d.dir += t;
                d.abs_dir += std::fabs(t);
                d.has_dir = true;
            }
        }
    }
    return d;
}

// ---------------------------------------------------------------- real objects
template<typename L>
static L make(const Pts &p) {
    typename L::line_type l;
    for (auto &x : p) { l.emplace_back(Point{(double) x.x, (double) x.y}); }
    return L{std::move(l)};
}

// lines that are referred to; they outlive the routes
struct Pool {
    std::list<Eager> lines;
    const Eager &add(const Pts &p) { return lines.emplace_back(make<Eager>(p)); }
};

// own: bit i set if line i belongs to the route
template<typename R>
static R build(const Lines &ls, unsigned own, Pool &pool) {
    std::list<Variant> o;
    std::vector<typename R::rich_line_reference_variant_type> refs;
    for (std::size_t i = 0; i < ls.size(); ++i) {
        if (own >> i & 1) {
            const auto &v = o.emplace_back(make<Lazy>(ls[i]));
            refs.emplace_back(std::cref(std::get<Lazy>(v)));
        } else {
            refs.emplace_back(std::cref(pool.add(ls[i])));
        }
    }
    return R{std::move(o), std::move(refs)};
}

static Pt pt(const Point &p) { return {(int) std::lround(boost::geometry::get<0>(p)), (int) std::lround(boost::geometry::get<1>(p))}; }

template<typename R>
static Lines lines_of(const R &r) {
    Lines out;
    for (const auto &ref : r.rich_lines()) {
        std::visit([&](auto &&l) {
            Pts p;
            for (const auto &x : l.get().line()) { p.push_back(pt(x)); }
            out.push_back(p);
        }, ref);
    }
    return out;
}

static void same_segs(const Segs &got, const Segs &want, const char *what) {
    mc::require(got == want, what, ": got ", mc::show(got), ", expected ", mc::show(want));
}

template<typename R>
static void check_data(const R &r, const Lines &ls, const char *what, bool full = true) {
    const Data d = data(ls);
    mc::require_eq(r.empty(), ls.empty(), what, " empty");
    mc::require_eq(r.size(), ls.size(), what, " size");
    mc::require_eq(r.is_connected(), d.connected, what, " connected");
    mc::require_eq(r.has_length(), d.has_length, what, " has length");
    if (d.has_length) { mc::require_close(r.length(), d.length, what, " length"); }
    mc::require_eq(r.has_azimuth(), d.has_azimuth, what, " has azimuth");
    if (d.has_azimuth) { mc::require_close(r.azimuth(), d.azimuth, what, " azimuth"); }
    mc::require_eq(r.has_directions(), d.has_dir, what, " has directions");
    if (d.has_dir) {
        if (not d.half_turn) { mc::require_close(r.directions(), d.dir, what, " directions"); }
        mc::require_close(r.absolute_directions(), d.abs_dir, what, " absolute directions");
    }
    mc::require(lines_of(r) == ls, what, " lines: got ", str(lines_of(r)));
}

// a single line through all points, gaps bridged; several lines split at gaps
static void check_export(const auto &r, const Lines &ls) {
    Segs one;
    Lines parts;
    for (auto &l : ls) {
        if (l.empty()) { continue; }
        if (not parts.empty() and parts.back().back() == l.front()) {
            parts.back().insert(parts.back().end(), l.begin() + 1, l.end());
        } else {
            parts.push_back(l);
        }
    }
    Pts all;
    for (auto &p : parts) { all.insert(all.end(), p.begin(), p.end()); }
    const auto rl = r.template get_rich_line<Lazy>();
    Pts got;
    for (const auto &x : rl.line()) { got.push_back(pt(x)); }
    same_segs(segs(got), segs(all), "as one line");
    if (not all.empty()) {
        mc::require(not got.empty() and got.front() == all.front() and got.back() == all.back(), "as one line: ends");
    }
    const auto m = r.template get_multi_rich_line<Multi>();
    Lines gm;
    for (const auto &l : m.rich_lines()) {
        Pts p;
        for (const auto &x : l.line()) { p.push_back(pt(x)); }
        if (not p.empty()) { gm.push_back(p); }
    }
    mc::require(gm == parts, "as several lines: got ", str(gm), ", expected ", str(parts));
}

static bool extent(const Lines &ls) { return not segs(ls).empty(); }

template<typename R>
static void derived_case(const Lines &ls, unsigned own, const Lines &other) {
    Pool pool;
    auto r = std::make_unique<R>(build<R>(ls, own, pool));
    mc::require(not r->is_invalid(), "valid route is invalid");
    auto early = std::make_unique<R>(*r);            // copied before anything was asked
    check_data(*r, ls, "new");
    mc::require_eq(r->mergeable(), extent(ls), "mergeable");
    if (not ls.empty()) { check_export(*r, ls); }
    auto copy = std::make_unique<R>(*r);
    R assigned = build<R>(other, 1, pool);
    (void) assigned.has_length();
    (void) assigned.has_directions();
    assigned = *r;
    r.reset();
    check_data(*early, ls, "copied early");
    check_data(*copy, ls, "copy");
    check_data(assigned, ls, "assigned");
    R moved{std::move(*copy)};
    copy.reset();
    check_data(moved, ls, "moved");
    R target = build<R>(other, 0, pool);
    (void) target.has_azimuth();
    (void) target.is_connected();
    target = std::move(moved);
    check_data(target, ls, "move-assigned");
    R over = build<R>(other, 1, pool);
    over = R{true};
    mc::require(over.is_invalid() and over.empty() and not over.has_length() and not over.has_azimuth() and
            not over.has_directions() and over.is_connected(), "invalid route after assignment");
    R stay{false};
    mc::require(not stay.is_invalid() and stay.empty() and not stay.has_length() and stay.is_connected(), "empty route");
    mc::require(not assigned.attaches(over) and not over.attaches(assigned), "attaches an invalid route");
    R o2 = build<R>(other, 1, pool);
    const bool a = ls.empty() or other.empty() or ls.back().empty() or other.front().empty() or ls.back().back() == other.front().front();
    mc::require_eq(assigned.attaches(o2), a, "attaches");
}

template<typename R, typename F>
static bool throws(const F &f) {
    try { f(); } catch (const std::out_of_range &) { return true; }
    return false;
}

template<typename R>
static void sub_case(const Lines &ls, unsigned own) {
    const std::size_t n = ls.size();
    for (std::size_t from = 0; from <= n + 1; ++from) {
        for (std::size_t to = 0; to <= n + 1; ++to) {
            Pool pool;
            auto r = std::make_unique<R>(build<R>(ls, own, pool));
            mc::transition();
            if (not (from <= to and from < n and to <= n)) {
                mc::require(throws<R>([&] { (void) r->sub_route(from, to); }), "part ", from, " to ", to, " not refused");
                continue;
            }
            R s = r->sub_route(from, to);
            check_data(*r, ls, "after taking a part");
            r.reset();
            mc::require(not s.is_invalid(), "part is invalid");
            check_data(s, Lines(ls.begin() + from, ls.begin() + to), "part");
        }
    }
}

template<typename R>
static void sub_pos_case(const Lines &ls, unsigned own) {
    const std::size_t n = ls.size();
    for (std::size_t from = 0; from < n; ++from) {
        for (std::size_t to = from + 1; to <= n; ++to) {
            if (ls[from].empty() or ls[to - 1].empty()) { continue; }
            for (std::size_t fp = 0; fp <= ls[from].size(); ++fp) {
                for (std::size_t tp = 0; tp <= ls[to - 1].size() + 1; ++tp) {
                    if (from + 1 == to and fp >= tp and fp < ls[from].size() and tp <= ls[from].size()) { continue; }
                    Pool pool;
                    auto r = std::make_unique<R>(build<R>(ls, own, pool));
                    mc::transition();
                    if (fp >= ls[from].size() or tp > ls[to - 1].size()) {
                        mc::require(throws<R>([&] { (void) r->template sub_route<Lazy>(from, fp, to, tp); }), "part ", from, "/", fp, " to ", to, "/", tp, " not refused");
                        continue;
                    }
                    Lines want;
                    for (std::size_t i = from; i < to; ++i) {
                        want.emplace_back(ls[i].begin() + (i == from ? fp : 0), i + 1 == to ? ls[i].begin() + tp : ls[i].end());
                    }
                    R s{true};
                    try {
                        s = r->template sub_route<Lazy>(from, fp, to, tp);
                    } catch (const std::out_of_range &e) {
                        mc::fail("part ", from, "/", fp, " to ", to, "/", tp, " refused: ", e.what());
                    }
                    r.reset();
                    const Lines got = lines_of(s);
                    mc::require(segs(got) == segs(want), "part ", from, "/", fp, " to ", to, "/", tp, ": got ", str(got), ", expected ", str(want));
                    check_data(s, got, "part");
                }
            }
        }
    }
}

// ---------------------------------------------------------------- merging
template<typename R>
static void merge_case(const std::vector<Lines> &rs, unsigned own, unsigned invalid, bool connect, bool except) {
    Pool pool;
    auto v = std::make_unique<std::vector<R>>();
    Segs want;
    bool gap = false, prev_known = false, all_invalid = true, defined = true;
    Pt prev{};
    for (std::size_t i = 0; i < rs.size(); ++i) {
        if (invalid >> i & 1) {
            v->emplace_back(R{true});
            continue;
        }
        all_invalid = false;
        v->emplace_back(build<R>(rs[i], own, pool));
        (void) v->back().has_length();
        if (not extent(rs[i])) { continue; }
        if (prev_known) {
            // an empty line at the end where two routes meet is outside the contract
            if (rs[i].front().empty()) { defined = false; }
            else if (not (prev == rs[i].front().front())) {
                gap = true;
                if (connect) { want.push_back({prev, rs[i].front().front()}); }
            }
        }
        for (auto &s : segs(rs[i])) { want.push_back(s); }
        if (rs[i].back().empty()) { defined = defined and i + 1 == rs.size(); }
        else { prev = rs[i].back().back(); }
        prev_known = true;
    }
    if (not defined) { return; }
    mc::nontrivial();
    bool refused = false;
    R m{true};
    try {
        m = R::template merge<Lazy>(std::move(*v), connect, except);
    } catch (const geometry::network::route_merge_exception &) {
        refused = true;
    }
    v.reset();
    mc::require_eq(refused, gap and not connect and except, "refused");
    if (refused) { mc::outcome(1); return; }
    mc::require_eq(m.is_invalid(), all_invalid, "invalid");
    const Lines got = lines_of(m);
    same_segs(segs(got), want, "merged");
    check_data(m, got, "merged");
    mc::outcome(mc::hstr(str(got)));
    if (connect and not want.empty()) {
        const Data d = data(got);
        bool inner = true;
        for (auto &r : rs) { inner = inner and data(r).connected; }
        if (inner) { mc::require(d.connected, "merged with connections is not connected"); }
    }
}

static Pts without_repeats(const Lines &ls) {
    Pts r;
    for (auto &l : ls) { for (auto &p : l) { if (r.empty() or not (r.back() == p)) { r.push_back(p); } } }
    return r;
}

// number of points of the longest way back at the junction of a and b, repeats not counted
static std::size_t way_back(const Lines &a, const Lines &b) {
    const Pts x = without_repeats(a), y = without_repeats(b);
    std::size_t k = 0;
    while (k < x.size() and k < y.size() and x[x.size() - 1 - k] == y[k]) { ++k; }
    return k;
}

// no gaps, empty lines aside
static bool strictly_connected(const Lines &ls) {
    Lines x = ls;
    std::erase_if(x, [](const Pts &l) { return l.empty(); });
    return ::data(x).connected;
}

static bool reversal(const Seg &s, const Seg &t) { return std::fabs(turn(s, t)) > 0.99 * 180; }

template<typename R>
static void trim_case(const Lines &a, const Lines &b, unsigned own) {
    Pool pool;
    auto ra = std::make_unique<R>(build<R>(a, own, pool)), rb = std::make_unique<R>(build<R>(b, own, pool));
    (void) ra->has_length();
    (void) rb->has_directions();
    const bool empty_a = without_repeats(a).empty(), empty_b = without_repeats(b).empty();
    auto f = ra->find_return_line(*rb);
    R m = ra->template trim_merge<Lazy>(*rb);
    const auto back_self = ra->template extract_return_line<Lazy>(*rb, true);
    const auto back_other = ra->template extract_return_line<Lazy>(*rb, false);
    check_data(*ra, a, "first route afterwards");
    check_data(*rb, b, "second route afterwards");
    ra.reset();
    rb.reset();
    const std::size_t k = empty_a or empty_b ? 0 : way_back(a, b);
    // the lines at the junction must not be empty (checked by the caller)
    const bool found = not (f == geometry::network::route_return_line_parts{});
    mc::require_eq(found, k > 0, "way back found");
    mc::require_eq(m.is_invalid(), k == 0, "invalid");
    if (k == 0) { mc::outcome(0); return; }
    mc::nontrivial();
    const Pts x = without_repeats(a), y = without_repeats(b);
    Segs back;
    for (std::size_t i = x.size() - k; i + 1 < x.size(); ++i) { back.push_back({x[i], x[i + 1]}); }
    auto pts = [](const Lazy &l) { Pts p; for (const auto &q : l.line()) { p.push_back(pt(q)); } return p; };
    same_segs(segs(pts(back_self)), back, "way out");
    Segs rev;
    for (std::size_t i = 0; i + 1 < k; ++i) { rev.push_back({y[i], y[i + 1]}); }
    same_segs(segs(pts(back_other)), rev, "way back");
    Segs wa = segs(Pts(x.begin(), x.end() - (k - 1))), wb = segs(Pts(y.begin() + (k - 1), y.end()));
    if (not wa.empty() and not wb.empty() and reversal(wa.back(), wb.front())) {
        // the part that only partially goes back is cut off
        wa.back().second = wb.front().second;
        if (wa.back().first == wa.back().second) { wa.pop_back(); }
        wb.erase(wb.begin());
    }
    wa.insert(wa.end(), wb.begin(), wb.end());
    const Lines got = lines_of(m);
    same_segs(segs(got), wa, "merged");
    check_data(m, got, "merged");
    mc::outcome(mc::hstr(str(got)));
}

template<typename R>
static void join_case(const Lines &a, const Lines &b, unsigned own, bool retain) {
    Pool pool;
    R ra = build<R>(a, own, pool), rb = build<R>(b, own, pool);
    (void) ra.has_length();
    (void) ra.has_directions();
    (void) rb.has_azimuth();
    (void) rb.has_length();
    const Pts &l = a.back(), &f = b.front();
    const bool does = l.size() >= 2 and f.size() >= 2 and l.back() == f.front() and
            not (retain and not (l[l.size() - 2] == l.back()) and not (f[0] == f[1]) and
                 reversal({l[l.size() - 2], l.back()}, {f[0], f[1]}));
    Lines wa = a, wb = b;
    if (does) {
        wa.back().back() = f[1];
        wb.front().erase(wb.front().begin());
        if (wb.front().size() < 2) { wb.erase(wb.begin()); }
        mc::nontrivial();
    }
    R::template join<Lazy>(ra, rb, retain);
    mc::outcome(mc::hstr(str(wa) + str(wb)));
    check_data(ra, wa, "first");
    check_data(rb, wb, "second");
    R ca = ra;
    check_data(ca, wa, "copy of the first");
}

using Plain_R = MM2_ROUTE(MM2_CARTESIAN);
using Lazy_R = MM2_LAZY_ROUTE(MM2_CARTESIAN);
using Eager_R = MM2_EAGER_ROUTE(MM2_CARTESIAN);

template<typename F>
static void tuples(const Lines &pool, int n, const F &f) {
    mc::product(std::vector<int>(n, (int) pool.size()), [&](const std::vector<int> &v) {
        Lines ls;
        for (int x : v) { ls.push_back(pool[x]); }
        f(ls);
    });
}

template<typename R>
static void part_suites(const std::string &k) {
    const bool th = mc::g.thorough;
    auto derived = [&](const std::string &n, const Lines &pool, int cnt) {
        mc::suite(n + "-" + k);
        tuples(pool, cnt, [&](const Lines &ls) {
            if (not mc::mine()) { return; }
            mc::exec([&] { return str(ls); }, [&] {
                mc::state(mc::hstr(str(ls)));
                if (ls.size() > 1) { mc::nontrivial(); }
                const Lines other{{{2, 0}, {2, 3}, {0, 0}}};
                for (unsigned own = 0; own < 1u << cnt; ++own) { derived_case<R>(ls, own, other); mc::transition(6); }
                const Data d = data(ls);
                mc::outcome(mc::hcat(mc::hcat(d.has_length + 2 * d.has_azimuth + 4 * d.has_dir + 8 * d.connected, std::lround(d.length * 1000)), std::lround(d.abs_dir)));
            });
        });
    };
    auto parts = [&](const std::string &n, const Lines &pool, int cnt, bool pos) {
        mc::suite(n + "-" + k);
        tuples(pool, cnt, [&](const Lines &ls) {
            if (not mc::mine()) { return; }
            mc::exec([&] { return str(ls); }, [&] {
                mc::state(mc::hstr(str(ls)));
                mc::outcome(mc::hstr(str(ls)));
                mc::nontrivial();
                for (unsigned own = 0; own < 1u << cnt; ++own) { pos ? sub_pos_case<R>(ls, own) : sub_case<R>(ls, own); }
            });
        });
    };
    derived("lines-0", {}, 0);
    derived("lines-1", lines_up_to(4, 4), 1);
    derived("lines-2", lines_up_to(2, 4), 2);
    derived("lines-2-of-3", th ? lines_up_to(3, 4) : lines_up_to(3, 3), 2);
    derived("lines-3", lines_up_to(2, th ? 4 : 2), 3);
    parts("parts-1", lines_up_to(2, 2), 1, false);
    parts("parts-3", lines_up_to(1, 2), 3, false);
    parts("parts-4", {{{0, 0}}, {{2, 0}, {4, 0}}}, th ? 5 : 4, false);
    parts("cut-1", lines_up_to(4, 3), 1, true);
    parts("cut-2", lines_up_to(3, 2), 2, true);
    parts("cut-3", th ? lines_up_to(2, 3) : lines_up_to(2, 2), 3, true);
    parts("cut-4", {{{0, 0}, {2, 0}}, {{2, 0}, {0, 0}, {2, 0}}}, 4, true);
}

template<typename R>
static void merge_suites(const std::string &k) {
    const bool th = mc::g.thorough;
    auto merges = [&](const std::string &n, const std::vector<Lines> &routes, int cnt) {
        mc::suite(n + "-" + k);
        mc::product(std::vector<int>(cnt, (int) routes.size()), [&](const std::vector<int> &v) {
            if (not mc::mine()) { return; }
            std::vector<Lines> rs;
            for (int x : v) { rs.push_back(routes[x]); }
            mc::exec([&] { std::string s; for (auto &r : rs) { s += str(r); } return s; }, [&] {
                for (auto &r : rs) { mc::state(mc::hstr(str(r))); }
                for (unsigned own = 0; own < 4; ++own) {
                    for (unsigned inv = 0; inv < 1u << cnt; ++inv) {
                        for (int m = 0; m < 4; ++m) { merge_case<R>(rs, own, inv, m & 1, m & 2); mc::transition(); }
                    }
                }
            });
        });
    };
    auto pairs = [&](const std::string &n, const std::vector<Lines> &as, const std::vector<Lines> &bs, bool trim) {
        mc::suite(n + "-" + k);
        mc::product({(int) as.size(), (int) bs.size()}, [&](const std::vector<int> &v) {
            if (not mc::mine()) { return; }
            const Lines &a = as[v[0]], &b = bs[v[1]];
            mc::exec([&] { return str(a) + " and " + str(b); }, [&] {
                mc::state(mc::hstr(str(a) + str(b)));
                for (unsigned own = 0; own < 4; ++own) {
                    if (trim) { trim_case<R>(a, b, own); mc::transition(); }
                    else { for (int r = 0; r < 2; ++r) { join_case<R>(a, b, own, r); mc::transition(); } }
                }
            });
        });
    };
    auto routes_of = [&](const Lines &pool, int cnt) {
        std::vector<Lines> r;
        tuples(pool, cnt, [&](const Lines &ls) { r.push_back(ls); });
        return r;
    };
    std::vector<Lines> small;
    small.push_back({});
    for (auto &l : lines_up_to(2, 3)) { small.push_back({l}); }
    for (auto &l : routes_of(lines_up_to(2, 2), 2)) { small.push_back(l); }
    merges("merge-0", small, 0);
    merges("merge-1", small, 1);
    merges("merge-2", small, 2);
    std::vector<Lines> few{{}, {{{0, 0}}}, {{{0, 0}, {2, 0}}}, {{{2, 0}, {4, 0}}}, {{{2, 0}}, {{2, 0}, {2, 3}}}, {{{2, 0}, {2, 3}}, {{2, 3}, {0, 0}}}};
    merges("merge-3", few, 3);
    if (th) { merges("merge-4", few, 4); }
    // no empty lines where routes meet; a line without points between others is allowed
    auto no_empty_ends = [](std::vector<Lines> v) {
        std::erase_if(v, [](const Lines &l) { return l.empty() or l.front().empty() or l.back().empty(); });
        return v;
    };
    auto connected = [](std::vector<Lines> v) {
        std::erase_if(v, [](const Lines &l) { return not strictly_connected(l); });
        return v;
    };
    std::vector<Lines> one;
    for (auto &l : lines_up_to(th ? 4 : 3, 4)) { one.push_back({l}); }
    one = no_empty_ends(one);
    std::vector<Lines> two = connected(no_empty_ends(routes_of(lines_up_to(2, 4), 2)));
    std::vector<Lines> three = connected(no_empty_ends(routes_of(th ? lines_up_to(2, 3) : lines_up_to(2, 2), 3)));
    pairs("trim-1-1", one, one, true);
    pairs("trim-2-1", two, one, true);
    pairs("trim-1-2", one, two, true);
    pairs("trim-3-3", three, three, true);
    pairs("join-1-1", one, one, false);
    pairs("join-2-2", no_empty_ends(routes_of(lines_up_to(2, 3), 2)), no_empty_ends(routes_of(lines_up_to(2, 3), 2)), false);
}

int main(int argc, char **argv) {
    bool merge = false;
    for (int i = 1; i < argc; ++i) { merge |= std::string{argv[i]} == "--merge"; }
    return mc::main_(argc, argv, [&] {
        if (merge) {
            merge_suites<Lazy_R>("lazy");
            merge_suites<Plain_R>("plain");
            merge_suites<Eager_R>("eager");
        } else {
            part_suites<Lazy_R>("lazy");
            part_suites<Plain_R>("plain");
            part_suites<Eager_R>("eager");
        }
    });
}
