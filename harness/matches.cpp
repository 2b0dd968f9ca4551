// E01/M06: whole matchings, from tracks to the written files, through the real matcher on small real networks.
// Default: every track, network and setting. --stop: every moment at which the time for a track can be over.
#include "matching_common.hpp"
#include "matching/matcher.hpp"

#include <fstream>
#include <unistd.h>

// ---------------------------------------------------------------- clock
// The steady clock is replaced: from the given call on, time has moved by two hours.
static std::atomic<long> clock_calls{0}, clock_jump{-1};

std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept {
    timespec ts{};
    clock_gettime(CLOCK_MONOTONIC, &ts);
    long long ns = ts.tv_sec * 1000000000LL + ts.tv_nsec;
    const long n = clock_calls++;
    if (clock_jump >= 0 and n >= clock_jump) { ns += 7200LL * 1000000000LL; }
    return time_point{duration{ns}};
}

// ---------------------------------------------------------------- running the matcher
using Matcher = matching::matcher<Net>;
using MultiTrack = NT::multi_track_type;
using Row = std::map<std::string, std::string>;

static std::vector<std::vector<std::string>> read_csv(const std::string &path) {
    std::ifstream in{path};
    std::stringstream ss;
    ss << in.rdbuf();
    const std::string s = ss.str();
    std::vector<std::vector<std::string>> rows;
    std::vector<std::string> row;
    std::string f;
    bool quoted = false;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (quoted) {
            if (s[i] == '"' and i + 1 < s.size() and s[i + 1] == '"') { f += '"'; ++i; }
            else if (s[i] == '"') { quoted = false; }
            else { f += s[i]; }
        } else if (s[i] == '"') { quoted = true; }
        else if (s[i] == ',') { row.push_back(f); f.clear(); }
        else if (s[i] == '\n') { row.push_back(f); f.clear(); rows.push_back(row); row.clear(); }
        else { f += s[i]; }
    }
    mc::require(f.empty() and row.empty() and not quoted, "the file ends in the middle of a row");
    return rows;
}

static std::vector<Row> named(const std::vector<std::vector<std::string>> &rows, const std::string &columns) {
    std::vector<Row> r;
    if (rows.empty()) { return r; }
    std::vector<std::string> names;
    std::stringstream ss{columns};
    for (std::string c; std::getline(ss, c, ',');) { names.push_back(c); }
    mc::require(rows[0] == names, "header of the file");
    for (std::size_t i = 1; i < rows.size(); ++i) {
        mc::require_eq(rows[i].size(), names.size(), "number of fields of a row");
        Row x;
        for (std::size_t k = 0; k < names.size(); ++k) { x[names[k]] = rows[i][k]; }
        r.push_back(std::move(x));
    }
    return r;
}

// lines of a written (multi) line
static std::vector<Pts> lines_of_wkt(const std::string &s) {
    std::vector<Pts> r;
    if (s.empty()) { return r; }
    std::size_t i = s.find('(');
    const std::string kind = s.substr(0, i);
    mc::require(kind == "MULTILINESTRING" or kind == "LINESTRING", "kind of geometry: ", s.substr(0, 40));
    if (s.find("EMPTY") != std::string::npos) { return r; }
    const bool multi = kind == "MULTILINESTRING";
    std::string body = s.substr(i + 1, s.rfind(')') - i - 1);
    if (not multi) { body = "(" + body + ")"; }
    std::size_t at = 0;
    while (at < body.size()) {
        const auto lo = body.find('(', at);
        if (lo == std::string::npos) { break; }
        const auto hi = body.find(')', lo);
        mc::require(hi != std::string::npos, "brackets of ", s);
        Pts l;
        const char *c = body.c_str() + lo + 1;
        while (c < body.c_str() + hi) {
            char *e;
            const double x = std::strtod(c, &e), y = std::strtod(e, &e);
            if (e > c) { l.push_back({x, y}); }
            c = e;
            while (c < body.c_str() + hi and (*c == ',' or *c == ' ')) { ++c; }
            if (e == c and *c != ')') { break; }
        }
        r.push_back(std::move(l));
        at = hi + 1;
    }
    return r;
}

struct Job { std::string id; std::vector<Pts> lines; };
struct Out { std::vector<Row> matches, candidates; };

static const std::string COLUMNS = matching::DEFAULT_COLUMNS + ",edge_ids";
static const std::string CANDIDATES = matching::DEFAULT_CANDIDATE_COLUMNS;

static MultiTrack multi_of(const Job &j) {
    typename MultiTrack::multi_line_type ml;
    for (auto &l : j.lines) {
        typename MultiTrack::line_type line;
        for (auto &p : l) { line.emplace_back(Point{p.x, p.y}); }
        ml.emplace_back(std::move(line));
    }
    return MultiTrack{j.id, std::move(ml)};
}

static std::string scratch(const char *what) { return "/dev/shm/vp_matches_" + std::to_string(getpid()) + "_" + what + ".csv"; }

using Rows = std::vector<std::vector<std::string>>;

// the written files as they are
static std::pair<Rows, Rows> match_raw(const Net &net, const std::vector<Job> &jobs, const Settings &s, unsigned threads, const std::string &columns, const std::string &candidates) {
    const std::string f = scratch("m"), c = scratch("c");
    {
        Matcher m{net, matching::matcher_output_settings{f, columns, c, candidates, false, false}, threads};
        m.start();
        for (auto &j : jobs) { m.match(multi_of(j), s); }
        m.stop();
        m.join();
    }
    auto r = std::pair{read_csv(f), read_csv(c)};
    unlink(f.c_str());
    unlink(c.c_str());
    return r;
}

static Out match_all(const Net &net, const std::vector<Job> &jobs, const Settings &s, unsigned threads, long jump = -1, long *calls = nullptr) {
    const std::string f = scratch("m"), c = scratch("c");
    clock_jump = jump;
    clock_calls = 0;
    {
        Matcher m{net, matching::matcher_output_settings{f, COLUMNS, c, CANDIDATES, false, false}, threads};
        m.start();
        for (auto &j : jobs) { m.match(multi_of(j), s); }
        m.stop();
        m.join();
    }
    clock_jump = -1;
    if (calls) { *calls = clock_calls; }
    Out o{named(read_csv(f), COLUMNS), named(read_csv(c), CANDIDATES)};
    unlink(f.c_str());
    unlink(c.c_str());
    return o;
}

// ---------------------------------------------------------------- driving on the plain network
using Dist = std::map<std::pair<unsigned long, unsigned long>, double>;
struct At { int edge; double pos; };

// places of the network on the segment, so that each piece lies on one road
static Pts with_nodes(const RNet &n, const Pts &l) {
    Pts r;
    for (std::size_t i = 0; i < l.size(); ++i) {
        r.push_back(l[i]);
        if (i + 1 == l.size()) { break; }
        std::vector<std::pair<double, Pt>> mid;
        for (auto &v : n.nodes) {
            if (seg_dist(v.second, l[i], l[i + 1]) < 1e-6 and not close(v.second, l[i], 1e-5) and not close(v.second, l[i + 1], 1e-5)) {
                mid.push_back({seg_len(l[i], v.second), v.second});
            }
        }
        std::sort(mid.begin(), mid.end(), [](auto &a, auto &b) { return a.first < b.first; });
        for (auto &m : mid) { r.push_back(m.second); }
    }
    return r;
}

// whether the line can be driven: along roads in their direction, changing at nodes, turning within a two-way road if allowed
static bool drivable(const RNet &n, const Pts &chunk, bool turns) {
    const Pts l = with_nodes(n, chunk);
    std::vector<At> now;
    for (std::size_t e = 0; e < n.edges.size(); ++e) {
        const double p = pos_on(l[0], n.edges[e].line);
        if (p >= 0) { now.push_back({static_cast<int>(e), p}); }
    }
    for (std::size_t i = 1; i < l.size(); ++i) {
        std::vector<At> all = now, next;
        for (auto &a : now) {
            const REdge &e = n.edges[a.edge];
            const double len = line_len(e.line);
            for (std::size_t f = 0; f < n.edges.size(); ++f) {
                if (std::fabs(a.pos - len) < 1e-5 and n.edges[f].s == e.t) { all.push_back({static_cast<int>(f), 0}); }
                if (turns and std::equal(e.line.begin(), e.line.end(), n.edges[f].line.rbegin(), n.edges[f].line.rend())) { all.push_back({static_cast<int>(f), len - a.pos}); }
            }
        }
        const double d = seg_len(l[i - 1], l[i]);
        for (auto &a : all) {
            const double p = pos_on(l[i], n.edges[a.edge].line);
            if (p >= 0 and p >= a.pos - 1e-5 and std::fabs(p - a.pos - d) < 1e-5) { next.push_back({a.edge, p}); }
        }
        now = std::move(next);
        if (now.empty()) { return false; }
    }
    return not now.empty();
}

static Pt at_distance(const Pts &l, double s) {
    for (std::size_t i = 1; i < l.size(); ++i) {
        const double d = seg_len(l[i - 1], l[i]);
        if (s <= d + 1e-9) { const double t = d > 0 ? s / d : 0; return {l[i - 1].x + t * (l[i].x - l[i - 1].x), l[i - 1].y + t * (l[i].y - l[i - 1].y)}; }
        s -= d;
    }
    return l.back();
}

using Chunks = std::vector<Pts>;

static void attach(Chunks &c, const Pts &l) {
    if (l.size() < 2) { return; }
    if (not c.empty() and close(c.back().back(), l.front())) { c.back().insert(c.back().end(), l.begin() + 1, l.end()); }
    else { c.push_back(l); }
}

static std::string show(const Chunks &c) {
    std::string s;
    for (auto &l : c) { s += "[" + ::show(l) + "]"; }
    return s;
}

static bool same_chunks(const Chunks &a, const Chunks &b) {
    if (a.size() != b.size()) { return false; }
    for (std::size_t i = 0; i < a.size(); ++i) { if (not same_shape(a[i], b[i])) { return false; } }
    return true;
}

// ---------------------------------------------------------------- judging the rows of one track
struct Mark { std::size_t set; int edge; double pos; Pt at; };

struct Config {
    const char *name;
    Settings s;
    bool mdp, exact;                                      // exact: no bound of the search, no turns within roads
};

static std::string show(const std::vector<Mark> &m) {
    std::ostringstream os;
    for (auto &x : m) { os << x.set << ": edge " << x.edge << " at " << x.pos << " (" << x.at.x << "," << x.at.y << "); "; }
    return os.str();
}

// the chosen candidates, and all of them
static std::vector<Mark> marks_of(const RNet &n, const std::vector<Row> &rows, std::size_t part, const Pts &prepared, std::vector<Mark> &every) {
    std::vector<Mark> marks;
    std::set<std::pair<std::size_t, std::size_t>> seen;
    std::size_t last_set = 0, last_cand = 0;
    bool first = true;
    for (auto &r : rows) {
        if (std::stoul(r.at("part_index")) != part) { continue; }
        const std::size_t set = std::stoul(r.at("set_index")), k = std::stoul(r.at("candidate_index"));
        mc::require(set < prepared.size(), "a candidate belongs to a point of the track");
        if (first or set != last_set) { mc::require(first or set > last_set, "sets in order"); mc::require_eq(k, std::size_t{0}, "first candidate of a set"); }
        else { mc::require_eq(k, last_cand + 1, "candidates of a set in order"); }
        first = false;
        last_set = set;
        last_cand = k;
        const auto proj = lines_of_wkt(r.at("projection")), from = lines_of_wkt(r.at("from")), to = lines_of_wkt(r.at("to"));
        mc::require(proj.size() == 1 and proj[0].size() == 2, "projection is a segment");
        mc::require(close(proj[0][0], prepared[set], 1e-6), "projection starts at the point");
        const Pt at = proj[0][1];
        mc::require(std::fabs(std::stod(r.at("distance")) - seg_len(proj[0][0], at)) < 1e-5, "distance of the candidate");
        // the road: number and both parts
        Pts whole;
        double pos = 0;
        if (not from.empty() and from[0].size() >= 2) { whole = from[0]; mc::require(close(whole.back(), at, 1e-6), "the first part ends at the candidate"); pos = line_len(whole); }
        if (not to.empty() and to[0].size() >= 2) {
            mc::require(close(to[0].front(), at, 1e-6), "the second part starts at the candidate");
            if (whole.empty()) { whole = to[0]; } else { whole.insert(whole.end(), to[0].begin() + 1, to[0].end()); }
        }
        int hit = -1;
        for (std::size_t i = 0; i < n.edges.size(); ++i) {
            if (std::to_string(n.edges[i].id) == r.at("edge_id") and same_shape(whole, n.edges[i].line)) { hit = static_cast<int>(i); }
        }
        mc::require(hit >= 0, "the parts of a candidate make up its road: ", r.at("edge_id"), " ", ::show(whole));
        every.push_back({set, hit, pos, at});
        const std::string &is = r.at("is_result");
        mc::require(is == "0" or is == "1", "mark of the result");
        if (is == "1") {
            mc::require(marks.empty() or marks.back().set < set, "one result per point");
            marks.push_back({set, hit, pos, at});
        }
    }
    return marks;
}

static double way_between(const RNet &n, const Dist &d, const Mark &a, const Mark &b) {
    if (a.edge == b.edge and a.pos <= b.pos + 1e-7) { return std::max(0.0, b.pos - a.pos); }
    const double path = d.at({n.nodes[n.edges[a.edge].t].first, n.nodes[n.edges[b.edge].s].first});
    if (path > 1e17) { return path; }
    return line_len(n.edges[a.edge].line) - a.pos + path + b.pos;
}

// whether the lines from number c on are ways through the marks from number m on
static bool covers(const RNet &n, const Dist &d, const Config &cfg, const std::vector<Mark> &marks, const std::vector<Mark> &every, const Pts &track, std::size_t m, double inside, const Chunks &c, std::size_t k) {
    // inside < 0: no line has begun at mark m; else: line k has been driven up to mark m
    const bool open = inside >= 0;
    if (open and not close(at_distance(c[k], inside), marks[m].at, 1e-4)) { return false; }
    const bool end = open and inside > line_len(c[k]) - 1e-4;
    if (m + 1 == marks.size()) { return open ? end and k + 1 == c.size() : k == c.size(); }
    const Mark &a = marks[m], &b = marks[m + 1];
    const double way = way_between(n, d, a, b);
    bool may_gap = way > 1e17, may_go = way <= 1e17;
    if (cfg.mdp) {
        if (b.set != a.set + 1) { may_go = false; may_gap = true; }
        else {
            // with a candidate that cannot be reached, there is a way to give up here
            const double dist = seg_len(track[a.set], track[b.set]);
            const auto too_far = [&](double x) { return x > 1e17 or (dist > 0 and x / dist > 10 - 1e-6); };
            if (cfg.s.skip_errors) {
                for (auto &c2 : every) { if (c2.set == b.set and too_far(way_between(n, d, a, c2))) { may_gap = true; } }
                if (dist > 0 and way / dist > 10 + 1e-6) { may_go = false; }
            }
        }
    }
    // the same place up to rounding: nothing to drive, or the way around
    if (close(a.at, b.at, 1e-6) and covers(n, d, cfg, marks, every, track, m + 1, inside, c, k)) { return true; }
    if (may_go) {
        if (way < 1e-9) { if (covers(n, d, cfg, marks, every, track, m + 1, inside, c, k)) { return true; } }
        else if (open) { if (covers(n, d, cfg, marks, every, track, m + 1, inside + way, c, k)) { return true; } }
        else if (k < c.size() and close(c[k].front(), a.at, 1e-4) and covers(n, d, cfg, marks, every, track, m + 1, way, c, k)) { return true; }
        // lines that meet although a gap was between them have been attached
    }
    if (may_gap) {
        if (open and end and covers(n, d, cfg, marks, every, track, m + 1, -1, c, k + 1)) { return true; }
        if (open and close(b.at, a.at, 1e-4) and covers(n, d, cfg, marks, every, track, m + 1, inside, c, k)) { return true; }
        if (not open and covers(n, d, cfg, marks, every, track, m + 1, -1, c, k)) { return true; }
    }
    return false;
}

static std::vector<int> edges_under(const RNet &n, const Pts &l) {
    std::vector<int> r;
    for (std::size_t i = 0; i + 1 < l.size(); ++i) {
        if (close(l[i], l[i + 1], 1e-9)) { continue; }
        int hit = -1;
        for (std::size_t e = 0; e < n.edges.size(); ++e) {
            const double p = pos_on(l[i], n.edges[e].line), q = pos_on(l[i + 1], n.edges[e].line);
            if (p >= 0 and q > p and std::fabs(q - p - seg_len(l[i], l[i + 1])) < 1e-5) { hit = static_cast<int>(e); }
        }
        if (hit >= 0 and (r.empty() or r.back() != hit)) { r.push_back(hit); }
    }
    return r;
}

struct Judged { Chunks raw; std::vector<std::uint64_t> ids; };

static std::string ids_str(const std::vector<std::uint64_t> &v) {
    std::string s;
    for (auto i : v) { s += (s.empty() ? "" : ",") + std::to_string(i); }
    return s;
}

// without exported edges
static void judge(const World &w, const Dist &d, const Config &cfg, const Job &job, const Row &row, const std::vector<Row> &cands, bool stopped) {
    const RNet &n = w.plain;
    const auto track = lines_of_wkt(row.at("track")), prepared = lines_of_wkt(row.at("prepared")), match = lines_of_wkt(row.at("match"));
    const auto total = [](const std::vector<Pts> &v) { double s = 0; for (auto &l : v) { s += line_len(l); } return s; };
    bool nothing = true;
    std::vector<Pts> given;                               // empty lines are not written
    for (auto &l : job.lines) { nothing = nothing and l.empty(); if (not l.empty()) { given.push_back(l); } }
    mc::require(nothing ? total(track) == 0 : track == given, "the track as it was given: ", row.at("track"));
    if (nothing) {
        mc::require(total(prepared) == 0 and total(match) == 0 and cands.empty() and row.at("edge_ids").empty(), "nothing in, nothing out");
        return;
    }
    if (not stopped) { mc::require_eq(prepared.size(), given.size(), "lines of the prepared track"); }
    else { mc::require(prepared.size() <= given.size(), "lines of the prepared track"); }
    if (not cfg.s.filter_duplicates and not cfg.s.simplify_track and not cfg.s.median_merge) {
        mc::require(std::equal(prepared.begin(), prepared.end(), given.begin()), "the prepared track is the track");
    }
    mc::require(std::fabs(std::stod(row.at("track_length")) - total(track)) < 1e-5, "length of the track");
    mc::require(std::fabs(std::stod(row.at("prepared_length")) - total(prepared)) < 1e-5, "length of the prepared track");
    mc::require(std::fabs(std::stod(row.at("match_length")) - total(match)) < 1e-5, "length of the match");
    mc::require(std::stod(row.at("duration")) >= 0, "duration");
    for (auto &r : cands) { mc::require(std::stoul(r.at("part_index")) < job.lines.size(), "candidates of lines of the track"); }
    Chunks lines;
    for (auto &l : match) { if (l.size() >= 2) { lines.push_back(l); } }
    if (not cfg.s.export_edges and job.lines.size() == 1) {
        for (auto &l : lines) { mc::require(drivable(n, l, cfg.s.within_edge_turns), "the match can be driven: ", ::show(l)); }
    }
    Chunks all;
    for (auto &l : lines) { attach(all, l); }
    std::vector<std::vector<Mark>> marks;
    std::vector<Mark> every;
    for (std::size_t i = 0; i < prepared.size() and given.size() == job.lines.size(); ++i) { every.clear(); marks.push_back(marks_of(n, cands, i, prepared[i], every)); }
    if (job.lines.size() == 1 and prepared.size() == 1 and not cfg.s.export_edges) {
        const auto &m = marks[0];
        if (m.empty()) { mc::require(all.empty(), "nothing chosen, nothing matched: ", show(all)); }
        else if (cfg.exact) { mc::require(covers(n, d, cfg, m, every, prepared[0], 0, -1, all, 0), "the match goes through what was chosen: ", show(all), " chosen ", show(m)); }
        if (all.size() == 1 and edges_under(n, with_nodes(n, all[0])).size() > 1) { mc::nontrivial(); }
        mc::outcome(static_cast<mc::u64>(total(all) * 64) * 31 + all.size());
    }
    if (cfg.s.export_edge_ids and not cfg.s.export_edges) {
        std::vector<std::uint64_t> ids;
        for (auto &part : lines) { for (int e : edges_under(n, with_nodes(n, part))) { if (ids.empty() or ids.back() != n.edges[e].id) { ids.push_back(n.edges[e].id); } } }
        bool tiny = false;                                // a way of rounding errors: whether it lies on a road is not judged
        for (auto &l : lines) { for (std::size_t i = 1; i < l.size(); ++i) { tiny = tiny or close(l[i - 1], l[i]); } }
        if (job.lines.size() == 1 and not tiny) { mc::require_eq(row.at("edge_ids"), ids_str(ids), "numbers of the roads of ", show(lines)); }
    } else if (not cfg.s.export_edge_ids) { mc::require(row.at("edge_ids").empty(), "no numbers were asked for"); }
    if (not stopped) { mc::require_eq(row.at("aborted"), std::string{"no"}, "not stopped"); }
}

// ---------------------------------------------------------------- enumeration
struct Net3 { int ab, bc, ca; bool via, spur; };

static RNet net_of(const Net3 &k) {
    RNet r;
    r.nodes = {{20, {0, 0}}, {21, {100, 0}}, {22, {40, 80}}, {23, {300, 0}}, {24, {400, 7}}, {25, {160, 20}}};
    unsigned long id = 100;
    const auto road = [&](int a, int b, int dir, Pts via) {
        Pts l{r.nodes[a].second};
        l.insert(l.end(), via.begin(), via.end());
        l.push_back(r.nodes[b].second);
        if (dir & 1) { r.edges.push_back({id, a, b, l}); }
        std::reverse(l.begin(), l.end());
        if (dir & 2) { r.edges.push_back({id, b, a, l}); }
        ++id;
    };
    road(0, 1, k.ab, k.via ? Pts{{50, -30}} : Pts{});
    road(1, 2, k.bc, k.via ? Pts{{90, 60}, {70, 75}} : Pts{});
    road(2, 0, k.ca, k.via ? Pts{{10, 50}} : Pts{});
    road(3, 4, 3, {});
    if (k.spur) { road(1, 5, 3, {{130, 5}}); }
    return r;
}

static const Pts PLACES{{20, 3}, {70, -2}, {75.5, 35}, {18, 42.5}, {350, 6}, {101, 1}, {45, 91}, {140, 20}};

static std::vector<Config> configs() {
    std::vector<Config> r;
    Settings b;
    b.filter_duplicates = b.simplify_track = b.median_merge = false;
    b.routing_max_distance_factor = -1;
    const auto add = [&](const char *name, auto &&f, bool mdp, bool exact) { Config c{name, b, mdp, exact}; f(c.s); r.push_back(c); };
    add("value iteration", [](Settings &) {}, true, true);
    add("viterbi", [](Settings &s) { s.model = Settings::VITERBI; s.k_nearest = 3; }, false, true);
    add("policy iteration, nearest, turns", [](Settings &s) { s.model = Settings::POLICY_ITERATION; s.candidate_search = Settings::NEAREST; s.k_nearest = 2; s.within_edge_turns = true; s.export_edge_ids = true; }, true, false);
    add("value iteration, circle, A*", [](Settings &s) { s.candidate_search = Settings::CIRCLE; s.radius = 30; s.radius_lower_limit = 30; s.radius_upper_limit = 60; s.adaptive_radius = false; s.a_star = true; s.export_edge_ids = true; }, true, true);
    add("viterbi, circle, turns, no joins", [](Settings &s) { s.model = Settings::VITERBI; s.candidate_search = Settings::CIRCLE; s.radius = 45; s.radius_lower_limit = 45; s.radius_upper_limit = 45; s.adaptive_radius = false; s.within_edge_turns = true; s.join_merges = false; s.candidate_adoption_siblings = false; }, false, false);
    add("next, edges", [](Settings &s) { s.candidate_search = Settings::NEXT; s.export_edges = s.export_edge_ids = true; }, true, true);
    add("policy iteration, reverse adoption, state of 3", [](Settings &s) { s.model = Settings::POLICY_ITERATION; s.state_size = 3; s.candidate_adoption_reverse = true; s.k_nearest = 2; }, true, true);
    add("viterbi, prepared, edges", [](Settings &s) { s.model = Settings::VITERBI; s.filter_duplicates = s.simplify_track = s.median_merge = true; s.export_edges = true; }, false, true);
    add("value iteration, errors stay, default bound", [](Settings &s) { s.skip_errors = false; s.routing_max_distance_factor = 5; s.filter_duplicates = true; s.k_nearest = 4; }, true, false);
    return r;
}

static std::vector<Job> singles(int len, int places) {
    std::vector<Job> jobs;
    for (int l = 1; l <= len; ++l) {
        std::vector<int> radix(l, places);
        mc::product(radix, [&](const std::vector<int> &v) {
            Pts p;
            for (int i : v) { p.push_back(PLACES[i]); }
            jobs.push_back({"t" + std::to_string(jobs.size()), {p}});
        });
    }
    return jobs;
}

static std::map<std::string, const Row *> by_id(const std::vector<Job> &jobs, const Out &o) {
    std::map<std::string, const Row *> r;
    for (auto &x : o.matches) { mc::require(r.emplace(x.at("id"), &x).second, "one row per track: ", x.at("id")); }
    for (auto &j : jobs) { mc::require(r.contains(j.id), "there is a row for each track: ", j.id); }
    mc::require_eq(r.size(), jobs.size(), "no rows for other tracks");
    return r;
}

static std::map<std::string, std::vector<Row>> cands_by_id(const Out &o) {
    std::map<std::string, std::vector<Row>> r;
    std::set<std::string> closed;
    std::string last;
    for (auto &x : o.candidates) {
        const std::string &id = x.at("id");
        if (id != last) { mc::require(closed.insert(id).second, "the candidates of a track are together"); last = id; }
        r[id].push_back(x);
    }
    return r;
}

static std::string same(const Row &r) { std::string s; for (auto &[k, v] : r) { if (k != "duration") { s += k + "=" + v + ";"; } } return s; }
static std::string same(const std::vector<Row> &r) { std::string s; for (auto &x : r) { s += same(x) + "\n"; } return s; }

static void whole_case(const Net3 &k, const Config &cfg, const std::vector<Job> &tracks, const std::vector<std::vector<int>> &multis) {
    const World w{net_of(k)};
    const Dist d = all_distances(w.plain);
    std::vector<Job> jobs = tracks;
    for (auto &m : multis) {
        Job j{"m" + std::to_string(jobs.size()), {}};
        for (int i : m) { j.lines.push_back(i < 0 ? Pts{} : tracks[i].lines[0]); }
        jobs.push_back(std::move(j));
    }
    const Out one = match_all(*w.net, jobs, cfg.s, 1);
    const auto rows = by_id(jobs, one);
    const auto cands = cands_by_id(one);
    const auto of = [](const std::map<std::string, std::vector<Row>> &c, const std::string &id) { const auto f = c.find(id); return f == c.end() ? std::vector<Row>{} : f->second; };
    for (std::size_t i = 0; i < jobs.size(); ++i) {
        mc::require_eq(one.matches[i].at("id"), jobs[i].id, "one thread keeps the order");
        try {
            judge(w, d, cfg, jobs[i], *rows.at(jobs[i].id), of(cands, jobs[i].id), false);
        } catch (mc::Failed &f) {
            std::string t;
            for (auto &l : jobs[i].lines) { t += "[" + ::show(l) + "]"; }
            mc::fail("track ", t, ": ", f.msg);
        }
        mc::count("tracks");
    }
    if (cfg.s.export_edges) {
        // the roads below the match that is written without the option
        Settings s = cfg.s;
        s.export_edges = s.export_edge_ids = false;
        const Out plain = match_all(*w.net, jobs, s, 1);
        const auto plain_cands = cands_by_id(plain);
        for (std::size_t i = 0; i < tracks.size(); ++i) {
            Chunks want;
            std::vector<std::uint64_t> ids;
            std::vector<int> all;
            for (auto &l : lines_of_wkt(plain.matches[i].at("match"))) {
                for (int e : edges_under(w.plain, with_nodes(w.plain, l))) {
                    if (all.empty() or all.back() != e) { all.push_back(e); }
                }
            }
            for (int e : all) { attach(want, w.plain.edges[e].line); if (ids.empty() or ids.back() != w.plain.edges[e].id) { ids.push_back(w.plain.edges[e].id); } }
            Chunks got;
            for (auto &l : lines_of_wkt(one.matches[i].at("match"))) { attach(got, l); }
            mc::require(same_chunks(got, want), "whole roads of track ", ::show(jobs[i].lines[0]), ": ", show(got), " want ", show(want));
            if (cfg.s.export_edge_ids) { mc::require_eq(one.matches[i].at("edge_ids"), ids_str(ids), "numbers of the roads"); }
            mc::require_eq(same(of(plain_cands, jobs[i].id)), same(of(cands, jobs[i].id)), "same candidates");
        }
    }
    // a track of several lines is matched as its lines
    for (std::size_t i = 0; i < multis.size(); ++i) {
        const Job &j = jobs[tracks.size() + i];
        Chunks want, got;
        std::string ids;
        std::vector<Row> cand;
        for (std::size_t part = 0; part < multis[i].size(); ++part) {
            const int t = multis[i][part];
            if (t < 0) { continue; }
            for (auto &l : lines_of_wkt(rows.at(tracks[t].id)->at("match"))) { attach(want, l); }
            const std::string &x = rows.at(tracks[t].id)->at("edge_ids");
            if (not x.empty()) { ids += (ids.empty() ? "" : ",") + x; }
            for (auto r : of(cands, tracks[t].id)) { r["id"] = j.id; r["part_index"] = std::to_string(part); cand.push_back(r); }
        }
        for (auto &l : lines_of_wkt(rows.at(j.id)->at("match"))) { attach(got, l); }
        mc::require(same_chunks(got, want), "a track of several lines: ", show(got), " want ", show(want));
        mc::require_eq(rows.at(j.id)->at("edge_ids"), ids, "numbers of the roads of a track of several lines");
        mc::require_eq(same(of(cands, j.id)), same(cand), "candidates of a track of several lines");
    }
    // other orders and more threads: the same rows
    std::vector<Job> back{jobs.rbegin(), jobs.rend()};
    const Out two = match_all(*w.net, back, cfg.s, 3);
    const auto rows2 = by_id(jobs, two);
    const auto cands2 = cands_by_id(two);
    for (auto &j : jobs) {
        mc::require_eq(same(*rows2.at(j.id)), same(*rows.at(j.id)), "same result with three threads");
        mc::require_eq(same(of(cands2, j.id)), same(of(cands, j.id)), "same candidates with three threads");
    }
}

static void whole_body() {
    const bool deep = mc::g.thorough;
    const auto cfgs = configs();
    const auto tracks = singles(3, deep ? 8 : 5);
    // all pairs of some lines, with lines that are empty
    std::vector<int> some{-1, 9, 20, 61, 100, 150};
    if (deep) { some = {-1, 3, 8, 15, 20, 60, 61, 100, 150, 240, 301, 500}; }
    std::vector<std::vector<int>> multis;
    for (int a : some) { for (int b : some) { multis.push_back({a, b}); } }
    multis.push_back({60, 61, 100, 150});
    multis.push_back({20, -1, 100});
    for (std::size_t c = 0; c < cfgs.size(); ++c) {
        mc::suite(("matchings: " + std::string{cfgs[c].name}).c_str());
        mc::product({4, 4, 4, 2, deep ? 2 : 1}, [&](const std::vector<int> &v) {
            const Net3 k{v[0], v[1], v[2], v[3] == 1, v[4] == 1};
            mc::run_case([&] { return net_of(k).str() + " " + cfgs[c].name; }, [&] { whole_case(k, cfgs[c], tracks, multis); });
        });
    }
}

// ---------------------------------------------------------------- stopping
// what is written of a track that was stopped in a line
static void stopped_at(const Job &, const Row &r, const Row &before, const Row &quiet, const std::vector<Row> &mine, const std::vector<Row> &full, std::size_t k, const std::string &where) {
    mc::require_eq(r.at("match"), before.at("match"), where, ": the match of the lines before");
    mc::require_eq(r.at("edge_ids"), before.at("edge_ids"), where, ": the numbers of the roads of the lines before");
    mc::require_eq(r.at("track"), quiet.at("track"), where, ": the track");
    mc::require(std::fabs(std::stod(r.at("match_length")) - std::stod(before.at("match_length"))) < 1e-5, where, ": length of the match");
    // candidates of the lines before as always, those of the stopped line none or all but not chosen
    std::vector<Row> want, last;
    for (auto x : full) {
        const std::size_t p = std::stoul(x.at("part_index"));
        if (p < k) { want.push_back(x); }
        if (p == k) { x["is_result"] = "0"; last.push_back(x); }
    }
    if (mine.size() > want.size()) { want.insert(want.end(), last.begin(), last.end()); }
    mc::require_eq(same(mine), same(want), where, ": candidates");
}

// every moment at which the time is over: what is written is complete up to the line that was stopped
static void stop_case(const World &w, const Config &cfg, const std::vector<Job> &jobs) {
    Settings s = cfg.s;
    s.max_time = 3600;
    std::vector<Out> free;                                // without a limit, up to each line
    std::size_t most = 0;
    for (auto &j : jobs) { most = std::max(most, j.lines.size()); }
    for (std::size_t k = 0; k <= most; ++k) {
        std::vector<Job> part = jobs;
        for (auto &j : part) { if (j.lines.size() > k) { j.lines.resize(k); } }
        free.push_back(match_all(*w.net, part, cfg.s, 1));
    }
    long calls = 0;
    const Out quiet = match_all(*w.net, jobs, s, 1, -1, &calls);
    const auto cands_all = cands_by_id(quiet);
    const auto of = [](const std::map<std::string, std::vector<Row>> &c, const std::string &id) { const auto f = c.find(id); return f == c.end() ? std::vector<Row>{} : f->second; };
    const Dist d = all_distances(w.plain);
    for (long jump = 0; jump <= calls; ++jump) {
        long used = 0;
        const Out o = match_all(*w.net, jobs, s, 1, jump, &used);
        const auto rows = by_id(jobs, o);
        const auto cands = cands_by_id(o);
        int stopped = 0;
        for (std::size_t i = 0; i < jobs.size(); ++i) {
            const Job &j = jobs[i];
            const Row &r = *rows.at(j.id);
            const auto mine = of(cands, j.id), full = of(cands_all, j.id);
            const std::string where = "time over at call " + std::to_string(jump) + " of " + std::to_string(calls) + ", " + j.id;
            mc::require(r.at("aborted") == "yes" or r.at("aborted") == "no", where, ": mark of being stopped");
            if (r.at("aborted") == "no") {
                mc::require_eq(same(r), same(quiet.matches[i]), where, ": not stopped, so complete");
                mc::require_eq(same(mine), same(full), where, ": not stopped, so all candidates");
                continue;
            }
            ++stopped;
            const auto prepared = lines_of_wkt(r.at("prepared"));
            mc::require(not prepared.empty() and prepared.size() <= j.lines.size(), where, ": lines up to the stopped one");
            // the line that was stopped: empty lines are not written, so it can be one of several
            std::string wrong;
            for (std::size_t k = 0; k < j.lines.size(); ++k) {
                std::size_t written = 0;
                for (std::size_t x = 0; x <= k; ++x) { written += not j.lines[x].empty(); }
                if (written != prepared.size()) { continue; }
                try {
                    stopped_at(j, r, free[k].matches[i], quiet.matches[i], mine, full, k, where);
                    wrong.clear();
                    mc::outcome(static_cast<mc::u64>(jump) * 64 + k);
                    if (k > 0) { mc::nontrivial(); }
                    break;
                } catch (mc::Failed &f) { wrong = f.msg; }
            }
            mc::require(wrong.empty(), wrong);
        }
        mc::require(stopped <= 1, "the time of one track is not that of another");
        mc::count("moments");
        if (stopped) { mc::count("stopped"); mc::require(used <= calls, "stopping takes longer than going on"); }
    }
    // no limit, no stop
    for (long jump : {1L, calls / 3, calls / 2, calls - 1}) {
        const Out o = match_all(*w.net, jobs, cfg.s, 1, jump);
        mc::require_eq(same(o.matches), same(quiet.matches), "without a limit");
    }
}

static void stop_body() {
    const bool deep = mc::g.thorough;
    const auto cfgs = configs();
    std::vector<std::vector<std::vector<Pts>>> sets;
    const auto l = [](std::initializer_list<int> v) { Pts p; for (int i : v) { p.push_back(PLACES[i]); } return p; };
    sets.push_back({{l({0, 2})}});
    sets.push_back({{l({0, 1, 3}), l({2, 0})}});
    sets.push_back({{l({1, 1, 2})}, {l({3, 0})}});
    sets.push_back({{l({0, 4, 2}), {}, l({3}), l({5, 1})}});
    if (deep) {
        for (int a = 0; a < 6; ++a) { for (int b = 0; b < 6; ++b) { for (int c = 0; c < 6; ++c) { sets.push_back({{l({a, b, c})}}); sets.push_back({{l({a, b}), l({b, c})}, {l({c, a})}}); } } }
    }
    for (std::size_t c = 0; c < cfgs.size(); ++c) {
        mc::suite(("stopped: " + std::string{cfgs[c].name}).c_str());
        std::vector<int> radix{4, 4, 4, deep ? 2 : 1};
        mc::product(radix, [&](const std::vector<int> &v) {
            const Net3 k{v[0], v[1], v[2], v[3] == 1, false};
            if (not deep and v[0] + v[1] + v[2] < 7) { return; }
            if (deep and (v[0] * 16 + v[1] * 4 + v[2]) % 21) { return; }
            std::unique_ptr<World> w;
            for (auto &set : sets) {
                mc::run_case([&] { std::string t; for (auto &j : set) { t += " track"; for (auto &x : j) { t += " [" + ::show(x) + "]"; } } return net_of(k).str() + " " + cfgs[c].name + t; }, [&] {
                    if (not w) { w = std::make_unique<World>(net_of(k)); }
                    std::vector<Job> jobs;
                    for (auto &j : set) { jobs.push_back({"s" + std::to_string(jobs.size()), j}); }
                    stop_case(*w, cfgs[c], jobs);
                });
            }
        });
    }
}

// ---------------------------------------------------------------- columns
static std::string join(const std::vector<std::string> &v) { std::string s; for (std::size_t i = 0; i < v.size(); ++i) { s += (i ? "," : "") + v[i]; } return s; }

// the columns asked for, each with what it has when all of them are asked for
static void columns_of(const Rows &got, const std::vector<Row> &full, const std::vector<std::string> &cols, const char *what) {
    if (full.empty()) { mc::require(got.size() <= 1, what, ": no rows"); return; }
    mc::require(not got.empty() and got[0] == cols, what, ": header ", got.empty() ? "" : join(got[0]));
    mc::require_eq(got.size() - 1, full.size(), "rows of ", what);
    for (std::size_t i = 0; i < full.size(); ++i) {
        mc::require_eq(got[i + 1].size(), cols.size(), "fields in a row of ", what);
        for (std::size_t k = 0; k < cols.size(); ++k) {
            const auto f = full[i].find(cols[k]);
            const std::string &x = got[i + 1][k];
            if (cols[k] == "duration") { mc::require(not x.empty() and x.find_first_not_of("0123456789.e-+") == std::string::npos and std::stod(x) >= 0, what, ": duration ", x); continue; }
            mc::require_eq(x, f == full[i].end() ? std::string{} : f->second, "column ", cols[k], " of row ", i, " of ", what);
        }
    }
}

static void columns_body() {
    const bool deep = mc::g.thorough;
    const auto cfgs = configs();
    const auto split = [](const std::string &s) { std::vector<std::string> v; std::stringstream ss{s}; for (std::string c; std::getline(ss, c, ',');) { v.push_back(c); } return v; };
    auto names = split(COLUMNS), cnames = split(CANDIDATES);
    for (auto *n : {&names, &cnames}) { n->push_back("speed"); n->push_back(" id"); }
    const auto l = [](std::initializer_list<int> v) { Pts p; for (int i : v) { p.push_back(PLACES[i]); } return p; };
    const std::vector<Job> jobs{{"a", {l({0, 1, 3})}}, {"b, \"the\" second", {l({2, 4}), {}, l({1, 0, 2})}}, {"", {l({3})}}, {"d\ne", {{}}}};
    const std::vector<std::array<int, 3>> nets = deep ? std::vector<std::array<int, 3>>{{1, 2, 3}, {3, 3, 0}, {0, 0, 0}, {2, 1, 3}} : std::vector<std::array<int, 3>>{{1, 2, 3}, {0, 0, 0}};
    for (auto &n : nets) {
        const World w{net_of(Net3{n[0], n[1], n[2], false, false})};
        for (std::size_t c = 0; c < cfgs.size(); c += deep ? 1 : 4) {
            mc::suite(("columns: " + std::string{cfgs[c].name}).c_str());
            const auto [m, k] = match_raw(*w.net, jobs, cfgs[c].s, 1, COLUMNS, CANDIDATES);
            std::vector<Row> full, kfull;
            std::string wrong;
            try { full = named(m, COLUMNS), kfull = named(k, CANDIDATES); } catch (mc::Failed &f) { wrong = f.msg; }
            mc::run_case([&] { return net_of(Net3{n[0], n[1], n[2], false, false}).str() + " all columns"; }, [&] { mc::require(wrong.empty(), wrong); mc::require_eq(full.size(), jobs.size(), "rows"); });
            for (int len = 1; len <= (deep and c == 0 ? 3 : 2); ++len) {
                mc::product(std::vector<int>(len, static_cast<int>(std::max(names.size(), cnames.size()))), [&](const std::vector<int> &v) {
                    std::vector<std::string> a, b;
                    for (int i : v) { a.push_back(names[i % names.size()]); b.push_back(cnames[i % cnames.size()]); }
                    mc::run_case([&] { return "matches " + join(a) + " candidates " + join(b); }, [&] {
                        const auto [x, y] = match_raw(*w.net, jobs, cfgs[c].s, 1, join(a), join(b));
                        columns_of(x, full, a, "matches");
                        columns_of(y, kfull, b, "candidates");
                        mc::transition(x.size() + y.size());
                        mc::state(mc::hcat(mc::hstr(join(a)), c * 64 + static_cast<std::size_t>(n[0])));
                        mc::outcome(mc::hstr(x.size() > 1 ? join(x[1]) : ""));
                        mc::nontrivial();
                    });
                });
            }
        }
    }
}

int main(int argc, char **argv) {
    std::string mode;
    for (int i = 1; i < argc; ++i) { const std::string a = argv[i]; if (a == "--stop" or a == "--columns") { mode = a; } }
    return mc::main_(argc, argv, [&] { if (mode == "--stop") { stop_body(); } else if (mode == "--columns") { columns_body(); } else { whole_body(); } });
}
