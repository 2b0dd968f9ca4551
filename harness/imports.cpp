// P01: tracks read from any supported source become exactly the lines it describes.
#include "types/geometry/network/network_import.hpp"
#include "types/io/helper/graph_helper.hpp"
#include "types/io/helper/tag_helper.hpp"
#include "types/geometry/track/multi_track.hpp"
#include "geometry/algorithm/reproject.hpp"
#include "io/track/csv_track_importer.hpp"
#include "io/track/edges_list_importer.hpp"
#include "io/track/gpx_track_importer.hpp"
#include "io/track/input_importer.hpp"
#include "io/track/seattle_ground_truth_importer.hpp"
#include <filesystem>
#include <fstream>
#include <map>
#include <optional>
#include <set>
#include <sstream>

#include "mc.hpp"

using namespace map_matching_2;

template<typename... A>
static std::string cat(const A &... a) { std::ostringstream o; o.precision(12); (o << ... << a); return o.str(); }

namespace map_matching_2::util {
    std::string get_compiler_info() { return "compiler"; }
    const std::string version() { return "version"; }
}

using Memory = io::memory_mapped::memory_types;
using Geo = geometry::cs_geographic;
using Cart = geometry::cs_cartesian;
using Sph = geometry::cs_spherical_equatorial;
template<typename CS> using Pt = geometry::point_type<CS>;
using XY = std::pair<double, double>;
using Line = std::vector<XY>;
using Lines = std::vector<Line>;

static std::string dir;
static std::string name(std::size_t i, const char *what) { return cat(dir, "/", getpid(), "_", i, what); }

struct Track { std::string id; Lines lines; };

// takes what the importers pass on
struct Sink {
    using multi_track_variant_type = MM2_MULTI_TRACK_VARIANT;
    std::vector<Track> tracks;
    void pass(const multi_track_variant_type &t) {
        std::visit([&](const auto &m) {
            Track x{m.id, {}};
            for (std::size_t i = 0; i < m.multi_rich_line.size(); ++i) {
                Line l;
                for (const auto &p : m.multi_rich_line.at(i).line()) { l.emplace_back(p.template get<0>(), p.template get<1>()); }
                if (not l.empty()) { x.lines.push_back(l); }
            }
            tracks.push_back(x);
        }, t);
    }
};

struct Srs { int code, to; };
static const std::vector<Srs> SRSES{{4326, -1}, {4326, 3857}, {32632, 4326}, {32632, -1}};
static bool metres(const Srs &s) { const int c = s.to < 0 ? s.code : s.to; return c != 4326; }
static geometry::srs_transform transform(const Srs &s) { return geometry::compute_srs_transform(s.code, "", s.to, ""); }

static std::string at(const XY &p, bool m) {
    char b[80];
    std::snprintf(b, sizeof b, m ? "%.3f/%.3f" : "%.7f/%.7f", p.first + 0.0, p.second + 0.0);
    return b;
}
static std::string show(const Track &t, bool m) {
    std::string r = t.id + ":";
    for (auto &l : t.lines) { r += " ("; for (auto &p : l) { r += " " + at(p, m); } r += ")"; }
    return r;
}

// places around Karlsruhe, and where they are
static XY place(int i, int code) {
    const double a = 0.0005 * (i % 7), b = 0.0003 * i;
    return code == 4326 ? XY{8.5 + a, 49.25 + b} : XY{463600 + 100000 * a, 5455200 + 100000 * b};
}
static XY moved(XY p, const Srs &s) {
    if (s.to < 0) { return p; }
    auto proj = [](int c) {
        return boost::geometry::srs::proj4{c == 4326 ? "+proj=longlat +datum=WGS84 +no_defs" : c == 32632 ? "+proj=utm +zone=32 +datum=WGS84 +units=m +no_defs"
                : "+proj=merc +a=6378137 +b=6378137 +lat_ts=0 +lon_0=0 +x_0=0 +y_0=0 +k=1 +units=m +nadgrids=@null +wktext +no_defs"};
    };
    static std::map<std::pair<int, int>, boost::geometry::srs::transformation<>> all;
    auto it = all.find({s.code, s.to});
    if (it == all.end()) { it = all.emplace(std::piecewise_construct, std::tuple{std::pair{s.code, s.to}}, std::tuple{proj(s.code), proj(s.to)}).first; }
    if (s.code == 4326) {
        Pt<Cart> o;
        it->second.forward(Pt<Geo>{p.first, p.second}, o);
        return {o.get<0>(), o.get<1>()};
    }
    Pt<Geo> o;
    it->second.forward(Pt<Cart>{p.first, p.second}, o);
    return {o.get<0>(), o.get<1>()};
}

static void same(std::vector<std::string> got, std::vector<std::string> want, bool ordered) {
    if (not ordered) { std::sort(got.begin(), got.end()), std::sort(want.begin(), want.end()); }
    for (std::size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
        if (i >= got.size() or i >= want.size() or got[i] != want[i]) {
            mc::fail("track ", i, " is '", i < got.size() ? got[i] : "nothing", "' instead of '", i < want.size() ? want[i] : "nothing", "'");
        }
    }
    std::string all;
    for (auto &w : want) { all += w; }
    mc::outcome(mc::hstr(all));
    if (not want.empty()) { mc::nontrivial(); }
}

// ---- csv ----
enum Ids { ONE, TWO, NONE, WHOLE };
enum Times { NO_TIME, NUMBER, WORDS, ISO, DAY_AND_HOUR };
enum Shapes { COORDINATES, POINTS, LINES, MULTI_LINES };
struct Csv { bool header; Ids ids; Times times; Shapes shape; bool grouped; int selected; int delimiter; int skip; Srs srs; };
static std::string show(const Csv &c) {
    static const char *const i[]{"id", "two ids", "no id", "whole file"}, *const t[]{"", "numbers", "words", "iso times", "days and hours"},
            *const s[]{"coordinates", "points", "lines", "multi lines"};
    return cat(c.header ? "header " : "", i[c.ids], " ", t[c.times], " ", s[c.shape], c.grouped ? " grouped" : "", " selected ", c.selected, " delimiter ", c.delimiter,
            " skip ", c.skip, " srs ", c.srs.code, ">", c.srs.to);
}
struct Row { int id, time; };
using File = std::vector<Row>;

static std::string wkt(const Line &l) { std::string r; for (auto &p : l) { r += cat(r.empty() ? "" : ", ", p.first, " ", p.second); } return r; }

static std::string stamp(int t, Times k) {
    char b[64];
    if (k == NUMBER) { return std::to_string(1000 * t); }
    if (k == WORDS) { return cat("t", t); }
    if (k == ISO) {
        if (t & 1) { std::snprintf(b, sizeof b, "2023-05-01T%02d:30:00+02:00", 3 + t); } // 1:30 and later, by another zone
        else { std::snprintf(b, sizeof b, "2023-05-01T%02d:30:00+00:00", 1 + t); }
    } else { std::snprintf(b, sizeof b, "%02d.05.2023", 1 + t / 2); }
    return b;
}

static Line shape_of(int n, const Csv &c, int part) {
    Line l;
    for (int i = 0; i < (c.shape == LINES || c.shape == MULTI_LINES ? 2 + n % 2 : 1); ++i) { l.push_back(place(n * 5 + i + 2 * part, c.srs.code)); }
    return l;
}

static void read_csv(const std::vector<File> &files, const Csv &c) {
    static const std::vector<std::pair<std::string, char>> DELIMITERS{{",", ','}, {";", ';'}, {"\\t", '\t'}, {"\\s", ' '}, {"|", '|'}};
    const char sep = DELIMITERS[c.delimiter].second;
    io::csv_settings s;
    s.grouped = c.grouped, s.no_header = not c.header, s.no_id = c.ids >= NONE, s.no_id_whole_file = c.ids == WHOLE;
    s.wkt = c.shape != COORDINATES, s.no_parse_time = c.times == NUMBER or c.times == WORDS;
    s.skip_lines = c.skip, s.delimiter = DELIMITERS[c.delimiter].first;
    // columns: id, id2, day, time, x, y, geometry
    auto col = [&](const char *n, int i) { return c.header ? std::string{n} : std::to_string(i); };
    s.field_id = c.ids == TWO ? std::vector{col("id", 0), col("id2", 1)} : std::vector{col("id", 0)};
    s.id_aggregator = "+";
    s.field_time = c.times == NO_TIME ? std::vector<std::string>{"nothing"} : c.times == DAY_AND_HOUR ? std::vector{col("day", 2), col("time", 3)} : std::vector{col("time", 3)};
    if (c.times == DAY_AND_HOUR) { s.time_aggregator = "@", s.time_format = "%d.%m.%Y@%H"; }
    s.field_x = col("x", 4), s.field_y = col("y", 5), s.field_geometry = col("geometry", 6);
    std::vector<std::string> names, selectors;
    auto id_of = [&](int id) { return c.ids == TWO ? cat("k", id / 2, "+", id % 2) : cat("id", id); };
    struct Point { long time; XY at; };
    std::vector<std::pair<std::string, std::vector<Point>>> open; // by run or by id
    std::vector<Track> want;
    if (c.selected == 1) { selectors = {c.ids >= NONE ? "0" : id_of(0)}; }
    if (c.selected == 2) { selectors = {c.ids >= NONE ? "1" : id_of(1), "other"}; }
    auto chosen = [&](const std::string &id) { return selectors.empty() or std::find(selectors.begin(), selectors.end(), id) != selectors.end(); };
    int n = 0;
    for (std::size_t f = 0; f < files.size(); ++f) {
        names.push_back(name(f, ".csv"));
        std::ofstream o{names.back()};
        o.precision(12);
        if (c.header) { o << "id" << sep << "id2" << sep << "day" << sep << "time" << sep << "x" << sep << "y" << sep << "geometry\n"; }
        for (int k = 0; k < c.skip; ++k) { o << "id" << sep << "id2" << sep << "day" << sep << "time" << sep << "x" << sep << "y" << sep << "geometry\n"; }
        long row = 0;
        for (auto &r : files[f]) {
            o << (c.ids == TWO ? cat("k", r.id / 2) : cat("id", r.id)) << sep << r.id % 2 << sep << stamp(r.time, DAY_AND_HOUR) << sep;
            if (c.times == DAY_AND_HOUR) { o << (r.time % 2 ? "17" : "05"); } else { o << stamp(r.time, c.times == NO_TIME ? NUMBER : c.times); }
            Lines ls{shape_of(n, c, 0)};
            if (c.shape == MULTI_LINES and n % 3) { ls.push_back(shape_of(n, c, 1)); }
            o << sep << ls[0][0].first << sep << ls[0][0].second << sep << '"';
            if (c.shape == LINES) { o << (n % 2 ? "LINESTRING(" : "linestring (") << wkt(ls[0]) << ")"; }
            else if (c.shape == MULTI_LINES) { o << "MULTILINESTRING("; for (auto &l : ls) { o << (&l == &ls[0] ? "(" : ",(") << wkt(l) << ")"; } o << ")"; }
            else { o << (n % 2 ? "Point (" : "POINT(") << wkt(ls[0]) << ")"; }
            o << '"' << "\n";
            for (auto &l : ls) { for (auto &p : l) { p = moved(p, c.srs); } }
            if (c.shape >= LINES) {
                const auto id = c.ids >= NONE ? std::to_string(row) : id_of(r.id);
                if (chosen(id)) { want.push_back({id, ls}); }
            } else {
                const auto id = c.ids == WHOLE ? std::to_string(f) : c.ids == NONE ? std::to_string(row) : id_of(r.id);
                auto it = open.begin();
                while (it != open.end() and it->first != id) { ++it; }
                if (it == open.end()) { open.push_back({id, {}}), it = std::prev(open.end()); }
                const long time = c.times == NO_TIME or c.times == WORDS ? static_cast<long>(it->second.size()) : r.time;
                it->second.push_back({time, ls[0][0]});
            }
            ++n, ++row;
        }
    }
    for (auto &[id, points] : open) {
        if (not chosen(id)) { continue; }
        std::stable_sort(points.begin(), points.end(), [](auto &a, auto &b) { return a.time < b.time; });
        Track t{id, {{}}};
        for (auto &p : points) { t.lines[0].push_back(p.at); }
        want.push_back(t);
    }
    Sink sink;
    const auto srs = transform(c.srs);
    const auto reprojector = geometry::create_point_reprojector(srs);
    io::track::csv_track_importer<Sink> x{names, selectors, s, sink, srs, reprojector};
    x.read();
    for (auto &f : names) { std::filesystem::remove(f); }
    std::vector<std::string> a, b;
    for (auto &t : sink.tracks) { a.push_back(show(t, metres(c.srs))); }
    for (auto &t : want) { b.push_back(show(t, metres(c.srs))); }
    same(a, b, c.grouped or c.shape >= LINES);
}

static std::string show(const std::vector<File> &fs) {
    std::string r;
    for (auto &f : fs) { r += "["; for (auto &x : f) { r += cat(" ", x.id, "@", x.time); } r += "] "; }
    return r;
}

// as the description of the option demands
static bool grouped(const std::vector<File> &fs) {
    std::vector<int> seen;
    for (auto &f : fs) {
        for (auto &r : f) {
            if (not seen.empty() and seen.back() == r.id) { continue; }
            if (std::find(seen.begin(), seen.end(), r.id) != seen.end()) { return false; }
            seen.push_back(r.id);
        }
    }
    return true;
}

static void csvs(bool t) {
    auto go = [&](const std::vector<File> &fs, Csv c) {
        if (c.grouped and c.ids <= TWO and not grouped(fs)) { return; }
        if (c.ids == NONE and c.shape < LINES and fs.size() > 1) { return; } // same ids again
        mc::run_case([&] { return show(fs) + show(c); }, [&] { read_csv(fs, c); });
    };
    auto configurations = [&](const std::vector<File> &fs, bool all) {
        for (int k = 0; k < 2 * 4 * 5 * 4 * 2 * 3; ++k) {
            Csv c{(k & 1) != 0, Ids(k / 2 % 4), Times(k / 8 % 5), Shapes(k / 40 % 4), k / 160 % 2 != 0, k / 320, 0, 0, SRSES[0]};
            if (c.header) { c.delimiter = k % 3; }
            if (c.ids == NONE and c.times and c.shape < LINES and not all) { continue; }
            go(fs, c);
        }
    };
    mc::suite("csv: every kind of file");
    for (int n = 0; n <= (t ? 4 : 3); ++n) {
        auto with = [&](const std::vector<int> &v) {
            File f;
            for (int x : v) { f.push_back({x % 3, x / 3}); }
            configurations({f}, true);
        };
        if (n == 0) { with({}); } else { mc::product(std::vector<int>(n, n > 3 ? 6 : 9), with); }
    }
    mc::suite("csv: two files");
    for (int a = 0; a <= 2; ++a) {
        for (int b = 0; b <= 2; ++b) {
            auto with = [&](const std::vector<int> &v) {
                std::vector<File> fs(2);
                for (int i = 0; i < a + b; ++i) { fs[i >= a].push_back({v[i] % 2, v[i] / 2}); }
                configurations(fs, false);
            };
            if (a + b) { mc::product(std::vector<int>(a + b, 4), with); }
        }
    }
    mc::suite("csv: reference systems, delimiters, skipped lines");
    mc::product(std::vector<int>(3, 4), [&](const std::vector<int> &v) {
        File f;
        for (int x : v) { f.push_back({x % 2, x / 2}); }
        for (int k = 0; k < 4 * 5 * 3 * 4 * 2; ++k) {
            Csv c{k / 240 % 2 != 0, k / 60 % 4 == 3 ? WHOLE : ONE, k / 60 % 2 ? ISO : NUMBER, Shapes(k / 60 % 4), v[0] % 2 != 0, 0, k / 4 % 5, k / 20 % 3, SRSES[k % 4]};
            if (c.header and c.skip) { continue; }
            go({f}, c);
        }
    });
    // long tracks
    mc::suite("csv: long tracks in every cyclic order of their times");
    for (int n = 15; n <= (t ? 70 : 40); ++n) {
        for (int step = 1; step <= 7; ++step) {
            for (int mod = 1; mod <= (t ? 12 : 6); ++mod) {
                File f;
                for (int i = 0; i < n; ++i) { f.push_back({0, i * step % mod}); }
                for (Times k : {NUMBER, ISO, DAY_AND_HOUR, WORDS, NO_TIME}) {
                    go({f}, Csv{true, ONE, k, COORDINATES, true, 0, 0, 0, SRSES[0]});
                    go({f}, Csv{true, ONE, k, POINTS, false, 0, 0, 0, SRSES[0]});
                }
            }
        }
    }
}

// ---- gpx ----
struct Gpx { Times times; bool no_id; int selected; int named; Srs srs; };  // named: as a track of its own, or by the file, or not at all
struct Spot { int track, segment, time; };                                 // one point; numbers are those within the file

static void read_gpx(const std::vector<std::vector<Spot>> &files, const Gpx &g, bool damaged) {
    std::vector<std::string> names, selectors, want;
    auto name_of = [](std::size_t f, int t) { return cat("ride ", f, t); };
    if (g.selected == 1) { selectors = {g.no_id or g.named == 2 ? "0" : g.named == 1 ? "file 0" : name_of(0, 0)}; }
    if (g.selected == 2) { selectors = {"other", g.no_id or g.named == 2 ? "1" : g.named == 1 ? "file 1" : name_of(0, 1)}; }
    int n = 0, counted = 0;
    for (std::size_t f = 0; f < files.size(); ++f) {
        names.push_back(name(f, ".gpx"));
        std::ofstream o{names.back()};
        o.precision(12);
        o << "<?xml version=\"1.0\"?>\n<gpx version=\"1.1\">\n<metadata>" << (g.named == 2 ? "" : cat("<name>file ", f, "</name>")) << "</metadata>\n<wpt lat=\"1\" lon=\"2\"><name>no track</name></wpt>\n";
        if (damaged and f == 0) { o << "<trk><name>damaged"; continue; }
        for (std::size_t i = 0; i < files[f].size();) {
            const int t = files[f][i].track;
            std::string id = g.named == 0 ? name_of(f, t) : g.named == 1 ? cat("file ", f) : "";
            if (g.no_id or id.empty()) { id = std::to_string(counted++); }
            o << "<trk>" << (g.named == 0 ? cat("<name>", name_of(f, t), "</name>") : "") << "\n";
            Track track{id, {}};
            while (i < files[f].size() and files[f][i].track == t) {
                const int s = files[f][i].segment;
                std::vector<std::pair<int, XY>> points;
                o << "<trkseg>\n";
                while (i < files[f].size() and files[f][i].track == t and files[f][i].segment == s) {
                    const auto p = place(n++, g.srs.code);
                    const int time = files[f][i].time;
                    o << "<trkpt " << cat("lat=\"", p.second, "\" lon=\"", p.first, "\"") << ">";
                    if (g.times != NO_TIME) { o << "<time>" << stamp(time, g.times) << "</time>"; }
                    o << "</trkpt>\n";
                    points.emplace_back(g.times == NO_TIME or g.times == WORDS ? static_cast<int>(points.size()) : g.times == DAY_AND_HOUR ? time / 2 : time, moved(p, g.srs));
                    ++i;
                }
                o << "</trkseg>\n";
                std::stable_sort(points.begin(), points.end(), [](auto &a, auto &b) { return a.first < b.first; });
                track.lines.emplace_back();
                for (auto &p : points) { track.lines.back().push_back(p.second); }
            }
            o << "</trk>\n";
            if (selectors.empty() or std::find(selectors.begin(), selectors.end(), id) != selectors.end()) { want.push_back(show(track, metres(g.srs))); }
        }
        o << "</gpx>\n";
    }
    names.push_back(name(files.size(), "_missing.gpx"));
    Sink sink;
    const auto srs = transform(g.srs);
    const auto reprojector = geometry::create_point_reprojector(srs);
    std::ostringstream sunk;
    auto *log = std::clog.rdbuf(sunk.rdbuf()), *err = std::cerr.rdbuf(sunk.rdbuf());
    try {
        io::track::gpx_track_importer<Sink> x{names, selectors, g.no_id, g.times == DAY_AND_HOUR ? "%d.%m.%Y" : "%FT%T%Oz",
                g.times == NUMBER or g.times == WORDS, sink, srs, reprojector};
        x.read();
    } catch (...) { std::clog.rdbuf(log), std::cerr.rdbuf(err); throw; }
    std::clog.rdbuf(log), std::cerr.rdbuf(err);
    for (auto &f : names) { std::filesystem::remove(f); }
    std::vector<std::string> got;
    for (auto &t : sink.tracks) { got.push_back(show(t, metres(g.srs))); }
    same(got, want, true);
}

static void gpxs(bool t) {
    auto go = [&](const std::vector<std::vector<Spot>> &fs, const Gpx &g, bool damaged) {
        mc::run_case([&] {
            std::string r;
            for (auto &f : fs) { r += "["; for (auto &p : f) { r += cat(" ", p.track, ".", p.segment, "@", p.time); } r += "] "; }
            return cat(r, "times ", static_cast<int>(g.times), g.no_id ? " no id" : "", " selected ", g.selected, " named ", g.named, " srs ", g.srs.code, ">", g.srs.to, damaged ? " damaged" : "");
        }, [&] { read_gpx(fs, g, damaged); });
    };
    mc::suite("gpx: every kind of file");
    // each point goes on with its segment, or starts another one, or another track, or another file
    for (int n = 0; n <= (t ? 5 : 4); ++n) {
        auto with = [&](const std::vector<int> &v) {
            std::vector<std::vector<Spot>> fs(1);
            int track = 0, segment = 0;
            for (int x : v) {
                const int what = x % 4;
                if (what == 3) { fs.emplace_back(), track = segment = 0; } else if (what == 2 and not fs.back().empty()) { ++track, segment = 0; }
                else if (what == 1 and not fs.back().empty()) { ++segment; }
                fs.back().push_back({track, segment, x / 4});
            }
            for (int k = 0; k < 5 * 2 * 3 * 3; ++k) {
                const Gpx g{Times(k % 5), k / 5 % 2 != 0, k / 10 % 3, k / 30, SRSES[n < 3 ? 0 : v[0] % 4]};
                go(fs, g, false);
                if (fs.size() > 1 and g.times == ISO) { auto d = fs; d[0].clear(); go(d, g, true); }
            }
        };
        if (n == 0) { with({}); } else { mc::product(std::vector<int>(n, n > 3 ? 8 : 12), with); }
    }
    mc::suite("gpx: long tracks in every cyclic order of their times");
    for (int n = 15; n <= (t ? 70 : 40); ++n) {
        for (int step = 1; step <= 7; ++step) {
            for (int mod = 1; mod <= (t ? 12 : 6); ++mod) {
                std::vector<Spot> f;
                for (int i = 0; i < n; ++i) { f.push_back({0, i / 30, i * step % mod}); }
                for (Times k : {NO_TIME, NUMBER, WORDS, ISO, DAY_AND_HOUR}) { go({f}, Gpx{k, false, 0, 0, SRSES[0]}, false); }
            }
        }
    }
}

// ---- standard input ----
static void inputs(bool t) {
    mc::suite("input");
    struct In { std::string text; std::optional<Lines> means; bool ends; };
    const std::vector<In> all{
        {"POINT(8.5 49.25)", Lines{{{8.5, 49.25}}}, false}, {"point (8.5 49.25) , POINT(8.51 49.25);Point(8.52 49.26)|POINT(8.5 49.25)", Lines{{{8.5, 49.25}, {8.51, 49.25}, {8.52, 49.26}, {8.5, 49.25}}}, false},
        {"  LINESTRING(8.5 49.25, 8.51e0 49.26)\t", Lines{{{8.5, 49.25}, {8.51, 49.26}}}, false}, {"linestring(8.51 49.26,8.5 49.25,8.51 49.26)", Lines{{{8.51, 49.26}, {8.5, 49.25}, {8.51, 49.26}}}, false},
        {"MULTILINESTRING((8.5 49.25,8.51 49.25),(8.53 49.25,8.52 49.25))", Lines{{{8.5, 49.25}, {8.51, 49.25}}, {{8.53, 49.25}, {8.52, 49.25}}}, false},
        {"POLYGON((8.5 49.25,8.51 49.25,8.51 49.26,8.5 49.25))", std::nullopt, false}, {"LINESTRING(8.5 49.25, 8.51 x)", std::nullopt, false}, {"POINT(8.5 49.25),LINESTRING(8.5 49.25,8.51 49.26)", std::nullopt, false},
        {"", std::nullopt, true}, {"  ", std::nullopt, true}};
    for (int n = 1; n <= (t ? 5 : 4); ++n) {
        for (auto &srs : {SRSES[0], SRSES[1]}) {
            mc::product(std::vector<int>(n, static_cast<int>(all.size())), [&](const std::vector<int> &v) {
                mc::run_case([&] { std::string d; for (int i : v) { d += cat("'", all[i].text, "' "); } return d; }, [&] {
                    std::string in;
                    std::vector<std::string> want, got;
                    bool ended = false;
                    for (int i : v) {
                        in += all[i].text + "\n";
                        ended |= all[i].ends;
                        if (ended or not all[i].means) { continue; }
                        Track x{"", *all[i].means};
                        for (auto &l : x.lines) { for (auto &p : l) { p = moved(p, srs); } }
                        want.push_back(show(x, metres(srs)));
                    }
                    std::istringstream stream{in};
                    std::ostringstream sunk;
                    auto *was = std::cin.rdbuf(stream.rdbuf()), *log = std::clog.rdbuf(sunk.rdbuf());
                    std::cin.clear();
                    Sink sink;
                    const auto tr = transform(srs);
                    const auto reprojector = geometry::create_point_reprojector(tr);
                    io::track::input_importer<Sink> x{sink, tr, reprojector};
                    x.read();
                    std::cin.rdbuf(was), std::clog.rdbuf(log);
                    std::cin.clear();
                    std::set<std::string> ids;
                    for (auto &k : sink.tracks) {
                        mc::require(ids.insert(k.id).second, "id ", k.id, " twice");
                        got.push_back(show({"", k.lines}, metres(srs)));
                    }
                    same(got, want, true);
                });
            });
        }
    }
}

// ---- lists of edges ----
struct Edge { long id; int from, to; int via; };

template<typename CS>
static void edge_list(const std::vector<Edge> &edges, const std::vector<std::vector<std::vector<long>>> &files, int format, const Srs &srs) {
    using GH = io::helper::graph_helper_import_type<Pt<CS>, Memory, io::helper::import_tag_helper_type<Memory>>;
    GH gh{typename GH::graph_storage_type{}, typename GH::tag_helper_type{}};
    using N = geometry::network::node_type<Pt<CS>>;
    using E = geometry::network::edge_type<Pt<CS>>;
    using R = typename E::rich_line_type;
    auto point = [&](int i) { const auto p = place(i, srs.code); return Pt<CS>{p.first, p.second}; };
    std::vector<std::size_t> index;
    for (int i = 0; i < 4; ++i) { index.push_back(gh.add_vertex_with_index_mapping(N{static_cast<std::uint64_t>(i), point(i)})); }
    auto line_of = [&](const Edge &e) { std::vector<int> l{e.from}; if (e.via) { l.push_back(e.via); } l.push_back(e.to); return l; };
    for (auto &e : edges) {
        typename geometry::rich_line_traits<R>::line_type l;
        for (int i : line_of(e)) { l.emplace_back(point(i)); }
        gh.add_edge(index[e.from], index[e.to], E{static_cast<std::uint64_t>(e.id), R{std::move(l)}});
    }
    using CH = io::helper::graph_helper_type<Pt<CS>, Memory, io::helper::tag_helper_type<Memory>>;
    CH ch{};
    io::helper::import_tag_helper_type<Memory> tags{};
    ch.from_adjacency_list(gh, tags);
    const auto &graph = ch.graph();
    std::vector<std::string> names, columns;
    // alone, second column, two columns of ids (a pair per row)
    const std::string delimiter = format == 0 ? "" : format == 1 ? ";," : "\\t";
    if (format == 1) { columns = {"1"}; }
    if (format == 2) { columns = {"2", "0"}; }
    const int skip = format;
    std::vector<std::pair<std::string, std::set<std::string>>> want;
    for (std::size_t f = 0; f < files.size(); ++f) {
        names.push_back(name(f, ".txt"));
        std::ofstream o{names.back()};
        for (int k = 0; k < skip; ++k) { o << "some header\n"; }
        std::vector<long> ids;
        bool unknown = false;
        for (auto &row : files[f]) {
            if (format == 0) { o << row[0] << "\n"; } else if (format == 1) { o << "7;" << row[0] << ",9\n"; }
            else { o << row.back() << "\tx\t" << row[0] << "\n"; }
            for (std::size_t k = 0; k < (format == 2 ? 2u : 1u); ++k) {
                const long id = k ? row.back() : row[0];
                if (ids.empty() or ids.back() != id) { ids.push_back(id); }
                bool any = false;
                for (auto &e : edges) { any |= e.id == id; }
                unknown |= not any;
            }
        }
        if (unknown or ids.empty()) { continue; }
        // every choice of edges, the ones with the fewest gaps
        std::vector<std::vector<const Edge *>> choices{{}};
        for (long id : ids) {
            std::vector<std::vector<const Edge *>> next;
            for (auto &c : choices) { for (auto &e : edges) { if (e.id == id) { next.push_back(c), next.back().push_back(&e); } } }
            choices = next;
        }
        std::size_t best = 99;
        std::map<std::size_t, std::set<std::string>> lines;
        for (auto &c : choices) {
            Track x{std::to_string(f), {}};
            const Edge *last = nullptr;
            for (auto *e : c) {
                Line l;
                for (int i : line_of(*e)) { l.push_back(moved(place(i, srs.code), srs)); }
                if (last and last->to == e->from) { x.lines.back().insert(x.lines.back().end(), std::next(l.begin()), l.end()); } else { x.lines.push_back(l); }
                last = e;
            }
            best = std::min(best, x.lines.size());
            lines[x.lines.size()].insert(show(x, metres(srs)));
        }
        want.emplace_back(names.back(), lines[best]);
    }
    Sink sink;
    const auto tr = transform(srs);
    const auto reprojector = geometry::create_point_reprojector(tr);
    std::ostringstream sunk;
    auto *err = std::cerr.rdbuf(sunk.rdbuf());
    try {
        io::track::edges_list_importer<Sink, std::remove_cvref_t<decltype(graph)>> x{names, sink, tr, reprojector, graph, delimiter, columns, static_cast<std::size_t>(skip)};
        x.read();
    } catch (...) { std::cerr.rdbuf(err); throw; }
    std::cerr.rdbuf(err);
    for (auto &f : names) { std::filesystem::remove(f); }
    mc::require_eq(sink.tracks.size(), want.size(), "number of tracks");
    for (std::size_t i = 0; i < want.size(); ++i) {
        const auto got = show(sink.tracks[i], metres(srs));
        mc::require(want[i].second.count(got) > 0, "track ", i, " is '", got, "' and not for example '", *want[i].second.begin(), "'");
        mc::outcome(mc::hstr(got));
    }
    if (not want.empty()) { mc::nontrivial(); }
}

static void edge_lists(bool t) {
    const std::vector<std::vector<Edge>> networks{
        {{1, 0, 1, 0}, {1, 1, 0, 0}, {2, 1, 2, 5}, {3, 2, 3, 0}, {4, 2, 0, 6}},                        // a two-way road, a triangle
        {{1, 0, 1, 0}, {2, 1, 0, 0}, {2, 1, 2, 5}, {3, 2, 3, 0}, {3, 0, 3, 0}, {4, 3, 3, 6}, {4, 3, 0, 0}},  // split roads, a loop
        {{1, 0, 1, 0}, {1, 1, 2, 0}, {1, 2, 3, 0}, {2, 3, 0, 0}, {3, 1, 3, 7}, {3, 3, 1, 7}, {4, 2, 2, 8}}};
    // the same networks with identifiers that are the same in their lower 32 bits
    auto wide = [](long id) { return id * (1L << 32) + 5; };
    auto networks_wide = networks;
    for (auto &n : networks_wide) { for (auto &e : n) { e.id = wide(e.id); } }
    auto go = [&](std::size_t n, const std::vector<std::vector<std::vector<long>>> &files, int format, const Srs &srs) {
        if (srs.code == 4326 and files.size() == 1) {
            auto files_wide = files;
            for (auto &r : files_wide[0]) { for (auto &id : r) { id = wide(id); } }
            mc::run_case([&] { std::string d = cat("wide network ", n, " format ", format, " srs ", srs.code, ">", srs.to, " ["); for (auto &r : files_wide[0]) { d += " " + mc::show(r); } return d + "]"; },
                    [&] { edge_list<Geo>(networks_wide[n], files_wide, format, srs); });
        }
        mc::run_case([&] { std::string d = cat("network ", n, " format ", format, " srs ", srs.code, ">", srs.to); for (auto &f : files) { d += " ["; for (auto &r : f) { d += " " + mc::show(r); } d += "]"; } return d; },
                [&] { if (srs.code == 4326) { edge_list<Geo>(networks[n], files, format, srs); } else { edge_list<Cart>(networks[n], files, format, srs); } });
    };
    mc::suite("lists of edges");
    for (std::size_t n = 0; n < networks.size(); ++n) {
        for (int k = 0; k <= (t ? 7 : 5); ++k) {
            auto with = [&](const std::vector<int> &v) {
                std::vector<std::vector<long>> f;
                for (int x : v) { f.push_back({x == 4 ? 9 : 1 + x}); }
                for (int format = 0; format < 2; ++format) {
                    for (auto &srs : SRSES) { if (srs.code == 4326 or k < 4) { go(n, {f}, format, srs); } }
                }
            };
            if (k == 0) { with({}); } else { mc::product(std::vector<int>(k, k > 5 ? 4 : 5), with); }
        }
        for (int k = 1; k <= 3; ++k) {
            mc::product(std::vector<int>(2 * k, k < 3 ? 5 : 4), [&](const std::vector<int> &v) {
                std::vector<std::vector<long>> f;
                for (int i = 0; i < k; ++i) { f.push_back({v[2 * i] == 4 ? 9 : 1 + v[2 * i], v[2 * i + 1] == 4 ? 9 : 1 + v[2 * i + 1]}); }
                go(n, {f}, 2, SRSES[0]);
            });
        }
        for (int a = 0; a <= 2; ++a) {
            for (int b = 0; b <= 2; ++b) {
                if (a + b == 0) { continue; }
                mc::product(std::vector<int>(a + b, 5), [&](const std::vector<int> &v) {
                    std::vector<std::vector<std::vector<long>>> fs(2);
                    for (int i = 0; i < a + b; ++i) { fs[i >= a].push_back({v[i] == 4 ? 9 : 1 + v[i]}); }
                    go(n, fs, 0, SRSES[0]);
                });
            }
        }
    }
}

// ---- the ground truth of seattle ----
static void seattle(bool t) {
    mc::suite("seattle ground truth");
    const std::vector<Edge> edges{{10, 0, 1, 0}, {11, 1, 2, 5}, {12, 2, 0, 0}, {13, 1, 1, 6}, {14, 2, 1, 7}};
    for (int ways = 0; ways < 32; ++ways) {
        for (int n = 1; n <= (t ? 5 : 4); ++n) {
            mc::product(std::vector<int>(n, 10), [&](const std::vector<int> &v) {
                int here = -1;
                bool wrong = false;
                for (int x : v) {
                    const auto &e = edges[x / 2];
                    const int from = x % 2 ? e.to : e.from, to = x % 2 ? e.from : e.to;
                    if (here >= 0 and here != from) { return; }
                    wrong |= x % 2 and not (ways >> x / 2 & 1);
                    here = to;
                }
                for (auto &srs : {SRSES[0], SRSES[1]}) {
                    mc::run_case([&] { return cat("two-way ", ways, " route ", mc::show(v), " to ", srs.to); }, [&] {
                        const std::vector<std::string> names{name(0, "network.txt"), name(1, "truth.txt")};
                        {
                            std::ofstream a{names[0]}, b{names[1]};
                            a.precision(12);
                            a << "Edge ID\tFrom Node ID\tTo Node ID\tTwo Way\tSpeed (m/s)\tVertex Count\tLINESTRING()\n";
                            b << "Edge ID\tTraversed From to To\n";
                            for (std::size_t i = 0; i < edges.size(); ++i) {
                                const auto &e = edges[i];
                                Line l{place(e.from, 4326)};
                                if (e.via) { l.push_back(place(e.via, 4326)); }
                                l.push_back(place(e.to, 4326));
                                a << e.id << "\t" << e.from << "\t" << e.to << "\t" << (ways >> i & 1) << "\t10\t" << l.size() << "\tLINESTRING(" << wkt(l) << ")\n";
                            }
                            for (int x : v) { b << edges[x / 2].id << "\t" << 1 - x % 2 << "\n"; }
                        }
                        Sink sink;
                        const auto tr = transform(srs);
                        const auto reprojector = geometry::create_point_reprojector(tr);
                        io::track::seattle_ground_truth_importer<Sink> x{names, sink, tr, reprojector};
                        bool refused = false;
                        try { x.read(); } catch (const std::runtime_error &) { refused = true; }
                        for (auto &f : names) { std::filesystem::remove(f); }
                        mc::require_eq(refused, wrong, "refused");
                        if (wrong) { return; }
                        Track want{"0", {{}}};
                        for (int q : v) {
                            const auto &e = edges[q / 2];
                            std::vector<int> l{e.from};
                            if (e.via) { l.push_back(e.via); }
                            l.push_back(e.to);
                            if (q % 2) { std::reverse(l.begin(), l.end()); }
                            for (std::size_t i = want.lines[0].empty() ? 0 : 1; i < l.size(); ++i) { want.lines[0].push_back(moved(place(l[i], 4326), srs)); }
                        }
                        std::vector<std::string> got;
                        for (auto &s : sink.tracks) { got.push_back(show(s, metres(srs))); }
                        same(got, {show(want, metres(srs))}, true);
                    });
                }
            });
        }
    }
}

int main(int argc, char **argv) {
    return mc::main_(argc, argv, [&] {
        std::string tmp = std::string{access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp"} + "/mc_imports_XXXXXX";
        if (not mkdtemp(tmp.data())) { std::abort(); }
        dir = tmp;
        const bool t = mc::g.thorough;
        csvs(t);
        gpxs(t);
        inputs(t);
        edge_lists(t);
        seattle(t);
        std::filesystem::remove_all(dir);
    });
}
