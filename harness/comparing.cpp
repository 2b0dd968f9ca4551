// B02: comparing by the command line compares every pair as it was asked for, each side read in its own way.
#include "app/../../src/app/compare.cpp"
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <sstream>

#include "mc.hpp"

namespace map_matching_2::util {
    std::string get_compiler_info() { return "compiler"; }
    const std::string version() { return "version"; }
}

using namespace map_matching_2;
using Geo = geometry::cs_geographic;
using Sph = geometry::cs_spherical_equatorial;
using Cart = geometry::cs_cartesian;

template<typename... A>
static std::string cat(const A &... a) { std::ostringstream o; (o << ... << a); return o.str(); }

static std::string dir;
static std::string path(const std::string &name) { return dir + "/" + std::to_string(getpid()) + "_" + name; }

struct Track { std::string id; std::vector<std::pair<double, double>> at; };   // longitude, latitude
static const std::vector<Track> TRUTHS{
    {"a", {{8.5, 49.2}, {8.501, 49.2}, {8.501, 49.201}}},
    {"b", {{8.51, 49.21}, {8.5104, 49.210009}, {8.510372, 49.210012}, {8.511, 49.21}, {8.512, 49.21}}},   // almost the same way back
    {"c", {{8.52, 49.22}, {8.52, 49.221}, {8.52, 49.2204}, {8.521, 49.2204}}},
    {"d", {{8.53, 49.23}, {8.531, 49.23}, {8.5311, 49.2301}, {8.532, 49.23005}, {8.532, 49.231}}}};
static const std::vector<Track> MATCHES{
    {"a", {{8.5, 49.2}, {8.501, 49.2}, {8.502, 49.2}}},
    {"b", {{8.51, 49.21}, {8.511, 49.210001}, {8.511003, 49.21}, {8.512, 49.21}}},
    {"c", {{8.52, 49.22}, {8.52, 49.2205}, {8.520001, 49.2204}, {8.521, 49.220405}}},
    {"d", {{8.53, 49.230003}, {8.531, 49.230002}, {8.531102, 49.230102}, {8.532, 49.230052}, {8.532002, 49.231}, {8.5325, 49.231}}},
    {"x", {{8.54, 49.24}, {8.541, 49.24}}}};

// how one side is written and read: csv lines, csv points, points without header, gpx; 0-1 geographic, 2-3 cartesian, 4-5 spherical
struct Side { int format, srs; bool named, two; int tracks, selected; };
static std::pair<double, double> coordinates(const std::pair<double, double> &p, int srs) {
    if (srs != 1 and srs != 2) { return p; }
    const double r = 6378137.0;
    auto round = [](double v) { return std::round(v * 1e4) / 1e4; };
    return {round(r * p.first * M_PI / 180), round(r * std::log(std::tan(M_PI / 4 + p.second * M_PI / 360)))};
}

struct Files { std::vector<std::string> names; ~Files() { for (auto &f : names) { std::filesystem::remove_all(f); } } };

static std::string num(double d) { char b[40]; std::snprintf(b, sizeof b, "%.12g", d); return b; }

static void write(const std::string &prefix, const std::vector<Track> &tracks, const Side &s, Files &files, std::vector<std::string> &args) {
    auto say = [&](const std::string &k, const std::string &v) { args.push_back("--" + prefix + k), args.push_back(v); };
    for (int f = 0; f < (s.two ? 2 : 1); ++f) {
        files.names.push_back(path(prefix + std::to_string(f) + (s.named ? ".in" : s.format == 3 ? ".gpx" : ".csv")));
        say("tracks", files.names.back());
        std::ofstream o{files.names.back()};
        if (s.format == 0) { o << "way;name\n"; } else if (s.format == 1) { o << "id,x,y\n"; } else if (s.format == 2) { o << "a line to skip\n"; }
        else { o << "<?xml version=\"1.0\"?>\n<gpx>\n"; }
        for (std::size_t i = 0; i < tracks.size(); ++i) {
            if (not (s.tracks >> i & 1) or (s.two and static_cast<int>(i % 2) != f)) { continue; }
            const auto &t = tracks[i];
            if (s.format == 0) { o << "LINESTRING("; } else if (s.format == 3) { o << "<trk><name>" << t.id << "</name><trkseg>"; }
            for (std::size_t k = 0; k < t.at.size(); ++k) {
                const auto [x, y] = coordinates(t.at[k], s.srs);
                if (s.format == 0) { o << (k ? "," : "") << num(x) << " " << num(y); }
                else if (s.format == 1) { o << t.id << "," << num(x) << "," << num(y) << "\n"; }
                else if (s.format == 2) { o << num(y) << "|" << t.id << "|" << num(x) << "\n"; }
                else { o << "<trkpt lat=\"" << num(y) << "\" lon=\"" << num(x) << "\"></trkpt>"; }
            }
            if (s.format == 0) { o << ");" << t.id << "\n"; } else if (s.format == 3) { o << "</trkseg></trk>\n"; }
        }
        if (s.format == 3) { o << "</gpx>\n"; }
    }
    if (s.named) { say("tracks-file-type", s.format == 3 ? "gpx" : "csv"); }
    if (s.format == 0) { say("delimiter", ";"), say("id", "name"), say("geometry", "way"), args.push_back("--" + prefix + "wkt"); }
    if (s.format == 2) { say("delimiter", "|"), say("skip-lines", "1"), args.push_back("--" + prefix + "no-header"), say("id", "1"), say("x", "2"), say("y", "0"); }
    if (s.srs == 1) { say("srs", "3857"), say("transform-srs", "4326"); }
    if (s.srs == 2) { say("srs", "3857"); }
    if (s.srs == 3) { say("transform-srs", "3857"); }
    if (s.srs == 4) { say("srs-type", "spherical-equatorial"); }
    if (s.srs == 5) { say("transform-srs", "4326"), say("transform-srs-type", "spherical-equatorial"); }
    for (std::size_t i = 0; i < tracks.size(); ++i) { if (s.selected >> i & 1) { say("selector", tracks[i].id); } }
}

static geometry::srs_transform system_of(int srs) {
    switch (srs) {
        case 0: return geometry::compute_srs_transform(4326, "", -1, "");
        case 1: return geometry::compute_srs_transform(3857, "", 4326, "");
        case 2: return geometry::compute_srs_transform(3857, "", -1, "");
        case 3: return geometry::compute_srs_transform(4326, "", 3857, "");
        case 4: return geometry::compute_srs_transform(4326, "spherical-equatorial", -1, "");
        default: return geometry::compute_srs_transform(4326, "", 4326, "spherical-equatorial");
    }
}

template<typename CS> using Multi = geometry::track::multi_track_type<geometry::point_type<CS>>;

template<typename CS>
static auto lines(const Track *t, int srs) {
    using M = typename Multi<CS>::multi_rich_line_type;
    std::vector<typename M::rich_line_type> r;
    if (t) {
        const auto reprojector = geometry::create_point_reprojector(system_of(srs));
        typename M::line_type line;
        for (auto &p : t->at) {
            const auto [x, y] = coordinates(p, srs);
            line.emplace_back(geometry::reproject_coordinates<geometry::point_type<CS>>(x, y, reprojector));
        }
        r.emplace_back(typename M::rich_line_type{std::move(line)});
    }
    return M{std::move(r)};
}

static const char *const COLUMNS[]{"id,match,ground_truth,match_length,ground_truth_length,correct_fraction,error_fraction,correct,error_added,error_missed,corrects,error_adds,error_misses",
    "error_missed,id"};

struct Run { Side truth, match; bool ignore; std::array<int, 5> tolerance; int columns, threads, output; };
static const double TOLERANCES[5][3]{{0.1, 0.6, 3}, {0.1, 20, 60}, {0.1, 0.7, 0.02}, {1, 0.3, 6}, {90, 20, 170}};
static std::string show(const Side &s) { return cat("format ", s.format, " srs ", s.srs, s.named ? " named" : "", s.two ? " two files" : "", " tracks ", s.tracks, " selected ", s.selected); }

template<typename CS>
static std::multiset<std::vector<std::string>> rows_of(const Run &r) {
    std::multiset<std::vector<std::string>> want;
    using M = typename Multi<CS>::multi_rich_line_type;
    auto there = [](const Side &s, std::size_t i) { return (s.tracks >> i & 1) and (s.selected == 0 or (s.selected >> i & 1)); };
    for (std::size_t i = 0; i < TRUTHS.size(); ++i) {
        if (not there(r.truth, i)) { continue; }
        const bool found = there(r.match, i);
        if (not found and r.ignore) { continue; }
        const M t = lines<CS>(&TRUTHS[i], r.truth.srs), m = lines<CS>(found ? &MATCHES[i] : nullptr, r.match.srs);
        geometry::line_comparator<M> cmp;
        cmp.simplifying_tolerance = TOLERANCES[0][r.tolerance[0]];
        cmp.simplifying_reverse_tolerance = TOLERANCES[1][r.tolerance[1]];
        cmp.adoption_distance_tolerance = TOLERANCES[2][r.tolerance[2]];
        cmp.split_distance_tolerance = TOLERANCES[3][r.tolerance[3]];
        cmp.split_direction_tolerance = TOLERANCES[4][r.tolerance[4]];
        const auto c = cmp.compare(t, m);
        const auto segments = [](const auto &ss) {
            using Model = geometry::models<typename M::point_type>;
            typename Model::template multi_line_type<typename Model::template line_type<>> l;
            for (const auto &s : ss) { l.emplace_back(typename Model::template line_type<>{s.first(), s.second()}); }
            return geometry::to_wkt(l);
        };
        if (r.columns) { want.insert({std::to_string(c.error_missed), TRUTHS[i].id}); continue; }
        want.insert({TRUTHS[i].id, m.wkt(), t.wkt(), std::to_string(m.has_length() ? m.length() : 0.0), std::to_string(t.has_length() ? t.length() : 0.0), std::to_string(c.correct_fraction),
            std::to_string(c.error_fraction), std::to_string(c.correct), std::to_string(c.error_added), std::to_string(c.error_missed), segments(c.corrects), segments(c.error_adds),
            segments(c.error_misses)});
        if (found) { mc::nontrivial(); }
    }
    return want;
}

static std::multiset<std::vector<std::string>> read(const std::string &file, std::vector<std::string> &header) {
    std::multiset<std::vector<std::string>> rows;
    std::ifstream in{file};
    mc::require(in.good(), "no file of the comparison");
    std::vector<std::string> row{""};
    bool quoted = false;
    for (char c; in.get(c);) {
        if (c == '"') { if (quoted and in.peek() == '"') { row.back() += static_cast<char>(in.get()); } else { quoted = not quoted; } }
        else if (quoted) { row.back() += c; }
        else if (c == ',') { row.emplace_back(); }
        else if (c == '\n') { if (header.empty()) { header = row; } else { rows.insert(row); } row = {""}; }
        else { row.back() += c; }
    }
    mc::require(row == std::vector<std::string>{""}, "the last row is cut off");
    return rows;
}

static void run(const Run &r) {
    Files files;
    const std::string out = path("out"), name = r.output ? "result.txt" : "comparison.csv";
    files.names.push_back(out);
    std::vector<std::string> a{"program", "--compare", "--output", out, "--columns", COLUMNS[r.columns], "--threads", std::to_string(r.threads)};
    if (r.output) { a.push_back("--filename"), a.push_back(name); }
    if (r.ignore) { a.push_back("--ignore-non-existent"); }
    write("compare-", TRUTHS, r.truth, files, a);
    write("match-", MATCHES, r.match, files, a);
    static const char *const names[]{"simplify-distance", "simplify-reverse", "adoption-distance", "split-distance", "split-direction"};
    for (int k = 0; k < 5; ++k) { if (r.tolerance[k]) { a.push_back(cat("--compare-", names[k], "-tolerance")), a.push_back(num(TOLERANCES[k][r.tolerance[k]])); } }
    std::multiset<std::vector<std::string>> want;
    if (r.truth.srs < 2) { want = rows_of<Geo>(r); } else if (r.truth.srs < 4) { want = rows_of<Cart>(r); } else { want = rows_of<Sph>(r); }
    std::vector<char *> argv;
    for (auto &s : a) { argv.push_back(s.data()); }
    app::set_global_verbose_quiet(false, true);
    mc::require_eq(app::compare(static_cast<int>(argv.size()), argv.data()), 0, "result of comparing");
    std::vector<std::string> header, columns;
    if (want.empty() and not std::filesystem::exists(out + "/" + name)) { mc::outcome(0); return; }
    const auto got = read(out + "/" + name, header);
    std::istringstream in{COLUMNS[r.columns]};
    for (std::string c; std::getline(in, c, ',');) { columns.push_back(c); }
    mc::require(header == columns or (want.empty() and header.empty()), "header");
    std::string sum;
    for (auto &w : want) {
        for (auto &f : w) { sum += f + ","; }
        if (got.count(w) == want.count(w)) { continue; }
        for (auto &g : got) {
            if (g.size() != w.size() or g[r.columns ? 1 : 0] != w[r.columns ? 1 : 0]) { continue; }
            for (std::size_t k = 0; k < w.size(); ++k) { mc::require(g[k] == w[k], columns[k], " of ", w[r.columns ? 1 : 0], " is ", g[k], ", want ", w[k]); }
        }
        mc::fail("no row of ", w[r.columns ? 1 : 0], " as wanted, ", got.size(), " of ", want.size());
    }
    mc::require_eq(got.size(), want.size(), "rows");
    mc::outcome(mc::hstr(sum));
}

int main(int argc, char **argv) {
    return mc::main_(argc, argv, [&] {
        std::string tmp = std::string{access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp"} + "/mc_comparing_XXXXXX";
        if (not mkdtemp(tmp.data())) { std::abort(); }
        dir = tmp;
        std::ostringstream sunk;
        auto *was = std::cout.rdbuf(sunk.rdbuf());
        const bool t = mc::g.thorough;
        auto go = [&](const Run &r) {
            mc::run_case([&] { return cat("truth ", show(r.truth), ", match ", show(r.match), r.ignore ? " ignore" : "", " tolerances ", mc::show(std::vector<int>(r.tolerance.begin(), r.tolerance.end())),
                    " columns ", r.columns, " threads ", r.threads, " output ", r.output); }, [&] { run(r); });
        };
        const std::array<int, 5> usual{};
        mc::suite("formats and systems");
        mc::product({4, 4, 3, 2, 2, 4, 4}, [&](const std::vector<int> &v) {
            const int n = v[0] + v[1] + v[2] + v[3] + v[4];
            if (not t and (v[5] + 2 * v[6] + n) % 4) { return; }
            go({{v[0], 2 * v[2] + v[3], (v[5] & 1) != 0, (v[5] & 2) != 0, 7, 0}, {v[1], 2 * v[2] + v[4], (v[6] & 1) != 0, (v[6] & 2) != 0, 27, 0}, n % 3 == 0, usual, n % 5 == 1, 1 + n % 2, n % 2});
        });
        mc::suite("tracks");
        mc::product({16, 32, 2}, [&](const std::vector<int> &v) {
            for (int k = 0; k < (t ? 16 : 2); ++k) {
                const int f = t ? k : (v[0] + 3 * v[1] + 7 * k) % 16;
                go({{f % 4, 2, false, k % 2 == 1, v[0], 0}, {f / 4, 3, false, false, v[1], 0}, v[2] == 1, usual, 0, 1 + k % 2, 0});
            }
        });
        mc::suite("tolerances");
        mc::product({3, 3, 3, 3, 3, 3}, [&](const std::vector<int> &v) {
            go({{0, 2 * v[5], false, false, 15, 0}, {1, 2 * v[5], false, false, 31, 0}, false, {v[0], v[1], v[2], v[3], v[4]}, 0, 1, 0});
            if (t) { go({{1, 2 * v[5], false, false, 15, 0}, {3, 2 * v[5] + 1, false, false, 31, 0}, false, {v[0], v[1], v[2], v[3], v[4]}, 0, 2, 0}); }
        });
        mc::suite("selectors");
        mc::product({16, 32, t ? 16 : 4}, [&](const std::vector<int> &v) {
            const int f = t ? v[2] : (v[2] * 5 + v[0] + v[1]) % 16;
            go({{f % 4, 0, false, false, 15, v[0]}, {f / 4, 1, false, false, 31, v[1]}, (v[0] + v[1]) % 2 == 1, usual, 1, 1, 0});
        });
        std::cout.rdbuf(was);
        std::filesystem::remove_all(dir);
    });
}
