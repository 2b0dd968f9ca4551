// A01: what is given on the command line and in the configuration file is what matching, comparing and preparing use.
#include <format>
#include <fstream>
#include <thread>

#include "app/general.hpp"
#include "app/options.hpp"
#include "app/settings.hpp"

#include "mc.hpp"

namespace map_matching_2::util {
    const std::string version() { return "checked"; }
}

using namespace map_matching_2;
using Fields = std::map<std::string, std::string>;
using Args = std::vector<std::pair<std::string, std::string>>;   // name, value; switches have none

static std::string dir;

template<typename T>
static std::string text(const T &v) {
    if constexpr (std::is_same_v<T, std::vector<std::string>>) {
        std::string s;
        for (auto &x : v) { s += "[" + x + "]"; }
        return s;
    } else if constexpr (std::is_same_v<T, bool>) {
        return v ? "on" : "off";
    } else {
        return std::format("{}", v);
    }
}

static std::string text_srs(const geometry::srs &s) { return std::format("{} {} {}", s.srs_code, geometry::to_string(s.srs_type), s.proj.code); }
static std::string text_srs(const geometry::srs_transform &s) {
    return std::format("{} {} {} to {} {} {}{}", s.srs_code, geometry::to_string(s.srs_type), s.proj.code, s.transform_srs_code, geometry::to_string(s.transform_srs_type),
            s.transform_proj.code, s.transform ? " transformed" : "");
}

// ---- what the options are documented to be: name, field, default, other values

struct Option {
    std::string name, field, standard;      // the default as the field shows it; "!" for none
    std::vector<std::pair<std::string, std::string>> values;    // as given, as the field shows it
    bool is_switch = false;
};

using Options = std::vector<Option>;

static Option number(const std::string &n, const std::string &f, const std::string &d, std::vector<std::string> v) {
    Option o{n, f, d, {}};
    for (auto &x : v) { o.values.emplace_back(x, x); }
    return o;
}
static Option onoff(const std::string &n, const std::string &f, bool d) {
    return {n, f, text(d), {{d ? "off" : "on", text(not d)}, {d ? "no" : "true", text(not d)}, {d ? "on" : "0", text(d)}}};
}
static Option flag(const std::string &n, const std::string &f) { return {n, f, "off", {{"", "on"}}, true}; }
static Option list(const std::string &n, const std::string &f, const std::string &d) { return {n, f, d, {{"one", "[one]"}, {"7", "[7]"}}}; }

static Options common() {
    return {flag("verbose", "all.verbose"), flag("quiet", "all.quiet")};
}
static Options work() {
    auto o = common();
    o.push_back(flag("read-line", "console.read_line"));
    o.push_back(flag("console", "console.console"));
    o.push_back(number("threads", "performance.threads", text(std::thread::hardware_concurrency()), {"1", "3"}));
    return o;
}
static void csv(Options &o, const std::string &p, const std::string &f) {
    o.push_back(number(p + "delimiter", f + "delimiter", ",", {";", "\\t"}));
    o.push_back(onoff(p + "grouped", f + "grouped", true));
    o.push_back(number(p + "skip-lines", f + "skip_lines", "0", {"1", "7"}));
    o.push_back(flag(p + "no-header", f + "no_header"));
    o.push_back(flag(p + "no-id", f + "no_id"));
    o.push_back(flag(p + "no-id-whole-file", f + "no_id_whole_file"));
    o.push_back(list(p + "id", f + "ids", "[id]"));
    o.push_back(number(p + "id-aggregator", f + "id_aggregator", "_", {"-", "x"}));
    o.push_back(flag(p + "wkt", f + "wkt"));
    o.push_back(number(p + "x", f + "x", "x", {"lon", "2"}));
    o.push_back(number(p + "y", f + "y", "y", {"lat", "3"}));
    o.push_back(number(p + "geometry", f + "geometry", "geometry", {"wkt", "4"}));
    o.push_back(list(p + "selector", f + "selectors", ""));
    o.push_back(list(p + "time", f + "time", "[time]"));
    o.push_back(number(p + "time-aggregator", f + "time_aggregator", "_", {"-", "T"}));
    o.push_back(number(p + "time-format", f + "time_format", "%FT%T%Oz", {"%F %T", "%s"}));
    o.push_back(flag(p + "no-parse-time", f + "no_parse_time"));
}

static Options match_options() {
    Options o = work();
    const auto add = [&](Option x) { o.push_back(std::move(x)); };
    add(number("graph-file", "files.graph_file", "graph.bin", {"g", "h.bin"}));
    add(number("tags-file", "files.tags_file", "tags.bin", {"t", "u.bin"}));
    add(number("index-file", "files.index_file", "index.bin", {"i", "j.bin"}));
    add(onoff("memory-mapping", "memory.memory_mapping", true));
    add(onoff("memory-mapped-graph", "memory.graph", true));
    add(onoff("memory-mapped-indices", "memory.indices", true));
    add(onoff("memory-mapped-tags", "memory.tags", true));
    add(number("output", "output.output", "", {"out", "there/at"}));
    add(number("filename", "output.filename", "matches.csv", {"f.csv", "x"}));
    add(number("columns", "output.columns", "id,aborted,duration,track,prepared,match,track_length,prepared_length,match_length", {"id,edge_ids", "match,id"}));
    add(onoff("export-edges", "output.export_edges", false));
    add(onoff("join-merges", "output.join_merges", true));
    csv(o, "", "csv.");
    add(number("candidates", "export.candidates", "", {"c.csv", "d"}));
    add(number("candidates-columns", "export.columns", "id,part_index,set_index,candidate_index,projection,distance,from,to,edge_id,is_result", {"id", "id,to"}));
    add(number("max-time", "matching.max_time", "0", {"1.5", "20"}));
    add(onoff("filter-duplicates", "matching.filter_duplicates", true));
    add(onoff("simplify-track", "matching.simplify_track", true));
    add(number("simplify-track-distance-tolerance", "matching.simplify_track_distance_tolerance", "5", {"1.25", "11"}));
    add(onoff("median-merge", "matching.median_merge", true));
    add(number("median-merge-distance-tolerance", "matching.median_merge_distance_tolerance", "10", {"2.5", "12"}));
    add(onoff("adaptive-median-merge", "matching.adaptive_median_merge", true));
    add(onoff("within-edge-turns", "matching.within_edge_turns", false));
    add(flag("a-star", "matching.a_star"));
    add(number("routing-max-distance-factor", "matching.routing_max_distance_factor", "5", {"-1", "2.5"}));
    add(onoff("candidate-adoption-siblings", "matching.candidate_adoption_siblings", true));
    add(onoff("candidate-adoption-nearby", "matching.candidate_adoption_nearby", true));
    add(onoff("candidate-adoption-reverse", "matching.candidate_adoption_reverse", false));
    add(number("candidate-search", "matching.candidate_search", "combined", {"circle", "nearest", "next"}));
    add(number("radius", "matching.radius", "200", {"50", "250", "20000"}));
    add(number("radius-upper-limit", "matching.radius_upper_limit", "10000", {"150", "500"}));
    add(number("radius-lower-limit", "matching.radius_lower_limit", "200", {"30", "700"}));
    add(onoff("adaptive-radius", "matching.adaptive_radius", true));
    add(number("k-nearest", "matching.k_nearest", "16", {"5", "1"}));
    add(number("model", "model.model", "value-iteration", {"policy-iteration", "q-learning", "viterbi"}));
    add(onoff("skip-errors", "model.skip_errors", true));
    add(number("state-size", "model.state_size", "2", {"3"}));
    add(number("discount", "model.discount", "0.99", {"0.5", "1"}));
    const std::pair<const char *, std::pair<const char *, const char *>> w[] = {{"distance", {"0.8", "0.8"}}, {"length", {"0.3", "0.1"}}, {"azimuth", {"0.5", "0.2"}},
            {"direction", {"0.6", "0.8"}}, {"turn", {"0.5", "0.6"}}};
    for (auto &[n, d] : w) {
        add(number(std::string("mdp-") + n + "-factor", std::string("mdp.") + n, d.first, {"0.25", "7"}));
        add(number(std::string("hmm-") + n + "-factor", std::string("hmm.") + n, d.second, {"0.25", "7"}));
    }
    add(number("threshold", "dynamic.threshold", "0.001", {"0.25", "2"}));
    add(number("learning-rate", "learning.learning_rate", "0.9", {"0.25", "1"}));
    add(number("epsilon", "learning.epsilon", "0.5", {"0.25", "1"}));
    add(number("early-stop-factor", "learning.early_stop_factor", "1", {"0.25", "3"}));
    add(number("max-episodes", "learning.episodes", "1000000000", {"5", "77"}));
    return o;
}

static Options compare_options() {
    Options o = work();
    const auto add = [&](Option x) { o.push_back(std::move(x)); };
    add(number("output", "output.output", "", {"out", "there/at"}));
    add(number("filename", "output.filename", "comparison.csv", {"f.csv", "x"}));
    add(number("columns", "output.columns", "id,duration,match,ground_truth,match_length,ground_truth_length,correct_fraction,error_fraction,correct,error_added,error_missed,"
            "corrects,error_adds,error_misses", {"id", "match,id"}));
    csv(o, "match-", "csv_match.");
    csv(o, "compare-", "csv_compare.");
    add(flag("ignore-non-existent", "comparison.ignore_non_existent"));
    add(number("compare-simplify-distance-tolerance", "comparison.simplifying_tolerance", "0.1", {"0.25", "3"}));
    add(number("compare-simplify-reverse-tolerance", "comparison.simplifying_reverse_tolerance", "0.1", {"0.25", "3"}));
    add(number("compare-adoption-distance-tolerance", "comparison.adoption_distance_tolerance", "0.1", {"0.25", "3"}));
    add(number("compare-split-distance-tolerance", "comparison.split_distance_tolerance", "1", {"0.25", "3"}));
    add(number("compare-split-direction-tolerance", "comparison.split_direction_tolerance", "90", {"45", "3.5"}));
    return o;
}

static Options prepare_options() {
    Options o = common();
    const auto add = [&](Option x) { o.push_back(std::move(x)); };
    add(number("format", "network.format", "osm", {"arc-node", "seattle", "melbourne", "giscup"}));
    add(number("osm-profile", "osm.profile", "car", {"manual"}));
    add(number("osm-query", "osm.query", "true", {"false|true,highway", "true|false,a=b"}));
    add(number("osm-filter", "osm.filter", "true", {"true|false,access=no|false,access=private", "false"}));
    add(number("osm-oneway", "osm.oneway", "false", {"false|true,oneway=yes|true,oneway=true", "true"}));
    add(number("osm-oneway-reverse", "osm.oneway_reverse", "false", {"false|true,oneway=reverse", "true"}));
    add(number("graph-file", "files.graph_file", "graph.bin", {"g", "h.bin"}));
    add(number("tags-file", "files.tags_file", "tags.bin", {"t", "u.bin"}));
    add(number("index-file", "files.index_file", "index.bin", {"i", "j.bin"}));
    add(number("graph-import-file", "files.graph_import_file", "tmp_graph.bin", {"gi", "hi"}));
    add(number("tags-import-file", "files.tags_import_file", "tmp_tags.bin", {"ti", "ui"}));
    add(number("index-build-file", "files.index_build_file", "tmp_index_build.bin", {"ib", "jb"}));
    add(number("osm-vertices-file", "files.osm_vertices_file", "tmp_osm_vertices.bin", {"ov", "pv"}));
    add(number("osm-tags-file", "files.osm_tags_file", "tmp_osm_tags.bin", {"ot", "pt"}));
    add(number("initial-file-size", "files.initial_size", "134217728", {"4096", "100000"}));
    add(number("export-nodes-csv-file", "export.nodes", "", {"n.csv", "m"}));
    add(number("export-edges-csv-file", "export.edges", "", {"e.csv", "m"}));
    add(number("export-network-osm-file", "export.osm", "", {"o.osm", "m"}));
    add(number("simplify", "process.simplify", "all", {"none", "osm-aware"}));
    add(onoff("remove-unconnected", "process.remove_unconnected", false));
    add(onoff("remove-duplicate-nodes", "process.remove_duplicate_nodes", false));
    add(onoff("remove-duplicate-edges", "process.remove_duplicate_edges", false));
    add(onoff("memory-mapping", "memory.memory_mapping", true));
    add(onoff("memory-mapped-graph", "memory.graph", true));
    add(onoff("memory-mapped-indices", "memory.indices", true));
    add(onoff("memory-mapped-tags", "memory.tags", true));
    add(onoff("memory-mapped-preparation", "memory.preparation", true));
    add(onoff("memory-mapped-graph-import", "memory.graph_import", true));
    add(onoff("memory-mapped-tags-import", "memory.tags_import", true));
    add(onoff("memory-mapped-index-build", "memory.index_build", true));
    add(onoff("memory-mapped-osm-vertices", "memory.osm_vertices", true));
    add(onoff("memory-mapped-osm-tags", "memory.osm_tags", true));
    return o;
}

// ---- spatial reference systems

static const std::map<int, const char *> SYSTEMS{{4326, "GEOGRAPHIC"}, {4258, "GEOGRAPHIC"}, {3857, "CARTESIAN"}, {25832, "CARTESIAN"}};

static std::string kind_of(const std::string &type) {
    return type == "geographic" ? "GEOGRAPHIC" : type == "spherical-equatorial" ? "SPHERICAL_EQUATORIAL" : type == "cartesian" ? "CARTESIAN" : "";
}

static bool get(const Args &a, const std::string &name, std::string &v) {
    for (auto &[n, x] : a) { if (n == name) { v = x; return true; } }
    return false;
}

static void want_srs(const Args &a, const std::string &p, bool transforms, Fields &f, const std::string &field, bool &error) {
    std::string v;
    const int code = get(a, p + "srs", v) ? std::stoi(v) : 4326;
    if (not SYSTEMS.contains(code)) { error = true; return; }
    std::string type = get(a, p + "srs-type", v) ? kind_of(v) : "";
    if (type.empty()) { type = SYSTEMS.at(code); }
    f[field] = std::format("{} {} {}", code, type, code);
    if (not transforms) { return; }
    int to = get(a, p + "transform-srs", v) ? std::stoi(v) : -1;
    std::string to_type = get(a, p + "transform-srs-type", v) ? kind_of(v) : "";
    if (to >= 0 and not SYSTEMS.contains(to)) { error = true; return; }
    if (to < 0 and to_type.empty()) { to = code; to_type = type; }
    else if (to < 0) { to = to_type == "GEOGRAPHIC" ? 4326 : to_type == "CARTESIAN" ? 3857 : code; }
    else if (to_type.empty()) { to_type = SYSTEMS.at(to); }
    f[field] += std::format(" to {} {} {}{}", to, to_type, to, to == code and to_type == type ? "" : " transformed");
}

// ---- files of tracks

static void want_files(const Args &a, const std::string &p, Fields &f, const std::string &field, bool &error) {
    std::string v, type;
    std::vector<std::string> files;
    for (auto &[n, x] : a) { if (n == p + "tracks") { files.push_back(x); } }
    f[field + "files"] = text(files);
    const bool typed = get(a, p + "tracks-file-type", type);
    f[field + "type"] = type;
    if (get(a, "read-line", v)) { return; }
    if (files.empty()) { error = true; return; }
    if (not typed) {
        for (auto &x : files) {
            const auto dot = x.rfind('.');
            const std::string t = dot == std::string::npos ? "" : x.substr(dot + 1);
            if (type.empty()) { type = t; }
            if (type != t) { error = true; return; }
        }
    }
    for (auto &c : type) { c = static_cast<char>(std::tolower(c)); }
    if (type != "csv" and type != "gpx" and type != "list" and type != "seattle") { error = true; return; }
    f[field + "type"] = type;
}

// ---- all fields wanted for the given options

enum Mode { MATCH, COMPARE, PREPARE };

static const Options &options_of(Mode m) {
    static const Options o[] = {match_options(), compare_options(), prepare_options()};
    return o[m];
}

static std::string shown(const Option &o, const std::string &v) {
    for (auto &[g, s] : o.values) { if (g == v) { return s; } }
    return v;
}

static Fields wanted(Mode m, const Args &a, bool &error) {
    Fields f;
    error = false;
    std::map<std::string, bool> given;
    std::string v;
    for (auto &o : options_of(m)) {
        f[o.field] = o.standard;
        given[o.name] = get(a, o.name, v);
        if (given[o.name]) { f[o.field] = shown(o, v); }
        std::size_t times = 0;
        for (auto &[n, x] : a) { times += n == o.name; }
        if (times > 1 and (o.standard.starts_with("[") or o.field.ends_with("selectors"))) {
            f[o.field].clear();
            for (auto &[n, x] : a) { if (n == o.name) { f[o.field] += "[" + x + "]"; } }
        }
    }
    if (f["all.quiet"] == "on") { f["all.verbose"] = "off"; }
    if (m != COMPARE) {
        const std::string names[] = {f["files.graph_file"], f["files.tags_file"], f["files.index_file"]};
        if (std::set<std::string>(std::begin(names), std::end(names)).size() != 3) { error = true; }
        for (auto &n : names) { if (n.empty()) { error = true; } }
        for (auto part : {"graph", "indices", "tags"}) {
            if (given["memory-mapping"] and not given[std::string("memory-mapped-") + part]) { f[std::string("memory.") + part] = f["memory.memory_mapping"]; }
        }
    }
    if (m == PREPARE) {
        bool set = given["memory-mapped-preparation"];
        if (given["memory-mapping"] and not set) { f["memory.preparation"] = f["memory.memory_mapping"]; set = true; }
        for (std::string part : {"graph-import", "tags-import", "index-build", "osm-vertices", "osm-tags"}) {
            std::string field = part;
            std::replace(field.begin(), field.end(), '-', '_');
            if (set and not given["memory-mapped-" + part]) { f["memory." + field] = f["memory.preparation"]; }
        }
        if (f["network.format"] == "seattle" and not given["remove-duplicate-nodes"]) { f["process.remove_duplicate_nodes"] = "on"; }
        const auto in = [](const std::string &x, std::initializer_list<const char *> l) { return std::any_of(l.begin(), l.end(), [&](auto y) { return x == y; }); };
        if (not in(f["network.format"], {"osm", "arc-node", "seattle", "melbourne", "giscup"})) { error = true; }
        if (not in(f["osm.profile"], {"car", "manual"})) { error = true; }
        if (not in(f["process.simplify"], {"all", "none", "osm-aware"})) { error = true; }
        want_srs(a, "", true, f, "srs", error);
    } else if (m == MATCH) {
        f["output.export_edge_ids"] = text(("," + f["output.columns"] + ",").find(",edge_ids,") != std::string::npos);
        if (f["matching.candidate_adoption_siblings"] == "off" and f["matching.candidate_adoption_nearby"] == "off" and f["matching.candidate_adoption_reverse"] == "off" and
            not given["within-edge-turns"]) { f["matching.within_edge_turns"] = "on"; }
        const double r = std::stod(f["matching.radius"]);
        if (r > std::stod(f["matching.radius_upper_limit"])) { f["matching.radius_upper_limit"] = f["matching.radius"]; }
        if (r < std::stod(f["matching.radius_lower_limit"])) { f["matching.radius_lower_limit"] = f["matching.radius"]; }
        if (f["matching.candidate_search"] == "next") { f["matching.k_nearest"] = "1"; }
        const std::vector<std::string> searches{"circle", "nearest", "combined", "next"}, models{"policy-iteration", "value-iteration", "q-learning", "viterbi"};
        if (std::find(searches.begin(), searches.end(), f["matching.candidate_search"]) == searches.end()) { error = true; }
        if (std::find(models.begin(), models.end(), f["model.model"]) == models.end()) { error = true; }
        if (f["model.state_size"] != "2" and f["model.state_size"] != "3") { error = true; }
        want_srs(a, "network-", false, f, "srs", error);
        want_srs(a, "tracks-", true, f, "srs_tracks", error);
        want_files(a, "", f, "tracks.", error);
    } else {
        want_srs(a, "match-", true, f, "srs_match", error);
        want_srs(a, "compare-", true, f, "srs_compare", error);
        want_files(a, "match-", f, "match.", error);
        want_files(a, "compare-", f, "comparison.", error);
    }
    // the settings are those of the options
    Fields all = f;
    const auto mirror = [&](const std::string &prefix, const std::string &as) {
        for (auto &[k, x] : f) { if (k.starts_with(prefix)) { all[as + k.substr(prefix.size())] = x; } }
    };
    if (m == MATCH) {
        for (auto p : {"all.", "output.", "matching.", "model.", "dynamic.", "learning."}) { mirror(p, "settings."); }
        all.erase("settings.columns");
        mirror("mdp.", "settings.mdp_");
        mirror("hmm.", "settings.hmm_");
        all["settings.console"] = f["console.console"];
        all["settings.candidates"] = f["export.candidates"];
        all["settings.srs"] = f["srs_tracks"];
        mirror("csv.", "csv_settings.");
        all.erase("csv_settings.selectors");
    } else if (m == COMPARE) {
        for (auto p : {"all.", "output.", "comparison."}) { mirror(p, "settings."); }
        for (auto p : {"columns", "files", "type"}) { all.erase(std::string("settings.") + p); }
        all["settings.console"] = f["console.console"];
        all["settings.srs_match"] = f["srs_match"];
        all["settings.srs_compare"] = f["srs_compare"];
        mirror("csv_match.", "csv_settings_match.");
        mirror("csv_compare.", "csv_settings_compare.");
        for (auto p : {"csv_settings_match.", "csv_settings_compare."}) {
            all.erase(std::string(p) + "selectors");
            for (auto q : {"time", "time_aggregator", "time_format", "no_parse_time"}) { all.erase(std::string(p) + q); }
        }
    }
    return all;
}

// ---- what the program makes of it

struct Raw {
    Fields f;
    template<typename T>
    void operator()(const std::string &n, const T &v) { f[n] = text(v); }
};

static void show_csv(Raw &r, const std::string &p, const app::csv_tracks_data &c) {
    r(p + "delimiter", c.delimiter); r(p + "grouped", c.grouped); r(p + "skip_lines", c.skip_lines); r(p + "no_header", c.no_header); r(p + "no_id", c.no_id);
    r(p + "no_id_whole_file", c.no_id_whole_file); r(p + "ids", c.ids); r(p + "id_aggregator", c.id_aggregator); r(p + "wkt", c.wkt); r(p + "x", c.x); r(p + "y", c.y);
    r(p + "geometry", c.geometry); r(p + "selectors", c.selectors); r(p + "time", c.time); r(p + "time_aggregator", c.time_aggregator); r(p + "time_format", c.time_format);
    r(p + "no_parse_time", c.no_parse_time);
}
static void show_csv(Raw &r, const std::string &p, const io::csv_settings &c, bool timed) {
    r(p + "delimiter", c.delimiter); r(p + "grouped", c.grouped); r(p + "skip_lines", c.skip_lines); r(p + "no_header", c.no_header); r(p + "no_id", c.no_id);
    r(p + "no_id_whole_file", c.no_id_whole_file); r(p + "ids", c.field_id); r(p + "id_aggregator", c.id_aggregator); r(p + "wkt", c.wkt); r(p + "x", c.field_x);
    r(p + "y", c.field_y); r(p + "geometry", c.field_geometry);
    if (timed) { r(p + "time", c.field_time); r(p + "time_aggregator", c.time_aggregator); r(p + "time_format", c.time_format); r(p + "no_parse_time", c.no_parse_time); }
}
static void show_memory(Raw &r, const app::memory_data &m) {
    r("memory.memory_mapping", m.memory_mapping); r("memory.graph", m.mmap_graph); r("memory.indices", m.mmap_indices); r("memory.tags", m.mmap_tags);
}
static void show_work(Raw &r, const app::work_data &d) {
    r("console.read_line", d.console.read_line); r("console.console", d.console.console); r("performance.threads", d.performance.threads);
}

template<typename Data, typename Describe, typename Show>
static bool run(std::vector<std::string> args, app::MODE mode, const Describe &describe, const Show &show, Fields &out) {
    std::vector<char *> argv;
    for (auto &a : args) { argv.push_back(a.data()); }
    Data data;
    auto all = describe(data);
    boost::program_options::variables_map vm;
    if (not app::process(static_cast<int>(argv.size()), argv.data(), vm, all, mode)) { return false; }
    try { data.correct(vm); } catch (std::exception &) { return false; }
    app::set_global_verbose_quiet(data.all.verbose, data.all.quiet);
    Raw r;
    r("all.verbose", data.all.verbose); r("all.quiet", data.all.quiet);
    show(r, data);
    out = r.f;
    return true;
}

static bool program(Mode m, const std::vector<std::string> &args, Fields &out) {
    if (m == MATCH) {
        return run<app::match_data>(args, app::MODE::MATCH, [](auto &d) { return app::options_match(d); }, [](Raw &r, const app::match_data &d) {
            show_work(r, d);
            r("files.graph_file", d.files.graph_file); r("files.tags_file", d.files.tags_file); r("files.index_file", d.files.index_file);
            show_memory(r, d.memory);
            const auto &o = d.match_output;
            r("output.output", o.output); r("output.filename", o.filename); r("output.columns", o.columns); r("output.export_edges", o.export_edges);
            r("output.join_merges", o.join_merges); r("output.export_edge_ids", o.export_edge_ids);
            r("tracks.files", d.tracks.files); r("tracks.type", d.tracks.file_extension);
            r.f["srs"] = text_srs(d.srs.srs); r.f["srs_tracks"] = text_srs(d.srs_tracks.srs_transform);
            show_csv(r, "csv.", d.csv);
            r("export.candidates", d.expo.candidates); r("export.columns", d.expo.candidates_columns);
            const auto &x = d.matching;
            r("matching.max_time", x.max_time); r("matching.filter_duplicates", x.filter_duplicates); r("matching.simplify_track", x.simplify_track);
            r("matching.simplify_track_distance_tolerance", x.simplify_track_distance_tolerance); r("matching.median_merge", x.median_merge);
            r("matching.median_merge_distance_tolerance", x.median_merge_distance_tolerance); r("matching.adaptive_median_merge", x.adaptive_median_merge);
            r("matching.within_edge_turns", x.within_edge_turns); r("matching.a_star", x.a_star); r("matching.routing_max_distance_factor", x.routing_max_distance_factor);
            r("matching.candidate_adoption_siblings", x.candidate_adoption_siblings); r("matching.candidate_adoption_nearby", x.candidate_adoption_nearby);
            r("matching.candidate_adoption_reverse", x.candidate_adoption_reverse); r("matching.candidate_search", x.candidate_search); r("matching.radius", x.radius);
            r("matching.radius_upper_limit", x.radius_upper_limit); r("matching.radius_lower_limit", x.radius_lower_limit); r("matching.adaptive_radius", x.adaptive_radius);
            r("matching.k_nearest", x.k_nearest);
            r("model.model", d.model.model); r("model.skip_errors", d.model.skip_errors); r("model.state_size", d.model.state_size); r("model.discount", d.model.discount);
            const auto weights = [&](const std::string &p, const app::weight_data &w) {
                r(p + "distance", w.distance_factor); r(p + "length", w.length_factor); r(p + "azimuth", w.azimuth_factor); r(p + "direction", w.direction_factor); r(p + "turn", w.turn_factor);
            };
            weights("mdp.", d.weights_mdp);
            weights("hmm.", d.weights_hmm);
            r("dynamic.threshold", d.dynamic_programming.threshold);
            r("learning.learning_rate", d.learning.learning_rate); r("learning.epsilon", d.learning.epsilon); r("learning.early_stop_factor", d.learning.early_stop_factor);
            r("learning.episodes", d.learning.episodes);
            const auto s = app::_match_settings(d);
            r("settings.verbose", s.verbose); r("settings.quiet", s.quiet); r.f["settings.srs"] = text_srs(s.tracks_srs_transform);
            r("settings.export_edges", s.export_edges); r("settings.export_edge_ids", s.export_edge_ids); r("settings.join_merges", s.join_merges); r("settings.output", s.output);
            r("settings.filename", s.filename); r("settings.candidates", s.export_candidates); r("settings.console", s.console); r("settings.max_time", s.max_time);
            r("settings.filter_duplicates", s.filter_duplicates); r("settings.simplify_track", s.simplify_track); r("settings.median_merge", s.median_merge);
            r("settings.adaptive_median_merge", s.adaptive_median_merge); r("settings.within_edge_turns", s.within_edge_turns); r("settings.a_star", s.a_star);
            r("settings.candidate_adoption_siblings", s.candidate_adoption_siblings); r("settings.candidate_adoption_nearby", s.candidate_adoption_nearby);
            r("settings.candidate_adoption_reverse", s.candidate_adoption_reverse); r("settings.adaptive_radius", s.adaptive_radius);
            r("settings.routing_max_distance_factor", s.routing_max_distance_factor); r("settings.simplify_track_distance_tolerance", s.simplify_track_distance_tolerance);
            r("settings.median_merge_distance_tolerance", s.median_merge_distance_tolerance); r("settings.radius", s.radius); r("settings.radius_upper_limit", s.radius_upper_limit);
            r("settings.radius_lower_limit", s.radius_lower_limit); r("settings.k_nearest", s.k_nearest); r("settings.skip_errors", s.skip_errors); r("settings.state_size", s.state_size);
            r("settings.discount", s.discount); r("settings.threshold", s.threshold); r("settings.learning_rate", s.learning_rate); r("settings.epsilon", s.epsilon);
            r("settings.early_stop_factor", s.early_stop_factor); r("settings.episodes", s.episodes);
            r("settings.mdp_distance", s.mdp_distance_factor); r("settings.mdp_length", s.mdp_length_factor); r("settings.mdp_azimuth", s.mdp_azimuth_factor);
            r("settings.mdp_direction", s.mdp_direction_factor); r("settings.mdp_turn", s.mdp_turn_factor); r("settings.hmm_distance", s.hmm_distance_factor);
            r("settings.hmm_length", s.hmm_length_factor); r("settings.hmm_azimuth", s.hmm_azimuth_factor); r("settings.hmm_direction", s.hmm_direction_factor);
            r("settings.hmm_turn", s.hmm_turn_factor);
            using S = matching::settings;
            r.f["settings.candidate_search"] = s.candidate_search == S::CIRCLE ? "circle" : s.candidate_search == S::NEAREST ? "nearest" : s.candidate_search == S::COMBINED ? "combined" : "next";
            r.f["settings.model"] = s.model == S::POLICY_ITERATION ? "policy-iteration" : s.model == S::VALUE_ITERATION ? "value-iteration" : s.model == S::Q_LEARNING ? "q-learning" : "viterbi";
            show_csv(r, "csv_settings.", app::_csv_tracks_settings(d.csv), true);
        }, out);
    }
    if (m == COMPARE) {
        return run<app::compare_data>(args, app::MODE::COMPARE, [](auto &d) { return app::options_compare(d); }, [](Raw &r, const app::compare_data &d) {
            show_work(r, d);
            r("output.output", d.compare_output.output); r("output.filename", d.compare_output.filename); r("output.columns", d.compare_output.columns);
            r("match.files", d.match.files); r("match.type", d.match.file_extension); r("comparison.files", d.comparison.files); r("comparison.type", d.comparison.file_extension);
            r.f["srs_match"] = text_srs(d.srs_match.srs_transform); r.f["srs_compare"] = text_srs(d.srs_compare.srs_transform);
            show_csv(r, "csv_match.", d.csv_match);
            show_csv(r, "csv_compare.", d.csv_compare);
            const auto &c = d.comparison;
            r("comparison.ignore_non_existent", c.ignore_non_existent); r("comparison.simplifying_tolerance", c.simplifying_tolerance);
            r("comparison.simplifying_reverse_tolerance", c.simplifying_reverse_tolerance); r("comparison.adoption_distance_tolerance", c.adoption_distance_tolerance);
            r("comparison.split_distance_tolerance", c.split_distance_tolerance); r("comparison.split_direction_tolerance", c.split_direction_tolerance);
            const auto s = app::_compare_settings(d);
            r("settings.verbose", s.verbose); r("settings.quiet", s.quiet); r("settings.output", s.output); r("settings.filename", s.filename); r("settings.console", s.console);
            r.f["settings.srs_match"] = text_srs(s.matches_srs_transform); r.f["settings.srs_compare"] = text_srs(s.ground_truth_srs_transform);
            r("settings.ignore_non_existent", s.ignore_non_existent); r("settings.simplifying_tolerance", s.simplifying_tolerance);
            r("settings.simplifying_reverse_tolerance", s.simplifying_reverse_tolerance); r("settings.adoption_distance_tolerance", s.adoption_distance_tolerance);
            r("settings.split_distance_tolerance", s.split_distance_tolerance); r("settings.split_direction_tolerance", s.split_direction_tolerance);
            show_csv(r, "csv_settings_match.", app::_csv_settings(d.csv_match), false);
            show_csv(r, "csv_settings_compare.", app::_csv_settings(d.csv_compare), false);
        }, out);
    }
    return run<app::prepare_data>(args, app::MODE::PREPARE, [](auto &d) { return app::options_prepare(d); }, [](Raw &r, const app::prepare_data &d) {
        r("network.format", d.network.format);
        r("osm.profile", d.osm_import.profile); r("osm.query", d.osm_import.query); r("osm.filter", d.osm_import.filter); r("osm.oneway", d.osm_import.oneway);
        r("osm.oneway_reverse", d.osm_import.oneway_reverse);
        const auto &f = d.files;
        r("files.graph_file", f.graph_file); r("files.tags_file", f.tags_file); r("files.index_file", f.index_file); r("files.graph_import_file", f.graph_import_file);
        r("files.tags_import_file", f.tags_import_file); r("files.index_build_file", f.index_build_file); r("files.osm_vertices_file", f.osm_vertices_file);
        r("files.osm_tags_file", f.osm_tags_file); r("files.initial_size", f.initial_size);
        r("export.nodes", d.expo.export_nodes_csv_file); r("export.edges", d.expo.export_edges_csv_file); r("export.osm", d.expo.export_network_osm_file);
        r("process.simplify", d.process.simplify); r("process.remove_unconnected", d.process.remove_unconnected);
        r("process.remove_duplicate_nodes", d.process.remove_duplicate_nodes); r("process.remove_duplicate_edges", d.process.remove_duplicate_edges);
        const auto &m = d.memory;
        show_memory(r, m);
        r("memory.preparation", m.mmap_preparation); r("memory.graph_import", m.mmap_graph_import); r("memory.tags_import", m.mmap_tags_import);
        r("memory.index_build", m.mmap_index_build); r("memory.osm_vertices", m.mmap_osm_vertices); r("memory.osm_tags", m.mmap_osm_tags);
        r.f["srs"] = text_srs(d.srs.srs_transform);
    }, out);
}

// ---- cases

static std::string show(const Args &a) {
    std::string s;
    for (auto &[n, v] : a) { s += " --" + n + (v.empty() ? "" : " '" + v + "'"); }
    return s;
}

static const char *NAMES[] = {"match", "compare", "prepare"};

// the options that are always needed, unless given
static Args base(Mode m, const Args &a) {
    Args b;
    std::string v;
    if (m == MATCH) { b.emplace_back("input", dir); }
    if (m == MATCH and not get(a, "tracks", v)) { b.emplace_back("tracks", "a.csv"); }
    if (m == COMPARE and not get(a, "match-tracks", v)) { b.emplace_back("match-tracks", "m.csv"); }
    if (m == COMPARE and not get(a, "compare-tracks", v)) { b.emplace_back("compare-tracks", "c.csv"); }
    if (m == PREPARE) { b.emplace_back("file", "n.osm"); b.emplace_back("output", "out"); }
    return b;
}

static void check(Mode m, const Args &cli, const Args &file, bool with_base = true) {
    Args effective = cli;
    std::string v;
    for (auto &x : file) { if (not get(cli, x.first, v)) { effective.push_back(x); } }
    const Args always = with_base ? base(m, effective) : Args{};
    effective.insert(effective.end(), always.begin(), always.end());
    const std::string config = dir + "/options." + std::to_string(getpid());
    std::vector<std::string> args{"program", std::string("--") + NAMES[m], "--config", config};
    {
        std::ofstream o(config, std::ios::trunc);
        for (auto &[n, x] : file) { o << n << "=" << (x.empty() ? "true" : x) << "\n"; }
    }
    const auto give = [&](const Args &a) {
        for (auto &[n, x] : a) {
            if (x.empty()) { args.push_back("--" + n); } else { args.push_back("--" + n + "=" + x); }
        }
    };
    give(cli);
    give(always);
    bool error = false;
    auto want = wanted(m, effective, error);
    Fields got;
    app::global = app::global_storage{};
    std::ostringstream sink;
    auto *out = std::cout.rdbuf(sink.rdbuf()), *log = std::clog.rdbuf(sink.rdbuf());
    bool ok = false;
    try { ok = program(m, args, got); } catch (...) { std::cout.rdbuf(out); std::clog.rdbuf(log); unlink(config.c_str()); throw; }
    std::cout.rdbuf(out);
    std::clog.rdbuf(log);
    unlink(config.c_str());
    mc::require(ok == not error, error ? "accepted, but should be refused" : "refused: " + sink.str().substr(0, 200));
    mc::outcome(mc::hcat(error, m));
    if (not ok) { return; }
    mc::u64 h = m;
    for (auto &[k, x] : got) {
        h = mc::hcat(h, mc::hstr(x));
        mc::require(want.contains(k), "no such field ", k);
        mc::require(want.at(k) == x, k, " is '", x, "', should be '", want.at(k), "'");
    }
    for (auto &[k, x] : want) { mc::require(got.contains(k), k, " should be '", x, "', is not there"); }
    mc::state(h);
    mc::nontrivial();
    mc::transition();
}

static void run_check(Mode m, const Args &cli, const Args &file = {}, bool with_base = true) {
    mc::run_case([&] { return std::string(NAMES[m]) + show(cli) + (file.empty() ? "" : " | in the file" + show(file)); }, [&] { check(m, cli, file, with_base); });
}

// all combinations of at most one of the values for each of the names
using Choice = std::pair<std::string, std::vector<std::string>>;
static void combine(Mode m, const std::vector<Choice> &c, bool with_base = true) {
    std::vector<int> radix;
    for (auto &x : c) { radix.push_back(static_cast<int>(x.second.size()) + 1); }
    mc::product(radix, [&](const std::vector<int> &v) {
        Args a;
        for (std::size_t i = 0; i < c.size(); ++i) { if (v[i] > 0) { a.emplace_back(c[i].first, c[i].second[v[i] - 1]); } }
        run_check(m, a, {}, with_base);
    });
}

int main(int argc, char **argv) {
    return mc::main_(argc, argv, [&] {
        char tmp[] = "/tmp/mc_options_XXXXXX";
        if (not mkdtemp(tmp)) { std::abort(); }
        dir = tmp;
        for (Mode m : {MATCH, COMPARE, PREPARE}) {
            const auto &o = options_of(m);
            const std::string name = NAMES[m];
            mc::suite("one/" + name);
            run_check(m, {});
            for (auto &x : o) {
                for (std::size_t i = 0; i < x.values.size(); ++i) {
                    const auto &v = x.values[i].first;
                    run_check(m, {{x.name, v}});
                    run_check(m, {}, {{x.name, v}});
                    for (auto &w : x.values) { if (w.first != v) { run_check(m, {{x.name, v}}, {{x.name, w.first}}); } }
                }
                if (x.standard.starts_with("[") or x.field.ends_with("selectors")) {
                    run_check(m, {{x.name, "one"}, {x.name, "two"}});
                    run_check(m, {{x.name, "two"}, {x.name, "one"}, {x.name, "one"}});
                    run_check(m, {}, {{x.name, "two"}, {x.name, "one"}});
                }
            }
            mc::suite("two/" + name);
            for (std::size_t i = 0; i < o.size(); ++i) {
                for (std::size_t j = i + 1; j < o.size(); ++j) {
                    for (auto &x : o[i].values) {
                        for (auto &y : o[j].values) {
                            run_check(m, {{o[i].name, x.first}, {o[j].name, y.first}});
                            run_check(m, {{o[j].name, y.first}}, {{o[i].name, x.first}});
                        }
                    }
                }
            }
            if (not mc::g.thorough) { continue; }
            mc::suite("three/" + name);
            for (std::size_t i = 0; i < o.size(); ++i) {
                for (std::size_t j = i + 1; j < o.size(); ++j) {
                    for (std::size_t k = j + 1; k < o.size(); ++k) {
                        run_check(m, {{o[i].name, o[i].values[0].first}, {o[j].name, o[j].values[0].first}}, {{o[k].name, o[k].values[0].first}});
                        run_check(m, {{o[k].name, o[k].values.back().first}, {o[j].name, o[j].values.back().first}}, {{o[i].name, o[i].values.back().first}});
                    }
                }
            }
        }
        mc::suite("memory/match");
        const auto both = [](const char *n) { return Choice{n, {"on", "off"}}; };
        combine(MATCH, {both("memory-mapping"), both("memory-mapped-graph"), both("memory-mapped-indices"), both("memory-mapped-tags")});
        mc::suite("memory/prepare");
        std::vector<Choice> c{both("memory-mapping"), both("memory-mapped-graph"), both("memory-mapped-indices"), both("memory-mapped-tags"), both("memory-mapped-preparation")};
        std::vector<Choice> d{both("memory-mapped-graph-import"), both("memory-mapped-tags-import"), both("memory-mapped-index-build"), both("memory-mapped-osm-vertices"),
                both("memory-mapped-osm-tags")};
        c.insert(c.end(), d.begin(), d.end());
        combine(PREPARE, c);
        mc::suite("search");
        combine(MATCH, {{"radius", {"50", "200", "300", "20000"}}, {"radius-upper-limit", {"100", "250"}}, {"radius-lower-limit", {"40", "260"}},
                {"candidate-search", {"circle", "nearest", "next", "nearby"}}, {"k-nearest", {"7"}}, both("adaptive-radius")});
        mc::suite("turns");
        combine(MATCH, {both("candidate-adoption-siblings"), both("candidate-adoption-nearby"), both("candidate-adoption-reverse"), both("within-edge-turns"), {"quiet", {""}},
                {"console", {""}}});
        mc::suite("model");
        combine(MATCH, {{"model", {"policy-iteration", "value-iteration", "q-learning", "viterbi", "mdp"}}, {"state-size", {"0", "1", "2", "3", "4"}}, both("skip-errors")});
        mc::suite("files");
        for (Mode m : {MATCH, PREPARE}) {
            const std::vector<std::string> n{"graph.bin", "tags.bin", "index.bin", "x"};
            combine(m, {{"graph-file", n}, {"tags-file", n}, {"index-file", n}});
        }
        mc::suite("tracks");
        const std::vector<std::string> files{"a.csv", "/d.x/b.csv", "c.gpx", "e.txt", "g.list", "s.seattle", "u.CSV"}, types{"", "csv", "gpx", "list", "seattle", "CSV", "text"};
        const auto suffix = [](std::string f) { f = f.substr(f.rfind('.') + 1); for (auto &x : f) { x = static_cast<char>(std::tolower(x)); } return f; };
        for (int n = 0; n <= 3; ++n) {
            std::vector<int> radix(n, static_cast<int>(files.size()));
            radix.push_back(static_cast<int>(types.size()));
            radix.push_back(2);
            mc::product(radix, [&](const std::vector<int> &v) {
                const auto args = [&](const std::string &p) {
                    Args a;
                    for (int i = 0; i < n; ++i) { a.emplace_back(p + "tracks", files[v[i]]); }
                    if (v[n] > 0) { a.emplace_back(p + "tracks-file-type", types[v[n]]); }
                    return a;
                };
                // whether A.csv and b.CSV are of the same type is left open
                for (int i = 1; i < n; ++i) { if (v[i] != v[i - 1] and suffix(files[v[i]]) == suffix(files[v[i - 1]]) and (v[i] == 6 or v[i - 1] == 6)) { return; } }
                Args m{{"input", dir}}, rl;
                const auto own = args("");
                m.insert(m.end(), own.begin(), own.end());
                if (v[n + 1]) { m.emplace_back("read-line", ""); rl.emplace_back("read-line", ""); }
                run_check(MATCH, m, {}, false);
                for (std::string side : {"match-", "compare-"}) {
                    if (n == 3 and side == "match-") { continue; }
                    Args a = args(side);
                    a.emplace_back((side == "match-" ? "compare-" : "match-") + std::string("tracks"), "o.gpx");
                    a.insert(a.end(), rl.begin(), rl.end());
                    run_check(COMPARE, a, {}, false);
                }
            });
        }
        mc::suite("systems");
        const std::vector<std::string> codes{"4326", "4258", "3857", "25832", "-1"}, kinds{"geographic", "spherical-equatorial", "cartesian"};
        const std::vector<std::string> to{"4326", "3857", "25832", "-1"};
        combine(MATCH, {{"network-srs", codes}, {"network-srs-type", kinds}});
        combine(MATCH, {{"tracks-srs", codes}, {"tracks-srs-type", kinds}, {"tracks-transform-srs", to}, {"tracks-transform-srs-type", kinds}});
        combine(COMPARE, {{"match-srs", codes}, {"match-srs-type", kinds}, {"match-transform-srs", to}, {"match-transform-srs-type", kinds}});
        combine(COMPARE, {{"compare-srs", codes}, {"compare-srs-type", kinds}, {"compare-transform-srs", to}, {"compare-transform-srs-type", kinds}});
        combine(PREPARE, {{"srs", codes}, {"srs-type", kinds}, {"transform-srs", to}, {"transform-srs-type", kinds}});
        mc::suite("modes");
        for (int bits = 0; bits < 16; ++bits) {
            for (int file = 0; file < 16; ++file) {
                mc::run_case([&] { return "modes " + std::to_string(bits) + " in the file " + std::to_string(file); }, [&] {
                    const char *names[] = {"prepare", "match", "server", "compare"};
                    const std::string config = dir + "/modes." + std::to_string(getpid());
                    std::vector<std::string> args{"program", "--config=" + config, "--unknown=7"};
                    std::ofstream o(config, std::ios::trunc);
                    for (int i = 0; i < 4; ++i) {
                        if (bits & (1 << i)) { args.push_back(std::string("--") + names[i]); }
                        if (file & (1 << i)) { o << names[i] << "=true\n"; }
                    }
                    o << "radius=7\n";
                    o.close();
                    std::vector<char *> av;
                    for (auto &a : args) { av.push_back(a.data()); }
                    app::mode_data data;
                    auto all = app::options_mode(data);
                    boost::program_options::variables_map vm;
                    std::ostringstream sink;
                    auto *out = std::cout.rdbuf(sink.rdbuf()), *log = std::clog.rdbuf(sink.rdbuf());
                    const bool parsed = app::process(static_cast<int>(av.size()), av.data(), vm, all, app::MODE::NONE);
                    bool ok = parsed;
                    if (parsed) { try { data.correct(vm); } catch (std::exception &) { ok = false; } }
                    std::cout.rdbuf(out);
                    std::clog.rdbuf(log);
                    unlink(config.c_str());
                    const int set = bits | file;
                    const bool one = set and (set & (set - 1)) == 0;
                    mc::require(ok == one, "modes: ", ok ? "accepted" : "refused");
                    if (one) {
                        const app::MODE want[] = {app::MODE::PREPARE, app::MODE::MATCH, app::MODE::SERVER, app::MODE::COMPARE};
                        for (int i = 0; i < 4; ++i) { if (set == 1 << i) { mc::require(data.global.mode == want[i], "mode ", static_cast<int>(data.global.mode)); } }
                    }
                    mc::state(mc::hcat(set, 77));
                    mc::outcome(mc::hcat(ok, 99));
                    mc::transition();
                });
            }
        }
        rmdir(dir.c_str());
    });
}
