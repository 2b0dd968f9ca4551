// B01: preparing by the command line and opening again gives the network described, however things are stored.
#include "program.hpp"
#include "app/match.hpp"
#include <filesystem>
#include <fstream>

#include "mc.hpp"

namespace map_matching_2::util {
    std::string get_compiler_info() { return "compiler"; }
    const std::string version() { return "version"; }
}

extern template Dump reference<Geo>(const app::prepare_data &, Exports &);
extern template Dump reference<Sph>(const app::prepare_data &, Exports &);
extern template Dump reference<Cart>(const app::prepare_data &, Exports &);
extern template void opened<Geo>(geometry::network::network_variant_type &, const app::match_data &, Dump &);
extern template void opened<Sph>(geometry::network::network_variant_type &, const app::match_data &, Dump &);
extern template void opened<Cart>(geometry::network::network_variant_type &, const app::match_data &, Dump &);

static std::string dir;
static std::string path(const std::string &name) { return cat(dir, "/", getpid(), "_", name); }

Dump lines_of(const std::string &file) {
    Dump d;
    std::ifstream in{file};
    mc::require(in.good(), "no file ", file);
    for (std::string l; std::getline(in, l);) {
        if (const auto t = l.find("timestamp"); t != std::string::npos) { l.resize(t); }
        d.insert(l);
    }
    return d;
}

static void same(const Dump &got, const Dump &want, const std::string &what) {
    if (got == want) { return; }
    std::string miss, extra;
    for (auto &s : want) { if (got.count(s) < want.count(s)) { miss = s; break; } }
    for (auto &s : got) { if (want.count(s) < got.count(s)) { extra = s; break; } }
    mc::fail(what, ": missing '", miss, "', not wanted '", extra, "', ", got.size(), " of ", want.size());
}

// roads by the nodes they visit; node 8 is where node 3 is
struct Road { std::vector<int> nodes; const char *tags; };
static const std::vector<Road> ROADS{
    {{1, 2, 3}, "highway=residential,name=a"}, {{3, 4}, "highway=residential,name=a"}, {{4, 5, 1}, "highway=secondary,oneway=yes"},
    {{8, 5}, "highway=tertiary,maxspeed=30"}, {{6, 7}, "highway=residential"}, {{4, 3}, "highway=residential,name=a"}, {{2, 5}, "highway=footway"}};
static std::pair<double, double> place(int i) {
    static const std::pair<double, double> at[]{{8.5, 49.2}, {8.501, 49.2}, {8.502, 49.201}, {8.502, 49.202}, {8.5005, 49.2015}, {8.51, 49.21}, {8.511, 49.21}, {8.502, 49.201}};
    return at[i - 1];
}

static std::vector<std::string> write(const std::string &format, int roads) {
    std::vector<std::string> names;
    auto open = [&](const char *what) { names.push_back(path(what)); std::ofstream o{names.back()}; o.precision(12); return o; };
    std::set<int> used;
    struct Edge { int from, to; };
    std::vector<Edge> edges;
    for (std::size_t i = 0; i < ROADS.size(); ++i) {
        if (not (roads >> i & 1)) { continue; }
        for (std::size_t k = 0; k < ROADS[i].nodes.size(); ++k) {
            used.insert(ROADS[i].nodes[k]);
            if (k) { edges.push_back({ROADS[i].nodes[k - 1], ROADS[i].nodes[k]}); }
        }
    }
    int n = 0;
    if (format == "osm") {
        auto o = open("network.osm");
        o << "<?xml version='1.0' encoding='UTF-8'?>\n<osm version=\"0.6\">\n";
        for (int i : used) {
            o << cat("<node id=\"", i, "\" version=\"1\" lat=\"", place(i).second, "\" lon=\"", place(i).first, "\"");
            if (i == 4) { o << "><tag k=\"highway\" v=\"traffic_signals\"/></node>\n"; } else { o << "/>\n"; }
        }
        for (std::size_t i = 0; i < ROADS.size(); ++i) {
            if (not (roads >> i & 1)) { continue; }
            o << "<way id=\"" << 20 + i << "\" version=\"1\">";
            for (int x : ROADS[i].nodes) { o << "<nd ref=\"" << x << "\"/>"; }
            std::istringstream tags{ROADS[i].tags};
            for (std::string t; std::getline(tags, t, ',');) { o << "<tag k=\"" << t.substr(0, t.find('=')) << "\" v=\"" << t.substr(t.find('=') + 1) << "\"/>"; }
            o << "</way>\n";
        }
        o << "</osm>\n";
    } else if (format == "arc-node") {
        auto a = open("nodes");
        std::map<int, int> at;
        for (int i : used) { at[i] = n++, a << place(i).first << "," << place(i).second << "\n"; }
        auto b = open("arcs");
        for (auto &e : edges) { b << at[e.from] << "," << at[e.to] << "\n"; }
    } else if (format == "melbourne") {
        auto a = open("vertex.txt");
        a << "vertex_id out_degree longitude latitude\n";
        for (int i : used) { a << i << " 1 " << place(i).first << " " << place(i).second << "\n"; }
        auto b = open("edges.txt");
        b << "a comment\nedge_id from to\n";
        for (auto &e : edges) { b << n++ << " " << e.from << " " << e.to << " 0\n"; }
        open("streets.txt");
    } else if (format == "seattle") {
        auto a = open("network.txt");
        a << "Edge ID\tFrom Node ID\tTo Node ID\tTwo Way\tSpeed (m/s)\tVertex Count\tLINESTRING()\n";
        for (auto &e : edges) {
            a << n++ << "\t" << e.from << "\t" << e.to << "\t" << n % 2 << "\t13.4\t2\tLINESTRING(" << place(e.from).first << " " << place(e.from).second << ", "
              << place(e.to).first << " " << place(e.to).second << ")\n";
        }
    } else {
        auto a = open("nodes.txt");
        for (int i : used) { a << i << " " << place(i).second << " " << place(i).first << "\n"; }
        auto b = open("edges.txt");
        for (auto &e : edges) { b << n++ << " " << e.from << " " << e.to << " 1\n"; }
        auto g = open("geometry.txt");
        n = 0;
        for (auto &e : edges) { g << n++ << "^a name^a type^1.5^" << place(e.from).second << "^" << place(e.from).first << "^" << place(e.to).second << "^" << place(e.to).first << "\n"; }
    }
    return names;
}

struct Files { std::vector<std::string> names; ~Files() { for (auto &f : names) { std::filesystem::remove_all(f); } } };

// what a run is told; bits of storage: graph import, tags import, osm vertices, osm tags, index build, graph, tags, indices
struct Run { std::string format; int roads, storage, simplify, process, srs, profile, exports, size; };
static const char *const SIMPLIFY[]{"none", "all", "osm-aware"};
static const char *const STORED[]{"memory-mapped-graph-import", "memory-mapped-tags-import", "memory-mapped-osm-vertices", "memory-mapped-osm-tags",
    "memory-mapped-index-build", "memory-mapped-graph", "memory-mapped-tags", "memory-mapped-indices"};
static const char *const PROCESS[]{"remove-unconnected", "remove-duplicate-nodes", "remove-duplicate-edges"};
static std::string show(const Run &r) {
    return cat(r.format, " roads ", r.roads, " stored ", r.storage, " simplify ", SIMPLIFY[r.simplify], " process ", r.process, " srs ", r.srs, " profile ", r.profile,
            " exports ", r.exports, " size ", r.size);
}

static void run(const Run &r, const std::string &out) {
    Files inputs{write(r.format, r.roads)};
    std::vector<std::string> a{"program", "--prepare", "--quiet", "on", "--format", r.format, "--output", out, "--simplify", SIMPLIFY[r.simplify]};
    a.erase(a.begin() + 3);
    auto say = [&](const std::string &k, const std::string &v) { a.push_back("--" + k), a.push_back(v); };
    for (auto &f : inputs.names) { say("file", f); }
    for (int i = 0; i < 8; ++i) { say(STORED[i], r.storage >> i & 1 ? "on" : "off"); }
    for (int i = 0; i < 3; ++i) { say(PROCESS[i], r.process >> i & 1 ? "on" : "off"); }
    say("initial-file-size", std::to_string(r.size));
    if (r.srs == 1) { say("transform-srs", "3857"); }
    if (r.srs == 2) { say("srs-type", "spherical-equatorial"); }
    if (r.srs == 3) { say("transform-srs-type", "spherical-equatorial"); }
    if (r.profile == 1) { say("osm-profile", "manual"), say("osm-query", "false|true,highway"), say("osm-filter", "true|false,highway=tertiary"),
            say("osm-oneway", "false|true,oneway=yes"), say("osm-oneway-reverse", "false|true,name=a"); }
    if (r.exports & 1) { say("export-nodes-csv-file", "n.csv"); }
    if (r.exports & 2) { say("export-edges-csv-file", "e.csv"); }
    if (r.exports & 4) { say("export-network-osm-file", "x.osm"); }
    std::vector<char *> argv;
    for (auto &s : a) { argv.push_back(s.data()); }
    const int argc = static_cast<int>(argv.size());
    // what is meant, and what it gives
    app::prepare_data told;
    {
        auto all = app::options_prepare(told);
        boost::program_options::variables_map vm;
        mc::require(app::process(argc, argv.data(), vm, all, app::MODE::PREPARE), "the command line is refused");
        told.correct(vm);
        told.network.output = out + ".plain";
    }
    Exports exports;
    Dump want;
    if (r.srs == 0) { want = reference<Geo>(told, exports); } else if (r.srs == 1) { want = reference<Cart>(told, exports); } else { want = reference<Sph>(told, exports); }
    std::filesystem::remove_all(out + ".plain");
    app::set_global_verbose_quiet(false, true);
    mc::require_eq(app::prepare(argc, argv.data()), 0, "result of preparing");
    std::set<std::string> files, expected{"graph.bin", "tags.bin", "index.bin"};
    for (auto &f : std::filesystem::directory_iterator(out)) { files.insert(f.path().filename().string()); }
    for (auto &[n, d] : exports) { expected.insert(n); }
    std::string all;
    for (auto &f : files) { all += f + " "; }
    mc::require(files == expected, "files in the output are ", all);
    for (auto &[n, d] : exports) { same(lines_of(out + "/" + n), d, "exported " + n); }
    app::match_data data;
    data.input.input = out;
    data.files.graph_file = "graph.bin", data.files.tags_file = "tags.bin", data.files.index_file = "index.bin";
    data.memory.mmap_graph = r.storage >> 5 & 1, data.memory.mmap_tags = r.storage >> 6 & 1, data.memory.mmap_indices = r.storage >> 7 & 1;
    data.srs.srs = r.srs == 1 ? geometry::compute_srs(3857, "") : geometry::compute_srs(4326, r.srs ? "spherical-equatorial" : "");
    for (int again = 0; again < 2; ++again) {
        Dump got;
        auto network = app::open_network(data);
        opened<Geo>(network, data, got), opened<Sph>(network, data, got), opened<Cart>(network, data, got);
        same(got, want, again ? "the network opened again" : "the network opened");
    }
    std::string sum;
    for (auto &s : want) { sum += s; }
    mc::outcome(mc::hstr(sum));
    if (not want.empty()) { mc::nontrivial(); }
}

int main(int argc, char **argv) {
    return mc::main_(argc, argv, [&] {
        std::string tmp = std::string{access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp"} + "/mc_program_XXXXXX";
        if (not mkdtemp(tmp.data())) { std::abort(); }
        dir = tmp;
        std::ostringstream sunk;
        auto *was = std::cout.rdbuf(sunk.rdbuf());
        const bool t = mc::g.thorough;
        // one after the other into the same place
        auto go = [&](const std::vector<Run> &runs) {
            mc::run_case([&] { std::string d; for (auto &r : runs) { d += show(r) + "; "; } return d; }, [&] {
                const std::string out = path("out");
                Files clean{{out, out + ".plain"}};
                for (auto &r : runs) { run(r, out); }
            });
        };
        const int size = 1 << 17;
        mc::suite("everywhere it can be stored");
        for (int storage = 0; storage < 256; ++storage) {
            for (int srs = 0; srs < 4; ++srs) {
                for (int roads : {127, 0, 3}) { go({{"osm", roads, storage, 1, 0, srs, 0, 7, size}}); }
                if (t) { go({{"osm", 95, storage, 2, 7, srs, 1, 7, 1 << 13}}); }
            }
            for (const char *f : {"arc-node", "seattle", "melbourne", "giscup"}) { go({{f, 127, storage, 1, 0, storage % 2, 0, 7, size}}); }
        }
        mc::suite("every network in every way");
        for (int roads = 0; roads < 128; ++roads) {
            for (int k = 0; k < 3 * 8; ++k) {
                for (int storage : {0, 255, 31}) {
                    if (not t and storage == 31 and k % 3 != 1) { continue; }
                    go({{"osm", roads, storage, k % 3, k / 3, 1, k / 3 % 2, 0, size}});
                    if (t) { go({{"osm", roads, storage, k % 3, k / 3, 0, 1 - k / 3 % 2, 7, size}}); }
                }
            }
        }
        mc::suite("formats");
        for (const char *f : {"arc-node", "seattle", "melbourne", "giscup"}) {
            for (int roads = 0; roads < 128; roads += t ? 1 : 3) {
                for (int k = 0; k < 3 * 8; k += t ? 1 : 5) { go({{f, roads, 255 * (k % 2), k % 3, k / 3, roads % 2, 0, 0, size}}); }
            }
        }
        mc::suite("exports");
        for (int e = 0; e < 8; ++e) {
            for (int srs = 0; srs < 4; ++srs) {
                for (int roads : {1, 127, 68}) { for (int storage : {0, 255, 32, 64, 128}) { go({{"osm", roads, storage, 1, 2, srs, 0, e, size}}); } }
            }
        }
        mc::suite("again into the same place");
        for (int a : {0, 127, 5}) {
            for (int b : {0, 127, 18}) {
                for (int s : {0, 255, 31, 224, 160}) {
                    for (int u : {0, 255, 31, 224, 160}) { go({{"osm", a, s, 1, 0, 0, 0, 0, size}, {"osm", b, u, 2, 3, 1, 0, 0, 1 << 15}}); }
                }
            }
        }
        std::cout.rdbuf(was);
        std::filesystem::remove_all(dir);
    });
}
