// N04: the other formats of networks become exactly the edges they describe, in whatever reference system.
#include "types/geometry/network/network_import.hpp"
#include "types/io/helper/graph_helper.hpp"
#include "types/io/helper/tag_helper.hpp"
#include "geometry/network/traits/network.hpp"
#include "geometry/algorithm/reproject.hpp"
#include "io/network/arc_node_importer.hpp"
#include "io/network/giscup_importer.hpp"
#include "io/network/melbourne_importer.hpp"
#include "io/network/seattle_importer.hpp"
#include <filesystem>
#include <fstream>
#include <set>
#include <sstream>

#include "mc.hpp"

using namespace map_matching_2;

template<typename... A>
static std::string cat(const A &... a) { std::ostringstream o; o.precision(12); (o << ... << a); return o.str(); }

namespace map_matching_2::util {
    std::string get_compiler_info() { return "compiler"; }
    const std::string version() { return "version"; }
}

using Memory = io::memory_mapped::memory_types;
using Geo = geometry::cs_geographic;
using Cart = geometry::cs_cartesian;
using Sph = geometry::cs_spherical_equatorial;
template<typename CS> using Pt = geometry::point_type<CS>;
using XY = std::pair<double, double>;

static std::string dir;

struct Srs { int code; std::string type; int to; std::string to_type; };
static std::string show(const Srs &s) { return cat(s.code, s.type, " to ", s.to, s.to_type); }

struct FNode { long id; XY at; };
struct FEdge { long id, from, to; bool two_way; std::vector<XY> via; };
struct FSet { std::vector<FNode> nodes; std::vector<FEdge> edges; };
using Spec = std::vector<FSet>;

static std::string text(const Spec &s) {
    std::string r;
    for (auto &f : s) {
        r += cat(f.nodes.size(), " nodes");
        for (auto &e : f.edges) { r += cat(" ", e.id, ":", e.from, e.two_way ? "-" : ">", e.to, "+", e.via.size()); }
        r += "; ";
    }
    return r;
}

static const XY &place(const Spec &s, const FSet &f, long id) {
    for (auto &n : f.nodes) { if (n.id == id) { return n.at; } }
    for (auto &g : s) { for (auto &n : g.nodes) { if (n.id == id) { return n.at; } } }
    mc::fail("no node ", id);
}

enum Format { ARC, MELBOURNE, SEATTLE, GISCUP };
static const char *const FORMAT[]{"arc node", "melbourne", "seattle", "giscup"};

static std::string name(std::size_t i, const char *what) { return cat(dir, "/", getpid(), "_", i, what); }

static std::vector<std::string> write(const Spec &s, Format format, const std::string &sep) {
    std::vector<std::string> names;
    auto open = [&](std::size_t i, const char *what) { names.push_back(name(i, what)); std::ofstream o{names.back()}; o.precision(12); return o; };
    for (std::size_t i = 0; i < s.size(); ++i) {
        const auto &f = s[i];
        if (format == ARC) {
            auto n = open(i, "nodes");
            for (auto &x : f.nodes) { n << x.at.first << sep << x.at.second << "\n"; }
            auto a = open(i, "arcs");
            for (auto &e : f.edges) { a << e.from - f.nodes.front().id << sep << e.to - f.nodes.front().id << "\n"; }
        } else if (format == MELBOURNE) {
            auto n = open(i, "vertex.txt");
            n << "vertex_id out_degree longitude latitude\n";
            for (auto &x : f.nodes) { n << x.id << " 1 " << x.at.first << " " << x.at.second << "\n"; }
            auto a = open(i, "edges.txt");
            a << "a comment\nedge_id from to\n";
            for (auto &e : f.edges) { a << e.id << " " << e.from << " " << e.to << " 0\n"; }
            open(i, "streets.txt");
        } else if (format == SEATTLE) {
            auto a = open(i, "network.txt");
            a << "Edge ID\tFrom Node ID\tTo Node ID\tTwo Way\tSpeed (m/s)\tVertex Count\tLINESTRING()\n";
            for (auto &e : f.edges) {
                a << e.id << "\t" << e.from << "\t" << e.to << "\t" << e.two_way << "\t13.4\t" << e.via.size() + 2 << "\tLINESTRING(";
                auto p = [&](XY x) { a << x.first << " " << x.second; };
                p(place(s, f, e.from));
                for (auto &v : e.via) { a << ", ", p(v); }
                a << ", ", p(place(s, f, e.to)), a << ")\n";
            }
        } else {
            auto n = open(i, "nodes.txt");
            for (auto &x : f.nodes) { n << x.id << " " << x.at.second << " " << x.at.first << "\n"; }
            auto a = open(i, "edges.txt");
            for (auto &e : f.edges) { a << e.id << " " << e.from << " " << e.to << " 1\n"; }
            auto g = open(i, "geometry.txt");
            for (auto &e : f.edges) {
                g << e.id << "^a name^a type^1.5";
                auto p = [&](XY x) { g << "^" << x.second << "^" << x.first; };
                p(place(s, f, e.from));
                for (auto &v : e.via) { p(v); }
                p(place(s, f, e.to)), g << "\n";
            }
        }
    }
    return names;
}

using Dump = std::multiset<std::string>;

static void same(const Dump &got, const Dump &want, const char *what) {
    if (got == want) { return; }
    std::string miss, extra;
    for (auto &s : want) { if (got.count(s) < want.count(s)) { miss = s; break; } }
    for (auto &s : got) { if (want.count(s) < got.count(s)) { extra = s; break; } }
    mc::fail(what, ": missing '", miss, "', not wanted '", extra, "', ", got.size(), " of ", want.size());
}

// rounded, which the transformation is exact enough for
static std::string at(double x, double y, bool metres) {
    char b[80];
    std::snprintf(b, sizeof b, metres ? "%.3f/%.3f" : "%.7f/%.7f", x + 0.0, y + 0.0);
    return b;
}
static std::string at(const auto &p, bool metres) { return at(p.template get<0>(), p.template get<1>(), metres); }

static boost::geometry::srs::proj4 proj4(int code) {
    return boost::geometry::srs::proj4{
            code == 4326 ? "+proj=longlat +datum=WGS84 +no_defs"
            : code == 32632 ? "+proj=utm +zone=32 +datum=WGS84 +units=m +no_defs"
            : code == 32633 ? "+proj=utm +zone=33 +datum=WGS84 +units=m +no_defs"
            : "+proj=merc +a=6378137 +b=6378137 +lat_ts=0 +lon_0=0 +x_0=0 +y_0=0 +k=1 +units=m +nadgrids=@null +wktext +no_defs"};
}

template<typename Base, typename CS>
static void check(const Spec &s, Format format, const std::string &sep, const Srs &srs) {
    const auto transform = geometry::compute_srs_transform(srs.code, srs.type, srs.to, srs.to_type);
    const bool metres = std::is_same_v<CS, Cart>;
    // what it means
    const boost::geometry::srs::transformation<> to{proj4(srs.code), proj4(transform.transform_srs_code)};
    auto given = [&](XY p) {
        Pt<CS> out{p.first, p.second};
        if (srs.code != transform.transform_srs_code or not std::is_same_v<Base, CS>) { to.forward(Pt<Base>{p.first, p.second}, out); }
        return at(out, metres);
    };
    const bool ids = format != ARC or s.size() == 1;
    Dump want, got;
    std::set<long> used;
    for (auto &f : s) {
        for (auto &e : f.edges) {
            used.insert(e.from), used.insert(e.to);
            std::vector<std::string> line{given(place(s, f, e.from))};
            if (format == SEATTLE or format == GISCUP) { for (auto &v : e.via) { line.push_back(given(v)); } }
            line.push_back(given(place(s, f, e.to)));
            for (int d = 0; d < (format == SEATTLE and e.two_way ? 2 : 1); ++d) {
                std::string t = cat("edge ", ids ? e.id : 0, " ", ids ? (d ? e.to : e.from) : 0, ">", ids ? (d ? e.from : e.to) : 0);
                for (auto &p : line) { t += " " + p; }
                want.insert(t);
                std::reverse(line.begin(), line.end());
            }
        }
    }
    for (auto &f : s) {
        for (auto &n : f.nodes) { if (format != SEATTLE or used.count(n.id)) { want.insert(cat("node ", ids ? n.id : 0, " ", given(n.at))); } }
    }
    // what is read
    using GH = io::helper::graph_helper_import_type<Pt<CS>, Memory, io::helper::import_tag_helper_type<Memory>>;
    GH gh{typename GH::graph_storage_type{}, typename GH::tag_helper_type{}};
    const auto names = write(s, format, sep);
    auto reprojector = geometry::create_point_reprojector(transform);
    if (format == ARC) { io::network::arc_node_importer x{names, gh, std::move(reprojector)}; x.read(); }
    else if (format == MELBOURNE) { io::network::melbourne_importer x{names, gh, std::move(reprojector)}; x.read(); }
    else if (format == SEATTLE) { io::network::seattle_importer x{names, gh, std::move(reprojector)}; x.read(); }
    else { io::network::giscup_importer x{names, gh, std::move(reprojector)}; x.read(); }
    for (auto &n : names) { std::filesystem::remove(n); }
    const auto &g = gh.graph();
    const auto vv = g.vertices_view();
    const auto ev = g.edges_view();
    for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
        const auto &v = vv[it].get();
        got.insert(cat("node ", ids ? static_cast<long>(v.id) : 0, " ", at(v.point, metres)));
    }
    for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) {
        const auto &e = ev[it].get();
        const auto &a = vv[g.source(it)].get(), &b = vv[g.target(it)].get();
        std::string t = cat("edge ", ids ? static_cast<long>(e.id) : 0, " ", ids ? static_cast<long>(a.id) : 0, ">", ids ? static_cast<long>(b.id) : 0);
        for (std::size_t i = 0; i < e.rich_line.size(); ++i) { t += " " + at(e.rich_line.at(i), metres); }
        got.insert(t);
        mc::require(at(e.rich_line.at(0), metres) == at(a.point, metres) and at(e.rich_line.at(e.rich_line.size() - 1), metres) == at(b.point, metres),
                "an edge does not end at its nodes");
    }
    same(got, want, "network");
    mc::outcome(mc::hstr(text(s)));
    if (want.size() > 1) { mc::nontrivial(); }
}

// positions around Karlsruhe, in the reference system of the data
static XY position(int i, int srs) {
    static const XY geo[]{{8.5, 49.25}, {8.502, 49.2525}, {8.5, 49.252}, {8.498, 49.251}, {8.501, 49.2505}, {8.503, 49.25}};
    static const XY utm[]{{463608, 5455225}, {463750, 5455500}, {463600, 5455450}, {463450, 5455340}, {463680, 5455280}, {463830, 5455225}};
    static const XY web[]{{946215, 6314000}, {946440, 6314430}, {946215, 6314340}, {945990, 6314170}, {946330, 6314090}, {946550, 6314000}};
    return srs == 32632 ? utm[i] : srs == 3857 ? web[i] : geo[i];
}

int main(int argc, char **argv) {
    return mc::main_(argc, argv, [&] {
        std::string tmp = std::string{access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp"} + "/mc_formats_XXXXXX";
        if (not mkdtemp(tmp.data())) { std::abort(); }
        dir = tmp;
        const bool t = mc::g.thorough;
        struct Kind { Srs srs; void (*f)(const Spec &, Format, const std::string &, const Srs &); };
        const std::vector<Kind> kinds{{{4326, "", -1, ""}, check<Geo, Geo>}, {{4326, "", 3857, ""}, check<Geo, Cart>}, {{4326, "", 32632, ""}, check<Geo, Cart>},
                {{4326, "", -1, "spherical-equatorial"}, check<Geo, Sph>}, {{4326, "", -1, "cartesian"}, check<Geo, Cart>}, {{32632, "", -1, ""}, check<Cart, Cart>},
                {{32632, "", 32633, ""}, check<Cart, Cart>}, {{32632, "", 4326, ""}, check<Cart, Geo>}, {{3857, "", -1, "geographic"}, check<Cart, Geo>},
                {{3857, "", 4326, "spherical-equatorial"}, check<Cart, Sph>}, {{4326, "spherical-equatorial", -1, ""}, check<Sph, Sph>},
                {{4326, "spherical-equatorial", 3857, ""}, check<Sph, Cart>}, {{4326, "spherical-equatorial", -1, "geographic"}, check<Sph, Geo>}};
        for (int format = 0; format < 4; ++format) {
            for (auto &k : kinds) {
                mc::suite(cat(FORMAT[format], ", ", show(k.srs)));
                // every network of up to so many roads
                const int pairs = 9, shapes = 3, kinds_of_edge = pairs * shapes * 2;
                for (int nodes = 1; nodes <= 3; ++nodes) {
                    for (int n = 0; n <= (t ? 3 : 2); ++n) {
                        auto go = [&](const std::vector<int> &v) {
                            Spec s(1);
                            for (int i = 0; i < nodes; ++i) { s[0].nodes.push_back({format == ARC ? i : 100 - 7 * i, position(i, k.srs.code)}); }
                            for (std::size_t j = 0; j < v.size(); ++j) {
                                const int p = v[j] % pairs, shape = v[j] / pairs % shapes, two = v[j] / pairs / shapes;
                                if (p / 3 >= nodes or p % 3 >= nodes) { return; }
                                if ((shape and format != SEATTLE and format != GISCUP) or (two and format != SEATTLE)) { return; }
                                FEdge e{format == ARC ? static_cast<long>(j) : 50 - static_cast<long>(j), s[0].nodes[p / 3].id, s[0].nodes[p % 3].id, two == 1, {}};
                                for (int q = 0; q < shape; ++q) { e.via.push_back(position(3 + q + (j == 1), k.srs.code)); }
                                s[0].edges.push_back(e);
                            }
                            const int seps = format == ARC ? 5 : 1;
                            for (int sep = 0; sep < seps; ++sep) {
                                const std::string c(1, "\t;,| "[sep]);
                                mc::run_case([&] { return cat(text(s), seps > 1 ? "separated by '" + c + "'" : ""); },
                                        [&] { k.f(s, static_cast<Format>(format), c, k.srs); });
                            }
                        };
                        if (n == 0) { go({}); } else { mc::product(std::vector<int>(n, kinds_of_edge), go); }
                    }
                }
                // two sets of files; later edges may use nodes that came before
                for (int m = 0; m < 1 << 8; ++m) {
                    Spec s(2);
                    for (int i = 0; i < 2; ++i) { for (int j = 0; j < 2 + (m & 1); ++j) { s[i].nodes.push_back({10 * i + j, position(2 * i + j, k.srs.code)}); } }
                    long id = 0;
                    const FEdge all[]{{0, 0, 1, true, {position(5, k.srs.code)}}, {0, 1, 0, false, {}}, {0, 10, 11, true, {}}, {0, 11, 10, false, {}}, {0, 10, 10, false, {position(5, k.srs.code)}}};
                    for (int i = 0; i < 5; ++i) { if (m >> (1 + i) & 1) { auto e = all[i]; e.id = id++; s[e.from >= 10].edges.push_back(e); } }
                    if (format != ARC and (m >> 6 & 1)) { s[1].edges.push_back({id++, 0, 11, false, {}}); }
                    if (format != ARC and (m >> 7 & 1)) { s[1].edges.push_back({id++, 10, 1, true, {}}); }
                    mc::run_case([&] { return text(s); }, [&] { k.f(s, static_cast<Format>(format), " ", k.srs); });
                    if (format == ARC) { continue; }
                    // and with large numbers that are equal in their lower bits
                    const auto large = [](long &i) { i = i % 10 * (1L << 32) + i / 10 * 77777777777L + 5; };
                    for (auto &set : s) {
                        for (auto &n : set.nodes) { large(n.id); }
                        for (auto &e : set.edges) { large(e.from), large(e.to), e.id = 5 + e.id * (1L << 32); }
                    }
                    mc::run_case([&] { return text(s); }, [&] { k.f(s, static_cast<Format>(format), " ", k.srs); });
                }
            }
        }
        std::filesystem::remove_all(dir);
    });
}
