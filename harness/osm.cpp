// O01: roads of OpenStreetMap data become exactly the edges their nodes, tags and directions say. X01: an exported network imported again is the same.
#ifdef FILES
#include "moving_map.hpp"
#include "fault_file.hpp"
#endif

#include "types/geometry/network/network_import.hpp"
#include "types/geometry/network/network.hpp"
#include "types/io/helper/index_helper.hpp"
#include "types/io/helper/graph_helper.hpp"
#include "types/io/helper/tag_helper.hpp"
#include "types/io/helper/osm_handler_helper.hpp"
#include "types/io/network/osm_handler.hpp"
#include "types/io/network/osm_importer.hpp"
#include "io/network/osm_car_importer.hpp"
#include "io/network/osm_manual_importer.hpp"
#include "io/network/osm_exporter.hpp"
#include "geometry/network/traits/network.hpp"
#include "geometry/algorithm/reproject.hpp"
#include "flat_map_serialization.hpp"
#include <boost/serialization/vector.hpp>
#include <boost/serialization/unique_ptr.hpp>
#include <osmium/builder/attr.hpp>
#include <osmium/builder/osm_object_builder.hpp>
#include <osmium/io/any_input.hpp>
#include <osmium/io/any_output.hpp>
#include <filesystem>
#include <optional>
#include <set>
#include <sstream>

#include "mc.hpp"

using namespace map_matching_2;
namespace st = io::memory_mapped::storage;

template<typename... A>
static std::string cat(const A &... a) { std::ostringstream o; (o << ... << a); return o.str(); }

namespace map_matching_2::util {
    std::string get_compiler_info() { return "compiler"; }
    const std::string version() { return "version"; }
}

using Memory = io::memory_mapped::memory_types;
using File = io::memory_mapped::file_types;
using Geo = geometry::cs_geographic;
template<typename CS> using Pt = geometry::point_type<CS>;

template<typename CS, typename G, typename T>
using GraphHelper = io::helper::graph_helper_import_type<Pt<CS>, G, io::helper::import_tag_helper_type<T>>;
template<typename CS, typename O, typename T>
using OsmHelper = io::helper::osm_handler_helper_type<Pt<CS>, O, io::helper::import_tag_helper_type<T>>;

using Tag = std::pair<std::string, std::string>;
using Tags = std::vector<Tag>;
static std::string dir;

// what is imported
struct SNode { long id; std::pair<double, double> at; Tags tags; bool visible = true; };
struct SWay { long id; std::vector<long> refs; Tags tags; bool visible = true; };
struct SFile { std::vector<SNode> nodes; std::vector<SWay> ways; };

static std::string text(const Tags &t) { std::string s; for (auto &[k, v] : t) { s += k + "=" + v + ","; } return s; }
static std::string text(const std::vector<SFile> &fs) {
    std::string s;
    for (auto &f : fs) {
        s += "file:";
        for (auto &n : f.nodes) { s += cat(" n", n.id, n.visible ? "" : "!", "(", n.at.first, " ", n.at.second, ")", text(n.tags)); }
        for (auto &w : f.ways) { s += cat(" w", w.id, w.visible ? "" : "!", "[", [&] { std::string r; for (auto i : w.refs) { r += cat(i, " "); } return r; }(), "]", text(w.tags)); }
        s += "; ";
    }
    return s;
}

using OneTag = std::pair<const char *, const char *>;
static std::vector<OneTag> raw(const Tags &t) { std::vector<OneTag> v; for (auto &[k, w] : t) { v.emplace_back(k.c_str(), w.c_str()); } return v; }

static osmium::memory::Buffer buffer_of(const SFile &f) {
    using namespace osmium::builder::attr;
    osmium::memory::Buffer b{1 << 12, osmium::memory::Buffer::auto_grow::yes};
    for (auto &n : f.nodes) {
        osmium::builder::add_node(b, _id(n.id), _location(n.at.first, n.at.second), _tags(raw(n.tags)), _deleted(not n.visible));
    }
    for (auto &w : f.ways) {
        osmium::builder::add_way(b, _id(w.id), _nodes(w.refs), _tags(raw(w.tags)), _deleted(not w.visible));
    }
    return b;
}

// a rule list: the first rule a tag matches decides, otherwise the default
struct Rule { bool result; std::string key; std::optional<std::string> value; };
struct Rules {
    bool otherwise = false;
    std::vector<Rule> rules;

    bool operator()(const Tag &t) const {
        for (auto &r : rules) { if (r.key == t.first and (not r.value or *r.value == t.second)) { return r.result; } }
        return otherwise;
    }

    bool any(const Tags &ts) const { return std::any_of(ts.begin(), ts.end(), [&](auto &t) { return (*this)(t); }); }
    bool all(const Tags &ts) const { return std::all_of(ts.begin(), ts.end(), [&](auto &t) { return (*this)(t); }); }

    std::string str() const {
        std::string s = otherwise ? "true" : "false";
        for (auto &r : rules) { s += cat("|", r.result ? "true" : "false", ",", r.key, r.value ? "=" + *r.value : ""); }
        return s;
    }
};

struct Profile { Rules query, filter, oneway, reverse; };

static const Profile CAR = [] {
    Profile p;
    for (auto *v : {"footway", "pedestrian", "steps", "bridleway", "construction", "cycleway", "path", "bus_guideway", "platform"}) {
        p.query.rules.push_back({false, "highway", v});
    }
    p.query.rules.push_back({true, "highway", std::nullopt});
    p.filter.otherwise = true;
    for (auto *v : {"yes", "true", "1"}) { p.oneway.rules.push_back({true, "oneway", v}); }
    p.oneway.rules.push_back({true, "junction", "roundabout"});
    p.oneway.rules.push_back({true, "highway", "motorway"});
    for (auto *v : {"-1", "reverse"}) { p.reverse.rules.push_back({true, "oneway", v}); }
    return p;
}();

static std::string num(double d) { char b[40]; std::snprintf(b, sizeof b, "%.7f", d); return std::string{b} == "-0.0000000" ? "0.0000000" : b; }
static std::string at(const auto &p) { return num(p.template get<0>()) + "/" + num(p.template get<1>()); }

using Dump = std::multiset<std::string>;

static void same(const Dump &got, const Dump &want, const char *what) {
    if (got == want) { return; }
    std::string miss, extra;
    for (auto &s : want) { if (got.count(s) < want.count(s)) { miss = s; break; } }
    for (auto &s : got) { if (want.count(s) < got.count(s)) { extra = s; break; } }
    mc::fail(what, ": missing '", miss, "', not wanted '", extra, "', ", got.size(), " of ", want.size());
}

// ---------------------------------------------------------------- O01
// what the data means
static Dump meaning(const std::vector<SFile> &files, const Profile &p) {
    Dump d;
    std::map<long, SNode> nodes;
    std::set<long> used;
    std::map<long, Tags> ways;
    for (auto &f : files) {
        for (auto &n : f.nodes) { if (n.visible) { nodes.emplace(n.id, n); } }
        for (auto &w : f.ways) {
            if (not w.visible or not p.query.any(w.tags) or not p.filter.all(w.tags)) { continue; }
            const Tags tags = ways.emplace(w.id, w.tags).first->second;
            for (auto r : w.refs) { if (nodes.count(r)) { used.insert(r); } }
            const bool reverse = p.reverse.any(w.tags), oneway = p.oneway.any(w.tags) or reverse;
            for (std::size_t i = 0; i + 1 < w.refs.size(); ++i) {
                const long a = w.refs[i], b = w.refs[i + 1];
                if (a == b or not nodes.count(a) or not nodes.count(b)) { continue; }
                auto edge = [&](long s, long t) {
                    auto n = [&](long x) { return num(nodes[x].at.first) + "/" + num(nodes[x].at.second); };
                    d.insert(cat("edge ", w.id, " ", s, ">", t, " ", n(s), " ", n(t), " ", text(tags)));
                };
                if (not reverse) { edge(a, b); }
                if (reverse or not oneway) { edge(b, a); }
            }
        }
    }
    for (auto r : used) { d.insert(cat("node ", r, " ", num(nodes[r].at.first), "/", num(nodes[r].at.second), " ", text(nodes[r].tags))); }
    return d;
}

template<typename T>
static std::string tag_text(const T &tags, const auto &ids) {
    std::string s;
    for (auto i : ids) { auto [k, v] = tags.tag(i); s += k + "=" + v + ","; }
    return s;
}

template<typename GH>
static Dump dump(const GH &gh) {
    Dump d;
    const auto &g = gh.graph();
    const auto &tags = gh.tag_helper();
    const auto vv = g.vertices_view();
    const auto ev = g.edges_view();
    for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
        const auto &v = vv[it].get();
        d.insert(cat("node ", v.id, " ", at(v.point), " ", tag_text(tags, tags.node_tags(v.id))));
    }
    for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) {
        const auto &e = ev[it].get();
        const auto s = vv[g.source(it)].get().id, t = vv[g.target(it)].get().id;
        const auto &r = e.rich_line;
        mc::require_eq(r.size(), 2u, "points of an imported edge");
        if (s == t) { continue; }
        d.insert(cat("edge ", e.id, " ", s, ">", t, " ", at(r.at(0)), " ", at(r.at(1)), " ", tag_text(tags, tags.edge_tags(e.id))));
    }
    return d;
}

template<typename H>
static H make_tags([[maybe_unused]] const std::string &name, [[maybe_unused]] std::size_t size) {
    if constexpr (io::helper::is_mmap_tag_helper<H>) {
        return H{typename H::tag_storage_type{dir, name, st::DESTROY_AND_CREATE, size, st::DESTROY_ON_CLOSE, st::DO_NOT_SHRINK_ON_CLOSE}};
    } else { return H{}; }
}

template<typename GH>
static GH make_graph([[maybe_unused]] const std::string &name, [[maybe_unused]] std::size_t size) {
    using S = typename GH::graph_storage_type;
    auto tags = make_tags<typename GH::tag_helper_type>("tags_" + name, size);
    if constexpr (io::helper::is_mmap_graph_helper<GH>) {
        return GH{S{dir, name, st::DESTROY_AND_CREATE, size, st::DESTROY_ON_CLOSE, st::DO_NOT_SHRINK_ON_CLOSE}, std::move(tags)};
    } else { return GH{S{}, std::move(tags)}; }
}

template<typename OH, typename GH>
static auto make_handler(GH &gh, const geometry::srs_transform &srs, [[maybe_unused]] std::size_t size) {
    auto tags = make_tags<typename OH::tag_helper_type>("tags_osm.bin", size);
    auto rep = geometry::create_point_reprojector(srs);
    using S = typename OH::osm_handler_storage_type;
    using R = io::network::osm_handler<GH, OH>;
    if constexpr (io::helper::is_mmap_osm_handler_helper<OH>) {
        return std::make_unique<R>(gh, std::move(rep), OH{S{dir, "osm.bin", st::DESTROY_AND_CREATE, size, st::DESTROY_ON_CLOSE}, std::move(tags)});
    } else { return std::make_unique<R>(gh, std::move(rep), OH{S{}, std::move(tags)}); }
}

static const geometry::srs_transform &wgs84() { static const auto s = geometry::compute_srs_transform(4326, "", -1, ""); return s; }

// imports, by name of the files or as they are
static void import(auto &handler, const std::vector<SFile> &files, const std::vector<std::string> &names, const Profile *manual) {
    if (manual) {
        io::network::osm_manual_importer imp{names, handler, manual->query.str(), manual->filter.str(), manual->oneway.str(), manual->reverse.str()};
        imp.read();
    } else {
        io::network::osm_car_importer imp{names, handler};
        imp.read();
    }
    if (names.empty()) { for (auto &f : files) { auto b = buffer_of(f); osmium::apply(b, handler); } }
}

struct Imported { Dump d; };

template<typename GT = Memory, typename TT = Memory, typename OT = Memory, typename OTT = Memory>
static Dump read(const std::vector<SFile> &files, const Profile *manual, const std::vector<std::string> &names = {}, std::size_t size = 32768) {
    using GH = GraphHelper<Geo, GT, TT>;
    auto gh = std::make_unique<GH>(make_graph<GH>("import.bin", size));
    auto handler = make_handler<OsmHelper<Geo, OT, OTT>>(*gh, wgs84(), size);
    import(*handler, files, names, manual);
    handler.reset();
    return dump(*gh);
}

static void check(const std::vector<SFile> &files, const Profile *manual = nullptr) {
    const Dump want = meaning(files, manual ? *manual : CAR);
    if (want.size() > 1) { mc::nontrivial(); }
    std::string all;
    for (auto &s : want) { all += s; }
    mc::outcome(std::hash<std::string>{}(all));
    same(read(files, manual), want, "imported");
}

static const std::pair<double, double> AT[]{{8.5, 49.25}, {8.5, 49.25}, {8.5015, 49.25}, {8.501, 49.2512345}, {-0.0000001, 0}};
static const std::vector<Tags> NODE_TAGS{{}, {{"highway", "crossing"}}, {}, {{"a", "1"}, {"b", "2"}}};

static SNode node(long id) { return {id, AT[id], NODE_TAGS[id % 4]}; }

static const std::vector<Tags> ROADS{
        {{"highway", "residential"}}, {{"highway", "residential"}, {"oneway", "yes"}}, {{"highway", "residential"}, {"oneway", "-1"}},
        {{"highway", "motorway"}}, {{"highway", "footway"}}, {},
        {{"oneway", "true"}, {"highway", "primary"}}, {{"highway", "service"}, {"oneway", "1"}}, {{"oneway", "reverse"}, {"highway", "service"}},
        {{"highway", "service"}, {"oneway", "no"}}, {{"highway", "service"}, {"junction", "roundabout"}},
        {{"highway", "service"}, {"junction", "roundabout"}, {"oneway", "-1"}}, {{"highway", "motorway"}, {"oneway", "no"}},
        {{"highway", "motorway"}, {"oneway", "reverse"}}, {{"highway", "path"}, {"oneway", "yes"}}, {{"oneway", "yes"}},
        {{"building", "yes"}, {"highway", "steps"}}, {{"name", "highway"}}, {{"name", "A road"}, {"highway", "road"}, {"access", "no"}},
        {{"highway", "cycleway"}}, {{"highway", "motorway_link"}}, {{"junction", "circular"}, {"highway", "tertiary"}}};

static void refs(std::size_t max, const std::vector<long> &alphabet, const std::function<void(const std::vector<long> &)> &f) {
    for (std::size_t n = 0; n <= max; ++n) {
        if (n == 0) { f({}); continue; }
        mc::product(std::vector<int>(n, static_cast<int>(alphabet.size())), [&](const std::vector<int> &v) {
            std::vector<long> r;
            for (int i : v) { r.push_back(alphabet[i]); }
            f(r);
        });
    }
}

static const std::vector<std::vector<long>> ORDERS{{}, {1}, {2}, {3}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 2},
        {1, 2, 3}, {1, 3, 2}, {2, 1, 3}, {2, 3, 1}, {3, 1, 2}, {3, 2, 1}};

static SFile file(const std::vector<long> &order) { SFile f; for (auto i : order) { f.nodes.push_back(node(i)); } return f; }

static void run(const std::vector<SFile> &fs, const Profile *manual = nullptr) {
    mc::run_case([&] { return text(fs) + (manual ? cat("query ", manual->query.str(), " filter ", manual->filter.str(), " oneway ", manual->oneway.str(),
            " reverse ", manual->reverse.str()) : ""); }, [&] { check(fs, manual); });
}

static void ways(bool t) {
    mc::suite("one road");
    refs(t ? 5 : 4, {1, 2, 3, 9}, [&](const auto &r) {
        for (auto &o : ORDERS) {
            if (not t and r.size() > 3 and o.size() < 3) { continue; }
            for (std::size_t k = 0; k < (r.size() < 4 ? ROADS.size() : 4); ++k) {
                SFile f = file(o);
                f.ways.push_back({7, r, ROADS[k]});
                run({f});
            }
        }
    });
    mc::suite("two roads");
    refs(t ? 3 : 2, {1, 2, 3}, [&](const auto &r1) {
        refs(3, {1, 2, 3}, [&](const auto &r2) {
            for (int k1 = 0; k1 < 5; ++k1) {
                for (int k2 = 0; k2 < 5; ++k2) {
                    for (int id = 6; id < 9; ++id) {
                        if (id == 7 and k1 != k2) { continue; }   // the same road again
                        SFile f = file({1, 2, 3});
                        f.ways.push_back({7, r1, ROADS[k1]});
                        f.ways.push_back({id, r2, ROADS[k2]});
                        run({f});
                    }
                }
            }
        });
    });
    mc::suite("deleted and repeated");
    refs(2, {1, 2, 3}, [&](const auto &r1) {
        for (int m = 0; m < 32; ++m) {
            for (long again = 0; again <= 3; ++again) {
                SFile f = file({1, 2, 3});
                for (int i = 0; i < 3; ++i) { f.nodes[i].visible = m >> i & 1; }
                if (again) { f.nodes.push_back({again, {10, 10}, {{"again", "yes"}}}); }
                f.ways.push_back({7, r1, ROADS[0], (m >> 3 & 1) != 0});
                f.ways.push_back({8, {1, 2, 3}, ROADS[1], (m >> 4 & 1) != 0});
                run({f});
            }
        }
    });
    mc::suite("large ids");
    // numbers as they are in use, equal in their lower bits
    const long big = 1L << 32;
    for (long shift : {big, 2 * big, 1L << 40, 11111111111L}) {
        refs(3, {1, 1 + shift, 2 + shift, 3}, [&](const auto &r) {
            for (int k = 0; k < 3; ++k) {
                SFile f;
                for (long i : {1 + shift, 3L, 1L, 2 + shift}) {
                    SNode n = node(i > 5 ? i - shift : i);
                    n.id = i;
                    if (i > 5) { n.at.first += 0.5; n.tags = {{"large", "yes"}}; }
                    f.nodes.push_back(n);
                }
                f.ways.push_back({7 + shift, r, ROADS[k]});
                f.ways.push_back({7, {3, 2 + shift, 1}, ROADS[(k + 1) % 3]});
                run({f});
            }
        });
    }
    mc::suite("two files");
    for (auto &o1 : ORDERS) {
        for (auto &o2 : ORDERS) {
            refs(2, {1, 2, 3}, [&](const auto &r) {
                SFile a = file(o1), b = file(o2);
                for (auto &n : b.nodes) { n.at.first += 1, n.tags = {{"second", "file"}}; }
                for (auto i : r) { if (std::find(o1.begin(), o1.end(), i) == o1.end()) { return; } }
                a.ways.push_back({7, r, ROADS[0]});
                b.ways.push_back({8, {1, 2, 3, 1}, ROADS[1]});
                b.ways.push_back({7, r, ROADS[0]});
                run({a, b});
            });
        }
    }
}

static void rules(bool t) {
    std::vector<Rule> alphabet;
    for (auto *k : {"highway", "b"}) {
        for (auto v : {std::optional<std::string>{}, std::optional<std::string>{"1"}, std::optional<std::string>{"x=y:z w"}}) {
            for (bool r : {false, true}) { alphabet.push_back({r, k, v}); }
        }
    }
    const std::vector<Tags> lists{{}, {{"highway", "1"}}, {{"highway", "x=y:z w"}}, {{"b", "1"}}, {{"b", "x=y:z w"}}, {{"b", "2"}, {"highway", "1"}},
            {{"highway", "3"}, {"b", "x=y:z w"}}, {{"c", "1"}, {"b", "1"}}, {{"highwayx", "1"}}};
    mc::suite("rules");
    for (int otherwise = 0; otherwise < 2; ++otherwise) {
        for (int n = 0; n <= (t ? 3 : 2); ++n) {
            auto go = [&](const std::vector<int> &v) {
                Rules r;
                r.otherwise = otherwise;
                for (int i : v) { r.rules.push_back(alphabet[i]); }
                Rules yes, no;
                yes.otherwise = true;
                for (auto &l : lists) {
                    SFile f = file({1, 2});
                    f.ways.push_back({7, {1, 2}, l});
                    for (int where = 0; where < 4; ++where) {
                        const Profile p{where == 0 ? r : yes, where == 1 ? r : yes, where == 2 ? r : no, where == 3 ? r : no};
                        run({f}, &p);
                    }
                }
            };
            if (n == 0) { go({}); } else { mc::product(std::vector<int>(n, static_cast<int>(alphabet.size())), go); }
        }
    }
    mc::suite("specifications");
    // the documented form
    static const auto well_formed = [](const std::string &s) {
        std::vector<std::string> parts{""};
        for (char c : s) { if (c == '|') { parts.emplace_back(); } else { parts.back() += c; } }
        for (std::size_t i = 0; i < parts.size(); ++i) {
            std::string p = parts[i];
            if (i == 0) { if (p != "true" and p != "false") { return false; } continue; }
            const auto c = p.find(',');
            if (c == std::string::npos or (p.substr(0, c) != "true" and p.substr(0, c) != "false")) { return false; }
            p = p.substr(c + 1);
            const auto e = p.find('=');
            if (p.substr(0, e).empty() or (e != std::string::npos and e + 1 == p.size())) { return false; }
        }
        return true;
    };
    const std::vector<std::string> tokens{"true", "false", "|", ",", "=", "highway", "b"};
    for (int n = 1; n <= (t ? 8 : 7); ++n) {
        mc::product(std::vector<int>(n, static_cast<int>(tokens.size())), [&](const std::vector<int> &v) {
            if (not mc::mine()) { return; }
            std::string s;
            for (int i : v) { s += tokens[i]; }
            mc::exec([&] { return s; }, [&] {
                // tags and values with separators in them are nobody's business
                std::size_t start = 0;
                for (std::size_t i = 0; i <= s.size(); ++i) {
                    if (i == s.size() or s[i] == '|') {
                        const std::string p = s.substr(start, i - start);
                        if (std::count(p.begin(), p.end(), ',') > 1 or std::count(p.begin(), p.end(), '=') > 1) { return; }
                        start = i + 1;
                    }
                }
                const bool want = well_formed(s);
                if (want) { mc::nontrivial(); mc::outcome(mc::hstr(s)); }
                mc::require_eq(std::regex_match(s, io::network::OSM_TAGS_FILTER_PATTERN), want, "accepted");
            });
        });
    }
}

#ifdef FILES
// every storage in a file, each allocation failing once
template<typename GT, typename TT, typename OT, typename OTT>
static void faults(const std::vector<SFile> &files) {
    struct Clean { ~Clean() { fault::off(); for (auto &f : std::filesystem::directory_iterator(dir)) { std::filesystem::remove(f.path()); } } } clean;
    const Dump want = meaning(files, CAR);
    std::string all;
    for (auto &s : want) { all += s; }
    mc::outcome(std::hash<std::string>{}(all));
    auto go = [&](long k) {
        using GH = GraphHelper<Geo, GT, TT>;
        auto gh = std::make_unique<GH>(make_graph<GH>("import.bin", 32768));
        auto handler = make_handler<OsmHelper<Geo, OT, OTT>>(*gh, wgs84(), 32768);
        fault::arm(k);
        import(*handler, files, {}, nullptr);
        fault::off();
        handler.reset();
        mc::require_eq(std::distance(std::filesystem::directory_iterator(dir), {}), std::is_same_v<GT, File> + std::is_same_v<TT, File>, "files that are left");
        same(dump(*gh), want, "imported");
    };
    go(-1);
    const long n = fault::count;
    for (long k = 1; k <= n; ++k) {
        try {
            go(k);
            mc::require(fault::failed == 1, "the allocation did not fail");
        } catch (const mc::Failed &f) {
            mc::fail("allocation ", k, " of ", n, " fails: ", f.msg);
        } catch (const std::exception &e) {
            mc::fail("allocation ", k, " of ", n, " fails: exception ", e.what());
        }
        mc::count("failed allocations");
        mc::nontrivial();
    }
}

template<typename GT, typename TT, typename OT, typename OTT>
static void fault_suite(const std::string &name, bool t) {
    mc::suite(name);
    static const Tags LONG{{"highway", "a kind of road that is too long to be a short string"}, {"name", "another value that needs memory of its own"}};
    for (auto &o1 : ORDERS) {
        if (o1.size() < 2) { continue; }
        for (auto &o2 : ORDERS) {
            if (not t and o2.size() > 1) { continue; }
            for (int k = 0; k < 4; ++k) {
                SFile a = file(o1), b = file(o2);
                for (auto &n : a.nodes) { if (n.id == 3) { n.tags = LONG; } }
                a.ways.push_back({7, o1, ROADS[k % 2]});
                if (k > 1) { a.ways.push_back({8, {o1.back(), o1.front()}, LONG}); }
                if (k > 2) { for (long i = 10; i < 40; ++i) { a.nodes.push_back({i, {1, i}, i % 3 ? Tags{} : LONG}); } a.ways.push_back({9, {10, 20, 30, 39, 11}, LONG}); }
                b.ways.push_back({10, {1, 2, 3}, ROADS[1]});
                mc::run_case([&] { return text({a, b}); }, [&] { faults<GT, TT, OT, OTT>({a, b}); });
            }
        }
    }
}

int main(int argc, char **argv) {
    return mc::main_(argc, argv, [&] {
        std::cout.setstate(std::ios::failbit);
        std::string tmp = std::string{access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp"} + "/mc_osm_XXXXXX";
        if (not mkdtemp(tmp.data())) { std::abort(); }
        dir = tmp;
        const bool t = mc::g.thorough;
        fault_suite<File, File, File, File>("files", t);
        fault_suite<Memory, Memory, File, File>("nodes in files", t);
        fault_suite<File, File, Memory, Memory>("graph in files", t);
        fault_suite<Memory, File, File, Memory>("mixed", t);
        std::filesystem::remove_all(dir);
    });
}
#else

// through files, as the application does
static void by_name(bool t) {
    mc::suite("files of osm data");
    for (auto *ext : {".osm", ".opl", ".osm.pbf"}) {
        for (auto &o1 : ORDERS) {
            for (auto &o2 : ORDERS) {
                if (not t and o1.size() < 3) { continue; }
                for (int k = 0; k < 3; ++k) {
                    SFile a = file(o1), b = file(o2);
                    a.ways.push_back({7, o1, ROADS[k]});
                    b.ways.push_back({8, {3, 2, 1}, ROADS[2 - k]});
                    if (o1.empty() or o2.empty()) { continue; }
                    mc::run_case([&] { return ext + (" " + text({a, b})); }, [&] {
                        const std::string pid = std::to_string(getpid());
                        std::vector<std::string> names{dir + "/a" + pid + ext, dir + "/b" + pid + ext};
                        for (int i = 0; i < 2; ++i) {
                            osmium::io::Writer w{osmium::io::File{names[i]}, osmium::io::overwrite::allow};
                            w(buffer_of(i ? b : a));
                            w.close();
                        }
                        const Dump want = meaning({a, b}, CAR);
                        mc::outcome(mc::hstr(text({a, b})));
                        mc::nontrivial();
                        same(read({}, nullptr, names), want, "imported");
                        for (auto &n : names) { std::filesystem::remove(n); }
                    });
                }
            }
        }
    }
}

// ---------------------------------------------------------------- X01
struct XEdge { int s, t; unsigned long id; Tags tags; std::vector<std::pair<double, double>> via; };
struct XSpec {
    std::vector<std::pair<double, double>> nodes;
    std::vector<Tags> node_tags;
    std::vector<XEdge> edges;
    std::string str() const {
        std::string s = cat(nodes.size(), " nodes");
        for (auto &e : edges) { s += cat(" ", e.s, ">", e.t, "#", e.id, "+", e.via.size(), " ", text(e.tags)); }
        return s;
    }
};

struct Srs { int code; std::string type; int to; std::string to_type; };
static std::string show(const Srs &s) { return cat(s.code, s.type, " to ", s.to, s.to_type); }

static const osmium::TagList &tag_list(osmium::memory::Buffer &b, const Tags &t) {
    b.clear();
    if (t.empty()) { { osmium::builder::TagListBuilder x{b}; } return b.get<osmium::TagList>(b.commit()); }
    return b.get<osmium::TagList>(osmium::builder::add_tag_list(b, osmium::builder::attr::_tags(raw(t))));
}

static std::string no_oneway(Tags t) {
    std::erase_if(t, [](auto &x) { return x.first == "oneway"; });
    std::sort(t.begin(), t.end());
    return text(t);
}

// the position as far as the data of OpenStreetMap goes
static std::string place(std::pair<double, double> p) { return cat(std::lround(p.first * 1e7), "/", std::lround(p.second * 1e7)); }
static std::string place(const auto &p) { return place(std::pair<double, double>{p.template get<0>(), p.template get<1>()}); }

template<typename Out, typename In>
static Out project(const In &p, const geometry::srs_transform &s) {
    Out out;
    geometry::reproject_point(p, out, geometry::create_point_reprojector(s));
    return out;
}


// exported as the application does it, and imported again
static std::unique_ptr<GraphHelper<Geo, Memory, Memory>> again(const auto &net, const geometry::srs_transform &transform, bool once) {
    const std::string name = cat(dir, "/x", getpid(), ".opl");
    const auto back = geometry::compute_next_srs_transform(transform, 4326, geometry::SRS::CS_GEOGRAPHIC);
    io::network::osm_exporter exporter{name, net.graph(), net.tag_helper(), geometry::create_point_reprojector(back)};
    exporter.write();
    // everything is a way, directions as usual
    Profile p = CAR;
    p.query = p.filter = Rules{true, {}};
    using G2 = GraphHelper<Geo, Memory, Memory>;
    auto g2 = std::make_unique<G2>(make_graph<G2>("y", 0));
    auto handler = make_handler<OsmHelper<Geo, Memory, Memory>>(*g2, wgs84(), 0);
    import(*handler, {}, {name}, &p);
    handler.reset();
    // nothing may be said twice
    {
        osmium::io::Reader reader{name};
        std::set<std::pair<int, long>> ids;
        while (osmium::memory::Buffer b = reader.read()) {
            for (const auto &o : b.select<osmium::OSMObject>()) {
                mc::require(ids.emplace(static_cast<int>(o.type()), o.id()).second, "id ", o.id(), " is used twice");
                std::multiset<std::string> keys;
                for (const auto &t : o.tags()) { keys.insert(t.key()); }
                for (auto &k : keys) { mc::require((not once and k != "oneway") or keys.count(k) == 1, "key ", k, " is given twice"); }
            }
        }
        reader.close();
    }
    std::filesystem::remove(name);
    return g2;
}

static Tags all_tags(const auto &tags, const auto &ids) { Tags t; for (auto i : ids) { auto [k, v] = tags.tag(i); t.emplace_back(k, v); } return t; }

// every piece of road in every direction
static Dump pieces(const auto &graph_helper) {
    Dump d;
    const auto ev = graph_helper.graph().edges_view();
    for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) {
        const auto &e = ev[it].get();
        const auto &r = e.rich_line;
        for (std::size_t i = 0; i + 1 < r.size(); ++i) {
            d.insert(place(r.at(i)) + ">" + place(r.at(i + 1)) + " " + no_oneway(all_tags(graph_helper.tag_helper(), graph_helper.tag_helper().edge_tags(e.id))));
        }
    }
    return d;
}

// the tables of nodes and edges
static bool tables = false;

static std::vector<std::vector<std::string>> read_csv(const std::string &name) {
    std::ifstream in{name};
    std::vector<std::vector<std::string>> rows;
    std::vector<std::string> row{""};
    bool quoted = false, any = false;
    for (char c; in.get(c);) {
        any = true;
        if (quoted) {
            if (c == '"') { if (in.peek() == '"') { in.get(c); row.back() += c; } else { quoted = false; } } else { row.back() += c; }
        } else if (c == '"') { quoted = true; }
        else if (c == ',') { row.emplace_back(); }
        else if (c == '\n') { rows.push_back(row); row = {""}; any = false; }
        else { row.back() += c; }
    }
    mc::require(not quoted and not any, "the last row is cut off");
    std::filesystem::remove(name);
    return rows;
}

static std::string tag_list_text(const Tags &t) {
    std::string s;
    for (auto &[k, v] : t) { s += (s.empty() ? "['" : ",'") + k + "':'" + v + "'"; }
    return s.empty() ? s : s + "]";
}

// numbers as in the text, to 9 digits
static std::string rounded(const std::string &wkt) {
    std::string s;
    const char *c = wkt.c_str();
    while (*c) {
        if (std::isdigit(static_cast<unsigned char>(*c)) or *c == '-') {
            char *e;
            const double x = std::strtod(c, &e);
            char b[40];
            std::snprintf(b, sizeof b, "%.9g", std::fabs(x) < 1e-12 ? 0.0 : x);
            s += b;
            c = e;
        } else { s += *c++; }
    }
    return s;
}

static std::string wkt_of(const auto &points, bool line) {
    std::string s;
    for (auto &p : points) {
        char b[80];
        std::snprintf(b, sizeof b, "%.17g %.17g", static_cast<double>(p.template get<0>()), static_cast<double>(p.template get<1>()));
        s += (s.empty() ? "" : ",") + std::string{b};
    }
    return rounded((line ? "LINESTRING(" : "POINT(") + s + ")");
}

static void table(const std::string &name, const std::vector<std::string> &header, const Dump &want, int wkt, const std::map<std::string, double> *lengths) {
    auto rows = read_csv(name);
    if (want.empty()) { mc::require(rows.size() <= 1, "rows of nothing"); return; }
    mc::require(not rows.empty() and rows[0] == header, "header");
    Dump got;
    for (std::size_t i = 1; i < rows.size(); ++i) {
        auto &r = rows[i];
        mc::require_eq(r.size(), header.size(), "fields of a row");
        r[wkt] = rounded(r[wkt]);
        if (lengths) {
            const auto l = lengths->find(r[wkt]);
            mc::require(l != lengths->end(), "line ", r[wkt]);
            mc::require(std::fabs(std::stod(r[2]) - l->second) < 1e-4, "length ", r[2], " of ", r[wkt]);
            r.erase(r.begin() + 2);
        }
        std::string s;
        for (auto &x : r) { s += x + ";"; }
        got.insert(s);
        mc::transition();
    }
    same(got, want, "table");
}

template<typename Base, typename CS>
static void exported(const XSpec &s, const Srs &srs) {
    const auto to_base = geometry::compute_srs_transform(4326, "geographic", srs.code, srs.type);
    const auto transform = geometry::compute_srs_transform(srs.code, srs.type, srs.to, srs.to_type);
    auto given = [&](std::pair<double, double> p) {
        return project<Pt<CS>>(project<Pt<Base>>(Pt<Geo>{p.first, p.second}, to_base), transform);
    };
    using GH = GraphHelper<CS, Memory, Memory>;
    using I = geometry::network::network_import<GH>;
    using N = geometry::network::network<io::helper::graph_helper_type<Pt<CS>, Memory, io::helper::tag_helper_type<Memory>>,
            io::helper::index_helper_type<Pt<CS>, Memory, Memory>>;
    using Node = geometry::network::node_type<Pt<CS>>;
    using Edge = geometry::network::edge_type<Pt<CS>>;
    using Rich = typename Edge::rich_line_type;
    using Line = typename geometry::rich_line_traits<Rich>::line_type;
    auto import_ = std::make_unique<I>(make_graph<GH>("x", 0));
    auto &gh = import_->graph_helper();
    osmium::memory::Buffer buffer{1024, osmium::memory::Buffer::auto_grow::yes};
    for (std::size_t i = 0; i < s.nodes.size(); ++i) {
        gh.add_vertex_with_index_mapping(Node{100 + i, given(s.nodes[i])}, tag_list(buffer, s.node_tags[i]));
    }
    Dump want, nodes;
    std::map<std::string, std::string> tags_at;
    std::set<int> used;
    for (auto &e : s.edges) {
        std::vector<std::pair<double, double>> ps{s.nodes[e.s]};
        ps.insert(ps.end(), e.via.begin(), e.via.end());
        ps.push_back(s.nodes[e.t]);
        Line line;
        for (auto p : ps) { line.push_back(given(p)); }
        gh.add_edge(e.s, e.t, Edge{e.id, Rich{line}}, tag_list(buffer, e.tags));
        for (std::size_t i = 0; i + 1 < ps.size(); ++i) { want.insert(place(ps[i]) + ">" + place(ps[i + 1]) + " " + no_oneway(e.tags)); }
        used.insert(e.s), used.insert(e.t);
    }
    std::vector<std::vector<Pt<CS>>> lines;
    if (tables) {
        for (auto &e : s.edges) {
            lines.push_back({given(s.nodes[e.s])});
            for (auto p : e.via) { lines.back().push_back(given(p)); }
            lines.back().push_back(given(s.nodes[e.t]));
        }
    }
    for (int i : used) { tags_at[place(s.nodes[i])] = text(s.node_tags[i]); }
    N net{io::helper::graph_helper_type<Pt<CS>, Memory, io::helper::tag_helper_type<Memory>>{}, io::helper::index_helper_type<Pt<CS>, Memory, Memory>{}};
    net.graph_helper().from_adjacency_list(gh, import_->tag_helper());
    import_.reset();
    if (tables) {
        Dump ns, es;
        std::map<std::string, double> length;
        for (std::size_t i = 0; i < s.nodes.size(); ++i) {
            ns.insert(cat(100 + i, ";", wkt_of(std::vector{given(s.nodes[i])}, false), ";", tag_list_text(s.node_tags[i]), ";"));
        }
        for (std::size_t k = 0; k < lines.size(); ++k) {
            const auto &e = s.edges[k];
            const auto &line = lines[k];
            double len = 0;
            for (std::size_t i = 0; i + 1 < line.size(); ++i) { len += static_cast<double>(geometry::point_distance(line[i], line[i + 1])); }
            length[wkt_of(line, true)] = len;
            es.insert(cat(e.id, ";", wkt_of(line, true), ";", tag_list_text(e.tags), ";"));
        }
        const std::string n = cat(dir, "/n", getpid(), ".csv"), e = cat(dir, "/e", getpid(), ".csv");
        net.save_csv(n, e);
        table(n, {"id", "geometry", "tags"}, ns, 1, nullptr);
        table(e, {"id", "geometry", "length", "tags"}, es, 1, &length);
        mc::outcome(mc::hstr(s.str() + show(srs)));
        if (want.size() > 1) { mc::nontrivial(); }
        return;
    }
    const auto g2 = again(net, transform, true);
    same(pieces(*g2), want, "roads");
    const auto vv = g2->graph().vertices_view();
    for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
        const auto &v = vv[it].get();
        const auto f = tags_at.find(place(v.point));
        const std::string t = text(all_tags(g2->tag_helper(), g2->tag_helper().node_tags(v.id)));
        mc::require_eq(t, f == tags_at.end() ? std::string{} : f->second, "tags of the node at ", place(v.point));
        if (f != tags_at.end()) { tags_at.erase(f); }
    }
    mc::require(tags_at.empty(), "a node is missing");
    mc::outcome(mc::hstr(s.str()));
    if (want.size() > 1) { mc::nontrivial(); }
}

// imported, simplified and cleaned before
static void prepared(const SFile &f, bool complete, bool clean) {
    using GH = GraphHelper<Geo, Memory, Memory>;
    using I = geometry::network::network_import<GH>;
    using N = geometry::network::network<io::helper::graph_helper_type<Pt<Geo>, Memory, io::helper::tag_helper_type<Memory>>,
            io::helper::index_helper_type<Pt<Geo>, Memory, Memory>>;
    auto import_ = std::make_unique<I>(make_graph<GH>("x", 0));
    auto handler = make_handler<OsmHelper<Geo, Memory, Memory>>(import_->graph_helper(), wgs84(), 0);
    import(*handler, {f}, {}, nullptr);
    handler.reset();
    import_->graph_helper().simplify(*import_, complete);
    if (clean) {
        import_->remove_unconnected_components();
        import_->remove_duplicate_nodes(true, complete);
        import_->remove_duplicate_edges();
    }
    N net{io::helper::graph_helper_type<Pt<Geo>, Memory, io::helper::tag_helper_type<Memory>>{}, io::helper::index_helper_type<Pt<Geo>, Memory, Memory>{}};
    net.graph_helper().from_adjacency_list(import_->graph_helper(), import_->tag_helper());
    import_.reset();
    const Dump want = pieces(net.graph_helper());
    const auto g2 = again(net, wgs84(), false);
    same(pieces(*g2), want, "roads");
    std::string all;
    for (auto &w : want) { all += w; }
    mc::outcome(mc::hstr(all));
    if (want.size() > 2) { mc::nontrivial(); }
}

static void prepares(bool t) {
    mc::suite("prepared networks");
    auto repeats = [](const std::vector<long> &r) { for (std::size_t i = 0; i + 1 < r.size(); ++i) { if (r[i] == r[i + 1]) { return true; } } return r.size() < 2; };
    refs(t ? 4 : 3, {1, 2, 3, 4}, [&](const auto &r1) {
        if (repeats(r1)) { return; }
        refs(3, {1, 2, 3, 4}, [&](const auto &r2) {
            if (repeats(r2)) { return; }
            for (int k1 = 0; k1 < 4; ++k1) {
                for (int k2 = 0; k2 < 4; ++k2) {
                    for (int how = 0; how < 4; ++how) {
                        if (not t and (r1.size() + r2.size() > 5) and (k1 + k2) % 4 != 1) { continue; }
                        SFile f = file({1, 2, 3, 4});
                        f.nodes[3].at = {8.4995, 49.2505};
                        f.ways.push_back({7, r1, ROADS[k1]});
                        f.ways.push_back({8, r2, ROADS[k2]});
                        mc::run_case([&] { return text({f}) + (how & 1 ? " complete" : "") + (how & 2 ? " cleaned" : ""); }, [&] { prepared(f, how & 1, how & 2); });
                    }
                }
            }
        });
    });
}

static void x_run(const XSpec &s, const Srs &srs, void (*f)(const XSpec &, const Srs &)) {
    mc::run_case([&] { return show(srs) + ": " + s.str(); }, [&] { f(s, srs); });
}

static XSpec x_nodes(int n) {
    static const std::vector<std::pair<double, double>> at{{8.5, 49.25}, {8.502, 49.25}, {8.5025, 49.2512345}, {8.5000001, 49.2499999}};
    XSpec s;
    for (int i = 0; i < n; ++i) { s.nodes.push_back(at[i]), s.node_tags.push_back(NODE_TAGS[i]); }
    return s;
}

static void exports(bool t) {
    using Cart = geometry::cs_cartesian;
    using Sph = geometry::cs_spherical_equatorial;
    struct Kind { Srs srs; void (*f)(const XSpec &, const Srs &); };
    const std::vector<Kind> kinds{
            {{4326, "", -1, ""}, exported<Geo, Geo>},
            {{4326, "", 3857, ""}, exported<Geo, Cart>},
            {{4326, "", 32632, ""}, exported<Geo, Cart>},
            {{4326, "", -1, "spherical-equatorial"}, exported<Geo, Sph>},
            {{32632, "", -1, ""}, exported<Cart, Cart>},
            {{32632, "", 32633, ""}, exported<Cart, Cart>},
            {{32632, "", 4326, ""}, exported<Cart, Geo>},
            {{3857, "", -1, "geographic"}, exported<Cart, Geo>},
            {{3857, "", 4326, "spherical-equatorial"}, exported<Cart, Sph>},
            {{4258, "", -1, ""}, exported<Geo, Geo>},
            {{4326, "spherical-equatorial", -1, ""}, exported<Sph, Sph>}};
    const Tags R{{"highway", "residential"}}, M{{"highway", "motorway"}}, Y{{"highway", "residential"}, {"oneway", "yes"}};
    const std::vector<XEdge> EDGES{{0, 1, 1, R, {}}, {1, 0, 1, R, {}}, {1, 2, 2, Y, {{8.503, 49.251}}}, {2, 1, 2, Y, {{8.503, 49.251}}},
            {0, 1, 3, M, {}}, {1, 0, 4, R, {{8.501, 49.2505}}}, {2, 0, 5, {{"highway", "x"}, {"oneway", "-1"}}, {{8.501, 49.2505}, {8.5005, 49.25}}},
            {2, 2, 6, R, {{8.503, 49.252}, {8.5035, 49.252}}}, {2, 2, 6, R, {{8.5035, 49.252}, {8.503, 49.252}}}, {1, 1, 7, R, {{8.502, 49.249}}}};
    for (auto &k : kinds) {
        mc::suite("exported, " + show(k.srs));
        for (unsigned m = 0; m < 1u << EDGES.size(); ++m) {
            if (std::popcount(m) > (k.srs.to == -1 and k.srs.type.empty() and k.srs.to_type.empty() and k.srs.code == 4326 ? 10 : t ? 5 : 2)) { continue; }
            XSpec s = x_nodes(t ? 4 : 3);
            for (std::size_t i = 0; i < EDGES.size(); ++i) { if (m >> i & 1) { s.edges.push_back(EDGES[i]); } }
            x_run(s, k.srs, k.f);
        }
    }
    mc::suite("tags of opposite roads");
    for (auto &a : ROADS) {
        for (auto &b : ROADS) {
            for (int n = 0; n < 3; ++n) {
                XSpec s = x_nodes(3);
                auto some = [](Tags t) { t.emplace_back("ref", "1"); return t; };
                s.edges.push_back({0, 1, 1, some(a), {}});
                s.edges.push_back({1, 0, a == b ? 1ul : 2ul, some(b), {}});
                if (n > 0) { s.edges.push_back({0, 1, 3, some(b), {}}); }
                if (n > 1) { s.edges.push_back({1, 0, 4, some(a), {}}); }
                x_run(s, kinds[0].srs, kinds[0].f);
            }
        }
    }
}

int main(int argc, char **argv) {
    for (int i = 1; i < argc; ++i) { tables |= std::string{argv[i]} == "--tables"; }
    return mc::main_(argc, argv, [&] {
        std::string what;
#ifdef EXPORT
        what = "export";
#else
        what = "import";
#endif
        std::cout.setstate(std::ios::failbit);
        std::string tmp = std::string{access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp"} + "/mc_osm_XXXXXX";
        if (not mkdtemp(tmp.data())) { std::abort(); }
        dir = tmp;
        const bool t = mc::g.thorough;
        #ifdef EXPORT
        exports(t);
        if (not tables) { prepares(t); }
#else
        ways(t), rules(t), by_name(t);
#endif
        std::filesystem::remove_all(dir);
    });
}
#endif
