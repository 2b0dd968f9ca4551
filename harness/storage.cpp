// S01: preparing a network in files gives the network prepared in memory, whichever allocation fails and makes a file grow.
// Built twice: with MOVING every file is mapped at a fresh address whenever it is opened or grown.
#ifdef MOVING
#include "moving_map.hpp"
#endif
#include "fault_file.hpp"

#include "types/geometry/network/network_import.hpp"
#include "types/geometry/network/network.hpp"
#include "types/io/helper/index_helper.hpp"
#include "types/io/helper/graph_helper.hpp"
#include "types/io/helper/tag_helper.hpp"
#include "geometry/network/traits/network.hpp"
#include "io/serialization/serializer.hpp"
#include "io/serialization/deserializer.hpp"
#include "flat_map_serialization.hpp"
#include <boost/serialization/vector.hpp>
#include <boost/serialization/unique_ptr.hpp>
#include <osmium/builder/attr.hpp>
#include <osmium/builder/osm_object_builder.hpp>
#include <filesystem>
#include <set>
#include <sstream>

#include "mc.hpp"

using namespace map_matching_2;
namespace st = io::memory_mapped::storage;

template<typename... A>
static std::string cat(const A &... a) { std::ostringstream o; (o << ... << a); return o.str(); }

static std::string g_compiler = "compiler", g_version = "version";
namespace map_matching_2::util {
    std::string get_compiler_info() { return g_compiler; }
    const std::string version() { return g_version; }
}

using Memory = io::memory_mapped::memory_types;
using File = io::memory_mapped::file_types;
using Point = geometry::point_type<geometry::cs_cartesian>;

template<typename G, typename T>
using Import = geometry::network::network_import<io::helper::graph_helper_import_type<Point, G, io::helper::import_tag_helper_type<T>>>;
template<typename G, typename T, typename I, typename B>
using Network = geometry::network::network<io::helper::graph_helper_type<Point, G, io::helper::tag_helper_type<T>>,
        io::helper::index_helper_type<Point, I, B>>;
template<typename G, typename T, typename I>
using Opened = geometry::network::network<io::helper::graph_helper_type<Point, G, io::helper::tag_helper_type<T>>,
        io::helper::index_helper_read_only_type<Point, I>>;
using Node = geometry::network::node_type<Point>;
using Edge = geometry::network::edge_type<Point>;
using Rich = Edge::rich_line_type;
using Line = geometry::rich_line_traits<Rich>::line_type;

// what is imported
using Tags = std::vector<std::pair<std::string, std::string>>;
static const std::vector<Tags> LISTS{{}, {{"a", "1"}}, {{"b", "2"}, {"a", "1"}}, {{"highway", "a road name that is too long to be short"}, {"a", "2"}}};

struct SEdge { int s, t; unsigned long id; int list; std::vector<std::pair<double, double>> via; };
struct Spec {
    std::vector<std::pair<double, double>> nodes;
    std::vector<int> node_lists;
    std::vector<SEdge> edges;
    bool complete = true, other = false;

    std::string str() const {
        std::string s = cat(nodes.size(), " nodes", complete ? " complete" : " osm", other ? " cloned" : "");
        for (auto &e : edges) { s += cat(" ", e.s, ">", e.t, "#", e.id, "l", e.list, e.via.empty() ? "" : "v"); }
        return s;
    }
};

struct Lists {
    osmium::memory::Buffer buffer{1 << 14, osmium::memory::Buffer::auto_grow::yes};
    std::vector<std::size_t> at;

    Lists() {
        using namespace osmium::builder::attr;
        for (auto &l : LISTS) {
            std::vector<std::pair<const char *, const char *>> v;
            for (auto &[k, w] : l) { v.emplace_back(k.c_str(), w.c_str()); }
            if (v.empty()) {
                { osmium::builder::TagListBuilder b{buffer}; }
                at.push_back(buffer.commit());
            } else {
                at.push_back(osmium::builder::add_tag_list(buffer, _tags(v)));
            }
        }
    }

    const osmium::TagList &operator[](std::size_t i) { return buffer.get<osmium::TagList>(at[i]); }
};

static Lists &lists() { static Lists l; return l; }
static std::string dir;

// the helpers, as the application creates them
template<typename H>
static H make_tags(const std::string &name, std::size_t size, bool keep) {
    if constexpr (io::helper::is_mmap_tag_helper<H>) {
        return H{typename H::tag_storage_type{dir, name, st::DESTROY_AND_CREATE, size, keep ? st::DO_NOT_DESTROY_ON_CLOSE : st::DESTROY_ON_CLOSE,
                keep ? st::SHRINK_ON_CLOSE : st::DO_NOT_SHRINK_ON_CLOSE}};
    } else { return H{}; }
}

template<typename H>
static H open_tags(const std::string &name) {
    if constexpr (io::helper::is_mmap_tag_helper<H>) { return H{typename H::tag_storage_type{dir, name, st::OPEN_READ_ONLY}}; }
    else { return H{}; }
}

template<typename GH>
static GH make_graph(const std::string &name, std::size_t size, bool keep, typename GH::tag_helper_type tags) {
    using S = typename GH::graph_storage_type;
    if constexpr (io::helper::is_mmap_graph_helper<GH>) {
        return GH{S{dir, name, st::DESTROY_AND_CREATE, size, keep ? st::DO_NOT_DESTROY_ON_CLOSE : st::DESTROY_ON_CLOSE,
                keep ? st::SHRINK_ON_CLOSE : st::DO_NOT_SHRINK_ON_CLOSE}, std::move(tags)};
    } else { return GH{S{}, std::move(tags)}; }
}

template<typename GH>
static GH open_graph(const std::string &name, typename GH::tag_helper_type tags) {
    using S = typename GH::graph_storage_type;
    if constexpr (io::helper::is_mmap_graph_helper<GH>) { return GH{S{dir, name, st::OPEN_READ_ONLY}, std::move(tags)}; }
    else { return GH{S{}, std::move(tags)}; }
}

template<typename IH>
static IH make_index(std::size_t size) {
    using B = typename IH::index_build_helper_type;
    using S = typename IH::index_storage_type;
    B build = [&] {
        if constexpr (io::helper::is_mmap_index_build_helper<B>) {
            return B{typename B::index_build_storage_type{dir, "index_build.bin", st::DESTROY_AND_CREATE, size, st::DESTROY_ON_CLOSE, st::DO_NOT_SHRINK_ON_CLOSE}};
        } else { return B{}; }
    }();
    if constexpr (io::helper::is_mmap_index_helper<IH>) {
        return IH{S{dir, "index.bin", st::DESTROY_AND_CREATE, size, st::DO_NOT_DESTROY_ON_CLOSE, st::SHRINK_ON_CLOSE}, std::move(build)};
    } else { return IH{S{}, std::move(build)}; }
}

template<typename IH>
static IH open_index() {
    using S = typename IH::index_storage_type;
    using B = typename IH::index_build_helper_type;
    if constexpr (io::helper::is_mmap_index_helper<IH>) { return IH{S{dir, "index.bin", st::OPEN_READ_ONLY}, B{}}; }
    else { return IH{S{}, B{}}; }
}

template<typename T>
static std::string tag_text(const T &tags, const auto &ids) {
    std::string s;
    for (auto i : ids) { auto [k, v] = tags.tag(i); s += k + "=" + v + ","; }
    return s;
}

static std::string num(double d) { char b[40]; std::snprintf(b, sizeof b, "%.9g", d); return b; }
static std::string text(const auto &p) { return num(p.template get<0>()) + "/" + num(p.template get<1>()); }

using Dump = std::multiset<std::string>;

// everything that can be asked of a network
template<typename N>
static Dump dump(const N &net, bool index) {
    Dump d;
    const auto &g = net.graph();
    const auto &tags = net.tag_helper();
    const auto vv = g.vertices_view();
    const auto ev = g.edges_view();
    auto edge_text = [&](auto it) {
        const auto &e = ev[it].get();
        std::string s = cat("edge ", e.id, " from ", vv[g.source(it)].get().id, " to ", vv[g.target(it)].get().id, ":");
        const auto &r = e.rich_line;
        for (std::size_t i = 0; i < r.size(); ++i) { s += " " + text(r.at(i)); }
        return s;
    };
    std::size_t nodes = 0, edges = 0;
    for (auto it = vv.begin(); it != vv.end(); it = vv.next(it), ++nodes) {
        const auto &v = vv[it].get();
        d.insert(cat("node ", v.id, " ", text(v.point), " ", tag_text(tags, tags.node_tags(v.id))));
        const auto out = g.out_edges_view(it);
        for (auto e = out.begin(); e != out.end(); e = out.next(e)) { d.insert(cat("out ", v.id, " ", edge_text(e))); }
    }
    for (auto it = ev.begin(); it != ev.end(); it = ev.next(it), ++edges) {
        const auto &e = ev[it].get();
        const auto &r = e.rich_line;
        std::string s = cat(edge_text(it), " ", tag_text(tags, tags.edge_tags(e.id)), " ", r.has_length() ? num(r.length()) : "-",
                " ", r.has_azimuth() ? num(r.azimuth()) : "-", " ", r.has_directions() ? num(r.directions()) : "-");
        for (std::size_t i = 0; i + 1 < r.size(); ++i) {
            const auto sg = r.rich_segment(i);
            s += cat(" ", sg.has_length() ? num(sg.length()) : "-", "|", sg.has_azimuth() ? num(sg.azimuth()) : "-");
        }
        d.insert(s);
    }
    mc::require(nodes == g.vertices_view().size() and edges == ev.size(), "sizes of the views");
    if (index) {
        std::size_t n = 0;
        auto all = boost::geometry::index::satisfies([](const auto &) { return true; });
        for (auto &[p, v] : net.query_points(all)) { d.insert(cat("indexed point ", text(p), " of node ", vv[v].get().id)), ++n; }
        mc::require_eq(n, nodes, "points in the index");
        for (auto &[sg, e] : net.query_segments(all)) {
            d.insert(cat("indexed segment ", text(sg.first), " ", text(sg.second), " no. ", e.second, " of ", edge_text(e.first)));
        }
        for (double x : {-2.0, 4.0}) {
            for (double y : {-1.0, 5.0}) {
                const auto q = net.query_segments(boost::geometry::index::nearest(Point{x, y}, 1));
                d.insert(cat("near ", x, " ", y, " ", q.empty() ? std::string{"-"} : num(geometry::distance(q.front().first, Point{x, y}))));
            }
        }
    }
    return d;
}

static void same(const Dump &got, const Dump &want, const char *what) {
    if (got == want) { return; }
    std::string miss, extra;
    for (auto &s : want) { if (got.count(s) < want.count(s)) { miss = s; break; } }
    for (auto &s : got) { if (want.count(s) < got.count(s)) { extra = s; break; } }
    mc::fail(what, ": missing '", miss, "', not wanted '", extra, "', ", got.size(), " of ", want.size());
}

template<typename H>
static std::unique_ptr<H> ptr(H h) { return std::make_unique<H>(std::move(h)); }

static bool finished;   // the last run came to its end

// imports, simplifies, cleans, compresses and indexes; the allocation k of the steps that may grow fails
template<typename N, typename O, typename I>
static Dump pipeline(const Spec &s, long k, std::size_t size, bool remove, const Dump *want) {
    using IG = typename geometry::network::network_traits<I>::graph_helper_type;
    using IT = typename geometry::network::network_traits<I>::tag_helper_type;
    using NG = typename geometry::network::network_traits<N>::graph_helper_type;
    using NT = typename geometry::network::network_traits<N>::tag_helper_type;
    using IX = typename N::index_helper_type;
    using OX = typename O::index_helper_type;
    finished = false;
    auto import = std::make_unique<I>(make_graph<IG>("graph_import.bin", size, false, make_tags<IT>("tags_import.bin", size, false)));
    auto &gh = import->graph_helper();
    fault::arm(k);
    // as the importers do it: from a tag list, from tags kept elsewhere, or none
    io::helper::import_tag_helper_type<Memory> others;
    for (std::size_t i = 0; i < s.nodes.size(); ++i) {
        Node node{100 + i, Point{s.nodes[i].first, s.nodes[i].second}};
        const int l = i < s.node_lists.size() ? s.node_lists[i] : 0;
        std::size_t at;
        if (s.other) { others.set_node_tags(node.id, lists()[l]); at = gh.add_vertex_with_index_mapping(node, others); }
        else if (l) { at = gh.add_vertex_with_index_mapping(node, lists()[l]); }
        else { at = gh.add_vertex_with_index_mapping(node); }
        mc::require_eq(at, i, "index of the node");
    }
    for (auto &e : s.edges) {
        Line line;
        auto add = [&](auto p) { line.push_back(Point{p.first, p.second}); };
        add(s.nodes[e.s]);
        for (auto p : e.via) { add(p); }
        add(s.nodes[e.t]);
        Edge edge{e.id, Rich{line}};
        if (s.other) { others.set_edge_tags(e.id, lists()[e.list]); gh.add_edge(e.s, e.t, edge, others); }
        else if (e.list) { gh.add_edge(e.s, e.t, edge, lists()[e.list]); }
        else { gh.add_edge(e.s, e.t, edge); }
    }
    gh.simplify(*import, s.complete);
    if (remove) {
        // these do not grow
        const bool armed = fault::armed;
        fault::armed = false;
        import->remove_unconnected_components();
        import->remove_duplicate_nodes(true, s.complete);
        import->remove_duplicate_edges();
        fault::armed = armed;
    }
    const bool armed = fault::armed;
    fault::armed = false;
    auto net = std::make_unique<N>(make_graph<NG>("graph.bin", size, true, make_tags<NT>("tags.bin", size, true)), make_index<IX>(size));
    fault::armed = armed;
    net->graph_helper().from_adjacency_list(import->graph_helper(), import->tag_helper());
    import.reset();
    net->build_spatial_indices();
    fault::off();
    Dump d = dump(*net, true);
    if (want) { same(d, *want, "the prepared network"); }
    // close, open again
    auto file = [&](const char *n) { return dir + "/" + n; };
    if constexpr (io::helper::is_memory_tag_helper<NT>) { io::serialization::serializer{file("tags.bin"), net->tag_helper()}.write(); }
    if constexpr (io::helper::is_memory_graph_helper<NG>) { io::serialization::serializer{file("graph.bin"), net->graph_helper()}.write(); }
    if constexpr (io::helper::is_memory_index_helper<IX>) { io::serialization::serializer{file("index.bin"), net->index_helper()}.write(); }
    net.reset();
    std::set<std::string> files;
    for (auto &f : std::filesystem::directory_iterator(dir)) { files.insert(f.path().filename().string()); }
    mc::require(files == std::set<std::string>{"graph.bin", "index.bin", "tags.bin"}, "files that are left");
    auto again = std::make_unique<O>(open_graph<NG>("graph.bin", open_tags<NT>("tags.bin")), open_index<OX>());
    if constexpr (io::helper::is_memory_tag_helper<NT>) { io::serialization::deserializer{file("tags.bin"), again->tag_helper()}.read(); }
    if constexpr (io::helper::is_memory_graph_helper<NG>) { io::serialization::deserializer{file("graph.bin"), again->graph_helper()}.read(); }
    if constexpr (io::helper::is_memory_index_helper<IX>) { io::serialization::deserializer{file("index.bin"), again->index_helper()}.read(); }
    same(dump(*again, true), want ? *want : d, "the network opened again");
    again.reset();
    // another version is refused
    if (k < 0) {
        for (auto *g : {&g_version, &g_compiler}) {
            const std::string was = *g;
            *g += "x";
            auto refused = [&](auto f, const char *what) {
                bool thrown = false;
                try { f(); } catch (const std::runtime_error &) { thrown = true; }
                if (not thrown) { *g = was; }
                mc::require(thrown, what, " of another version is opened");
            };
            if constexpr (io::helper::is_mmap_graph_helper<NG>) { refused([&] { typename NG::graph_storage_type x{dir, "graph.bin", st::OPEN_READ_ONLY}; }, "a graph"); }
            if constexpr (io::helper::is_mmap_index_helper<IX>) { refused([&] { typename IX::index_storage_type x{dir, "index.bin", st::OPEN_READ_ONLY}; }, "an index"); }
            *g = was;
        }
    }
    for (auto *f : {"graph.bin", "index.bin", "tags.bin"}) { std::filesystem::remove(file(f)); }
    finished = true;
    return d;
}

using MemI = Import<Memory, Memory>;
using MemN = Network<Memory, Memory, Memory, Memory>;
using MemO = Opened<Memory, Memory, Memory>;

struct Clean { ~Clean() { fault::off(); for (auto &f : std::filesystem::directory_iterator(dir)) { std::filesystem::remove(f.path()); } } };

template<typename N, typename O, typename I>
static void check(const Spec &s, bool remove, bool faults, std::size_t size) {
    Clean clean;
    const Dump want = pipeline<MemN, MemO, MemI>(s, -1, size, remove, nullptr);
    mc::outcome(std::hash<std::string>{}(cat(want.size(), *want.begin(), *want.rbegin())));
    pipeline<N, O, I>(s, -1, size, remove, &want);
    const long n = fault::count;
    if (not faults) { return; }
    for (long k = 1; k <= n; ++k) {
        try {
            pipeline<N, O, I>(s, k, size, remove, &want);
            mc::require(fault::failed == 1, "the allocation did not fail");
        } catch (const mc::Failed &f) {
            mc::fail("allocation ", k, " of ", n, " fails: ", f.msg);
        } catch (const std::exception &e) {
            mc::fail("allocation ", k, " of ", n, " fails: exception ", e.what());
        }
        mc::count("failed allocations");
        mc::nontrivial();
    }
}

static const std::vector<std::pair<double, double>> POS{{0, 0}, {3, 0}, {3.5, 4}, {-1, 4.5}};
static const std::vector<SEdge> EDGES{
        {0, 1, 1, 1, {}}, {1, 0, 1, 1, {}}, {1, 2, 1, 1, {{4, 2}}}, {2, 1, 1, 1, {{4, 2}}}, {2, 3, 1, 1, {}}, {3, 2, 2, 2, {}},
        {0, 1, 3, 3, {{1, 1}}}, {3, 0, 4, 0, {}}, {1, 2, 5, 2, {}}, {2, 2, 6, 3, {{5, 5}, {6, 4}}}};

static void subsets(std::size_t max, const std::function<void(const Spec &)> &f) {
    for (unsigned m = 0; m < 1u << EDGES.size(); ++m) {
        if (static_cast<std::size_t>(__builtin_popcount(m)) > max) { continue; }
        Spec s;
        s.nodes = POS;
        s.node_lists = {0, 2, 1, 3};
        for (std::size_t i = 0; i < EDGES.size(); ++i) { if (m >> i & 1) { s.edges.push_back(EDGES[i]); } }
        for (int c = 0; c < 2; ++c) {
            s.complete = c == 0;
            s.other = m & 1;
            f(s);
        }
    }
}

// a chain of two-way roads with a side road, several kilobytes in every file
static Spec big(int n, int seed) {
    Spec s;
    for (int i = 0; i < n; ++i) {
        s.nodes.emplace_back(i * 2.0, (i * seed) % 5 * 1.5);
        s.node_lists.push_back((i + seed) % 4);
    }
    for (int i = 0; i + 1 < n; ++i) {
        const unsigned long id = 1 + i / (2 + seed);
        const std::pair<double, double> via{i * 2.0 + 1, 9};
        s.edges.push_back({i, i + 1, id, static_cast<int>(id % 4), i % 3 ? std::vector{via} : std::vector<std::pair<double, double>>{}});
        if (seed) { s.edges.push_back({i + 1, i, id, static_cast<int>(id % 4), i % 3 ? std::vector{via} : std::vector<std::pair<double, double>>{}}); }
        if (i % 4 == 3) { s.edges.push_back({i, i / 2, 1000ul + i, i % 4, {}}); }
    }
    s.complete = seed % 2;
    s.other = seed > 1;
    return s;
}

template<typename N, typename O, typename I>
static void suite(const std::string &name, std::size_t max, bool remove, bool faults) {
    mc::suite(cat(name, remove ? ", cleaned" : "", faults ? ", faults" : ""));
    subsets(max, [&](const Spec &s) { mc::run_case([&] { return s.str(); }, [&] { check<N, O, I>(s, remove, faults, 32768); }); });
}

template<typename N, typename O, typename I>
static void sizes(const std::string &name, std::size_t step) {
    mc::suite(name + ", by size");
    for (std::size_t size = 8192; size < 32768; size += step) {
        for (int n : {6, 30, 60}) {
            for (int seed = 0; seed < 3; ++seed) {
                mc::run_case([&] { return cat("chain of ", n, ", kind ", seed, ", files of ", size); },
                        [&] { check<N, O, I>(big(n, seed), true, false, size); });
            }
        }
    }
}

int main(int argc, char **argv) {
    return mc::main_(argc, argv, [&] {
        std::cout.setstate(std::ios::failbit);   // the library reports growing
        std::string tmp = std::string{access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp"} + "/mc_storage_XXXXXX";
        if (not mkdtemp(tmp.data())) { std::abort(); }
        dir = tmp;
        const bool t = mc::g.thorough;
        std::size_t fault_edges = t ? 4 : 3;
        using FI = Import<File, File>;
        using FN = Network<File, File, File, File>;
        using FO = Opened<File, File, File>;
#ifdef MOVING
        const std::string file = "files that move";
        fault_edges += 1;
#else
        fault::stay = true;
        const std::string file = "files";
        suite<MemN, MemO, MemI>("memory", 10, true, false);
        suite<Network<Memory, File, Memory, File>, Opened<Memory, File, Memory>, Import<File, Memory>>("files and memory", 3, true, false);
        suite<Network<File, Memory, File, Memory>, Opened<File, Memory, File>, Import<Memory, File>>("memory and files", 3, true, false);
        suite<Network<File, Memory, Memory, File>, Opened<File, Memory, Memory>, MemI>("memory to files", 3, true, false);
#endif
        suite<FN, FO, FI>(file, t ? 10 : 5, true, false);
        suite<FN, FO, FI>(file, fault_edges, true, true);
        suite<FN, FO, MemI>("memory to " + file, t ? 3 : 2, false, true);
        suite<MemN, MemO, FI>(file + " to memory", t ? 4 : 3, true, true);
        sizes<FN, FO, FI>(file, t ? 64 : 512);
        std::filesystem::remove_all(dir);
    });
}
