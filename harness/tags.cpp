// T01: tags of nodes and edges, kept in memory or in a memory mapped file, for every sequence of edits and with every allocation failing in turn.
// Built twice: with MOVING every file is mapped at a fresh address whenever it is opened or grown.
#ifdef MOVING
#include "moving_map.hpp"
#endif
#include "fault_file.hpp"

#include "types/io/helper/tag_helper.hpp"
#include "flat_map_serialization.hpp"
#include <boost/serialization/vector.hpp>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <osmium/builder/attr.hpp>
#include <osmium/builder/osm_object_builder.hpp>
#include <filesystem>
#include <optional>

#include "mc.hpp"

using namespace map_matching_2;
namespace st = io::memory_mapped::storage;

static std::string g_compiler = "compiler", g_version = "version";
namespace map_matching_2::util {
    std::string get_compiler_info() { return g_compiler; }
    const std::string version() { return g_version; }
}

using Tag = std::pair<std::string, std::string>;
using Tags = std::vector<Tag>;

static const std::string LONG_KEY = "a:key:that:does:not:fit:into:any:small:string", LONG_VALUE(60, 'v');
static std::string dir;

// what the tags should be
struct Ref {
    std::map<std::uint64_t, Tags> nodes, edges;
    std::set<Tag> known;

    void learn(const Tags &t) { known.insert(t.begin(), t.end()); }

    void set(std::map<std::uint64_t, Tags> &m, std::uint64_t id, const Tags &t) {
        if (t.empty()) { return; }
        learn(t);
        m.emplace(id, t);   // the first tags stay
    }

    void merge(std::uint64_t a, std::uint64_t b) {
        if (a == b or not edges.count(b)) { return; }
        const Tags other = edges[b];
        if (not edges.count(a)) { edges[a] = other; return; }
        // added are those that were not there before
        const Tags before = edges[a];
        for (auto &t : other) { if (std::find(before.begin(), before.end(), t) == before.end()) { edges[a].push_back(t); } }
    }
};

// the tag lists to set
static const std::vector<Tags> LISTS{
        {{"a", "1"}}, {{"b", "2"}, {"a", "1"}}, {{"a", "2"}, {"b", "1"}, {"b", "2"}}, {}, {{LONG_KEY, "1"}, {"a", LONG_VALUE}}, {{"1", "a"}, {"", "2"}}};

struct Lists {
    osmium::memory::Buffer buffer{1 << 16, osmium::memory::Buffer::auto_grow::yes};
    std::vector<std::size_t> at;

    Lists() {
        using namespace osmium::builder::attr;
        for (auto &l : LISTS) {
            std::vector<std::pair<const char *, const char *>> v;
            for (auto &[k, w] : l) { v.emplace_back(k.c_str(), w.c_str()); }
            if (v.empty()) {
                { osmium::builder::TagListBuilder b{buffer}; }
                at.push_back(buffer.commit());
            } else {
                at.push_back(osmium::builder::add_tag_list(buffer, _tags(v)));
            }
        }
    }

    const osmium::TagList &operator[](std::size_t i) { return buffer.get<osmium::TagList>(at[i]); }
};

static Lists &lists() { static Lists l; return l; }

template<typename H>
constexpr bool mapped = io::helper::is_mmap_tag_helper<H>;

template<typename H>
static H make(const std::string &name, std::size_t size, bool keep) {
    if constexpr (mapped<H>) {
        using S = typename H::tag_storage_type;
        return H{S{dir, name, st::DESTROY_AND_CREATE, size, keep ? st::DO_NOT_DESTROY_ON_CLOSE : st::DESTROY_ON_CLOSE,
                keep ? st::SHRINK_ON_CLOSE : st::DO_NOT_SHRINK_ON_CLOSE}};
    } else {
        return H{};
    }
}

struct Op { std::string name; };

// the other storage that is cloned from: same tags under other numbers
template<typename X>
static void fill_other(X &x, Ref &r) {
    x.id("b", "2");
    r.learn({{"b", "2"}});
    for (int i : {4, 2, 0}) {
        x.set_node_tags(10 + i, lists()[i]);
        r.set(r.nodes, 10 + i, LISTS[i]);
    }
    for (int i : {5, 1}) {
        x.set_edge_tags(10 + i, lists()[i]);
        r.set(r.edges, 10 + i, LISTS[i]);
    }
}

static const int OPS = 16;

template<typename H, typename X>
static void apply(int op, H &h, X &x, Ref &r, const Ref &rx) {
    auto has = [&](const std::map<std::uint64_t, Tags> &m, std::uint64_t id) { auto i = m.find(id); return i == m.end() ? Tags{} : i->second; };
    auto set_edge = [&](int id, int l) { h.set_edge_tags(id, lists()[l]); r.set(r.edges, id, LISTS[l]); };
    auto set_node = [&](int id, int l) { h.set_node_tags(id, lists()[l]); r.set(r.nodes, id, LISTS[l]); };
    auto clone_edge = [&](int id) { h.clone_edge_tags(id, x); r.set(r.edges, id, has(rx.edges, id)); };
    auto clone_node = [&](int id) { h.clone_node_tags(id, x); r.set(r.nodes, id, has(rx.nodes, id)); };
    auto merge = [&](int a, int b) { h.merge_edge_tags(a, b); r.merge(a, b); };
    auto id = [&](const std::string &k, const std::string &v) {
        const auto i = h.id(k, v);
        r.learn({{k, v}});
        const auto t = h.tag(i);
        mc::require(t == Tag{k, v}, "the id of ", k, "=", v, " is of ", t.first, "=", t.second);
    };
    // copies tags that are kept in the same storage, from a list of numbers
    auto copy = [&](bool edge, int to, int from) {
        std::vector<std::uint64_t> v;
        for (auto t : edge ? h.edge_tags(from) : h.node_tags(from)) { v.push_back(t); }
        if (edge) { h.copy_edge_tags(to, v); r.set(r.edges, to, has(r.edges, from)); }
        else { h.copy_node_tags(to, v); r.set(r.nodes, to, has(r.nodes, from)); }
    };
    switch (op) {
        case 0: return set_node(1, 1);
        case 1: return set_node(1, 2);
        case 2: return set_edge(1, 0);
        case 3: return set_edge(1, 5);
        case 4: return set_edge(2, 2);
        case 5: return set_edge(3, 4);
        case 6: return set_edge(4, 3);
        case 7: return merge(1, 2);
        case 8: return merge(2, 1);
        case 9: return merge(4, 3);
        case 10: return merge(3, 3);
        case 11: return clone_edge(11), clone_node(14);
        case 12: return clone_node(12), clone_edge(15);
        case 13: return clone_edge(12), clone_node(10);
        case 14: return copy(true, 5, 2), copy(false, 5, 1);
        case 15: return id("b", "a"), id(LONG_KEY, LONG_VALUE), id("b", "a");
        // bulk, for growing by size
        case 16: for (int k = 0; k < 80; ++k) {
                const std::string key = "k" + std::to_string(k % 7) + std::string(k % 40, 'x'), value = std::to_string(k);
                id(key, value);
                if (k < 8) { set_edge(20 + k, k % 6), merge(20 + k, 20 + k / 2), set_node(20 + k, 5 - k % 6); }
            }
            return;
    }
}

static const char *const NAMES[] = {"node1=[b2,a1]", "node1=[a2,b1,b2]", "edge1=[a1]", "edge1=[1a,2]", "edge2=[a2,b1,b2]", "edge3=long", "edge4=[]",
        "merge 1<2", "merge 2<1", "merge 4<3", "merge 3<3", "clone edge11 node14", "clone node12 edge15", "clone edge12 node10", "copy 5<2, 5<1", "ids", "many"};

static std::string text(const std::vector<int> &v) {
    std::string s;
    for (int o : v) { s += std::string{s.empty() ? "" : "; "} + NAMES[o]; }
    return s;
}

template<typename H>
static Tags resolve(const H &h, const auto &ids) {
    Tags t;
    for (auto i : ids) { t.push_back(h.tag(i)); }
    return t;
}

static std::string show(const Tags &t) {
    std::string s;
    for (auto &[k, v] : t) { s += k + "=" + v + " "; }
    return s;
}

template<typename H>
static void compare(const H &h, const Ref &r, bool lookups) {
    auto &s = h.tag_storage();
    for (std::uint64_t id = 0; id < 30; ++id) {
        for (bool edge : {false, true}) {
            auto &m = edge ? r.edges : r.nodes;
            auto i = m.find(id);
            const Tags want = i == m.end() ? Tags{} : i->second, got = resolve(h, edge ? h.edge_tags(id) : h.node_tags(id));
            mc::require(got == want, edge ? "edge " : "node ", id, " has ", show(got), "want ", show(want));
        }
    }
    mc::require_eq(s.nodes_map().size(), r.nodes.size(), "nodes with tags");
    mc::require_eq(s.edges_map().size(), r.edges.size(), "edges with tags");
    // one id per different tag, all ids known
    std::set<Tag> all;
    for (std::size_t i = 0; i < s.tags_map().size(); ++i) {
        const auto t = h.tag(i);
        mc::require(all.insert(t).second, t.first, "=", t.second, " has two ids");
    }
    for (auto &t : r.known) { mc::require(all.count(t), t.first, "=", t.second, " is lost"); }
    mc::require_eq(all.size(), r.known.size(), "tags");
    std::set<std::string> keys, values;
    for (auto &[k, v] : r.known) { keys.insert(k), values.insert(v); }
    mc::require_eq(s.id_key_map().size(), keys.size(), "keys");
    mc::require_eq(s.id_value_map().size(), values.size(), "values");
    bool thrown = false;
    try { (void) h.tag(s.tags_map().size() + 5); } catch (const std::invalid_argument &) { thrown = true; }
    mc::require(thrown, "a tag that does not exist is found");
    if (lookups) {
        mc::require_eq(s.ids_map().size(), all.size(), "ids");
        mc::require_eq(s.key_id_map().size(), keys.size(), "keys by name");
        mc::require_eq(s.value_id_map().size(), values.size(), "values by name");
    }
}

template<typename H>
static void finalized(H &h, const Ref &r) {
    mc::require(h.tag_storage().is_finalized(), "finalized");
    bool thrown = false;
    try { (void) h.id("new", "tag"); } catch (const std::runtime_error &) { thrown = true; }
    mc::require(thrown, "a finalized storage takes new tags");
    compare(h, r, false);
}

// returns the number of allocations; which of them fails (0 none), and whether to finalize
template<typename H, typename X>
static long run(const std::vector<int> &ops, long fail, bool fin, std::size_t size, bool each) {
    Ref r, rx;
    auto x = make<X>("other.bin", 1 << 16, false);
    fill_other(x, rx);
    long allocations = 0;
    auto body = [&](H &h) {
        fault::arm(fail);
        for (int o : ops) {
            apply(o, h, x, r, rx);
            mc::transition();
            if (each) { fault::armed = false; compare(h, r, true); fault::armed = true; }
        }
        fault::off();
        allocations = fault::count;
        compare(h, r, true);
        if (fin) {
            h.finalize();
            finalized(h, r);
        }
    };
    if constexpr (mapped<H>) {
        {
            auto h = make<H>("tags.bin", size, true);
            body(h);
        }
        using S = typename H::tag_storage_type;
        {
            const H h{S{dir, "tags.bin", st::OPEN_READ_ONLY}};
            compare(h, r, not fin);
            mc::require_eq(h.tag_storage().is_finalized(), fin, "finalized in the file");
        }
        // not for another compiler or version
        if (not fail) {
            for (auto *s : {&g_compiler, &g_version}) {
                *s += "2";
                bool thrown = false;
                try { const H h{S{dir, "tags.bin", st::OPEN_READ_ONLY}}; } catch (const std::runtime_error &) { thrown = true; }
                s->pop_back();
                mc::require(thrown, "a file of another ", s == &g_version ? "version" : "compiler", " is opened");
            }
        }
    } else {
        H h;
        body(h);
        if constexpr (requires(boost::archive::binary_oarchive &a) { typename H::tag_storage_type; requires std::same_as<typename H::tag_storage_type::allocator_type, std::allocator<void>>; }) {
        std::stringstream ss;
        {
            boost::archive::binary_oarchive oa{ss};
            oa << h;
        }
        H g;
        // loading replaces what is there
        g.set_edge_tags(1, lists()[2]);
        g.id("other", "tag");
        {
            boost::archive::binary_iarchive ia{ss};
            ia >> g;
        }
        compare(g, r, not fin);
        if (fin) { finalized(g, r); }
        else {
            // and can be continued
            Ref c = r;
            for (int o : {4, 9, 12}) { apply(o, g, x, c, rx); }
            compare(g, c, true);
        }
        H moved{std::move(g)};
        g = std::move(moved);
        (void) g.node_tags(1);
        }
    }
    mc::state(mc::hcat(mc::hstr(text(ops)), mc::hcat(fail, size)));
    mc::outcome(mc::hcat(r.known.size(), mc::hcat(r.edges.size(), mc::hstr(r.edges.count(1) ? show(r.edges[1]) : ""))));
    if (r.edges.size() > 1) { mc::nontrivial(); }
    return allocations;
}

using Mem = MM2_TAG_HELPER(MM2_MEMORY_TYPES);
using MemI = MM2_IMPORT_TAG_HELPER(MM2_MEMORY_TYPES);
using Map = MM2_TAG_HELPER(MM2_MMAP_TYPES);
using MapI = MM2_IMPORT_TAG_HELPER(MM2_MMAP_TYPES);

template<typename H, typename X>
static void suite(const std::string &name, int depth) {
    for (int d = 0; d <= depth; ++d) {
        mc::suite(name + "/" + std::to_string(d));
        mc::product(std::vector<int>(d, OPS), [&](const std::vector<int> &v) {
            mc::run_case([&] { return text(v); }, [&] {
                const bool fin = mc::hstr(text(v)) % 2;
                const long n = run<H, X>(v, 0, fin, 1 << 14, d <= 2);
                if constexpr (mapped<H>) {
                    for (long k = 1; k <= n; ++k) {
                        try {
                            run<H, X>(v, k, fin, 1 << 14, false);
                        } catch (const mc::Failed &f) {
                            mc::fail("allocation ", k, " of ", n, " fails: ", f.msg);
                        } catch (const std::exception &e) {
                            mc::fail("allocation ", k, " of ", n, " fails: exception ", e.what());
                        }
                        mc::count("failed allocations");
                    }
                }
            });
        });
    }
}

// the file is full after any number of bytes
template<typename H, typename X>
static void sizes(const std::string &name) {
    mc::suite(name);
    const std::vector<std::vector<int>> seqs{{16, 3, 9, 11, 12, 14}, {5, 9, 4, 2, 7, 8, 13, 16}, {11, 12, 0, 15, 16, 5, 9}};
    for (std::size_t size = 8192; size < 16384; size += mc::g.thorough ? 8 : 32) {
        for (auto &v : seqs) {
            mc::run_case([&] { return text(v) + ", file of " + std::to_string(size); }, [&] { run<H, X>(v, 0, size % 64 == 0, size, false); });
        }
    }
}

int main(int argc, char **argv) {
    return mc::main_(argc, argv, [&] {
        std::string tmp = std::string{access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp"} + "/mc_tags_XXXXXX";
        if (not mkdtemp(tmp.data())) { std::abort(); }
        dir = tmp;
        const bool t = mc::g.thorough;
#ifdef MOVING
        const std::string file = "file that moves";
#else
        fault::stay = true;
        const std::string file = "file";
        suite<Mem, MemI>("memory", t ? 5 : 4);
        suite<MemI, MapI>("memory, import", 3);
#endif
        suite<Map, MemI>(file, t ? 4 : 3);
        suite<MapI, Mem>(file + ", import", 3);
        suite<Map, MapI>(file + " from file", t ? 3 : 2);
        sizes<Map, MapI>(file + ", by size");
        sizes<MapI, MemI>(file + ", import, by size");
        std::filesystem::remove_all(dir);
    });
}
