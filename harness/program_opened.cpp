// what is in a network: by the program for one coordinate system, and by the plain steps of the library
#include "program.hpp"
#include "app/match.hpp"

static std::string num(double d) { char b[40]; std::snprintf(b, sizeof b, "%.9g", d + 0.0); return b; }
static std::string text(const auto &p) { return num(p.template get<0>()) + "/" + num(p.template get<1>()); }

template<typename N>
static Dump dump(const N &net) {
    Dump d;
    const auto &g = net.graph();
    const auto &tags = net.tag_helper();
    const auto vv = g.vertices_view();
    const auto ev = g.edges_view();
    auto tag_text = [&](const auto &ids) {
        std::multiset<std::string> s;
        for (auto i : ids) { auto [k, v] = tags.tag(i); s.insert(k + "=" + v); }
        std::string r;
        for (auto &x : s) { r += x + ","; }
        return r;
    };
    auto edge_text = [&](auto it) {
        const auto &e = ev[it].get();
        std::string s = cat("edge ", e.id, " from ", vv[g.source(it)].get().id, " to ", vv[g.target(it)].get().id, ":");
        const auto &r = e.rich_line;
        for (std::size_t i = 0; i < r.size(); ++i) { s += " " + text(r.at(i)); }
        return s;
    };
    for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
        const auto &v = vv[it].get();
        d.insert(cat("node ", v.id, " ", text(v.point), " ", tag_text(tags.node_tags(v.id))));
    }
    for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) {
        const auto &e = ev[it].get();
        d.insert(cat(edge_text(it), " ", tag_text(tags.edge_tags(e.id)), " ", num(e.rich_line.length())));
    }
    auto all = boost::geometry::index::satisfies([](const auto &) { return true; });
    for (const auto &q : net.query_points(all)) { d.insert(cat("indexed point ", text(q.first), " of node ", vv[q.second].get().id)); }
    for (const auto &q : net.query_segments(all)) {
        d.insert(cat("indexed segment ", text(q.first.first), " ", text(q.first.second), " no. ", q.second.second, " of ", edge_text(q.second.first)));
    }
    return d;
}

template<typename CS>
void opened(geometry::network::network_variant_type &network, const app::match_data &data, Dump &out) {
    std::visit([&](auto &&net) {
        using N = typename std::remove_cvref_t<decltype(net)>::element_type;
        if constexpr (std::is_same_v<typename geometry::network::network_traits<N>::coordinate_system_type, CS>) {
            app::_open_network(net, data);
            out = dump(*net);
            net.reset();
        }
    }, std::move(network));
}

template<typename CS>
Dump reference(const app::prepare_data &data, Exports &exports) {
    using I = Import<CS, Memory, Memory>;
    using GH = typename geometry::network::network_traits<I>::graph_helper_type;
    using N = geometry::network::network<io::helper::graph_helper_type<Pt<CS>, Memory, io::helper::tag_helper_type<Memory>>,
            io::helper::index_helper_type<Pt<CS>, Memory, Memory>>;
    I import{GH{typename GH::graph_storage_type{}, typename GH::tag_helper_type{}}};
    auto &gh = import.graph_helper();
    const auto projector = [&] { return geometry::create_point_reprojector(data.srs.srs_transform); };
    const auto &f = data.network.format;
    if (f == "osm") {
        using T = io::helper::import_tag_helper_type<Memory>;
        using OH = io::helper::osm_handler_helper_type<Pt<CS>, Memory, T>;
        io::network::osm_handler<GH, OH> handler{gh, projector(), OH{typename OH::osm_handler_storage_type{}, T{}}};
        if (data.osm_import.profile == "car") { io::network::osm_car_importer x{data.network.files, handler}; x.read(); }
        else {
            io::network::osm_manual_importer x{data.network.files, handler, data.osm_import.query, data.osm_import.filter, data.osm_import.oneway, data.osm_import.oneway_reverse};
            x.read();
        }
    } else if (f == "arc-node") { io::network::arc_node_importer x{data.network.files, gh, projector()}; x.read(); }
    else if (f == "seattle") { io::network::seattle_importer x{data.network.files, gh, projector()}; x.read(); }
    else if (f == "melbourne") { io::network::melbourne_importer x{data.network.files, gh, projector()}; x.read(); }
    else { io::network::giscup_importer x{data.network.files, gh, projector()}; x.read(); }
    const auto &s = data.process.simplify;
    if (s == "all" or s == "osm-aware") { gh.simplify(import, s == "all"); }
    if (data.process.remove_unconnected) { import.remove_unconnected_components(); }
    if (data.process.remove_duplicate_nodes) { import.remove_duplicate_nodes(s != "none", s == "all"); }
    if (data.process.remove_duplicate_edges) { import.remove_duplicate_edges(); }
    using NG = typename geometry::network::network_traits<N>::graph_helper_type;
    using IX = typename N::index_helper_type;
    N net{NG{typename NG::graph_storage_type{}, typename NG::tag_helper_type{}}, IX{typename IX::index_storage_type{}, typename IX::index_build_helper_type{}}};
    net.graph_helper().from_adjacency_list(gh, import.tag_helper());
    net.build_spatial_indices();
    std::filesystem::create_directory(data.network.output);
    const std::filesystem::path out{data.network.output};
    if (not data.expo.export_nodes_csv_file.empty()) {
        const auto name = (out / data.expo.export_nodes_csv_file).string();
        net.save_nodes_csv(name), exports[data.expo.export_nodes_csv_file] = lines_of(name);
    }
    if (not data.expo.export_edges_csv_file.empty()) {
        const auto name = (out / data.expo.export_edges_csv_file).string();
        net.save_edges_csv(name), exports[data.expo.export_edges_csv_file] = lines_of(name);
    }
    if (not data.expo.export_network_osm_file.empty()) {
        const auto name = (out / data.expo.export_network_osm_file).string();
        const auto back = geometry::compute_next_srs_transform(data.srs.srs_transform, 4326, geometry::SRS::CS_GEOGRAPHIC);
        { io::network::osm_exporter x{name, net.graph(), net.tag_helper(), geometry::create_point_reprojector(back)}; x.write(); }
        exports[data.expo.export_network_osm_file] = lines_of(name);
    }
    return dump(net);
}

template Dump reference<PART_CS>(const app::prepare_data &, Exports &);
template void opened<PART_CS>(geometry::network::network_variant_type &, const app::match_data &, Dump &);
