// B01: what the parts of the program that prepare and open networks are built from
#pragma once
#include "moving_map.hpp"
#include "flat_map_serialization.hpp"
#include <boost/serialization/vector.hpp>
#include <boost/serialization/unique_ptr.hpp>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "app/prepare.hpp"

using namespace map_matching_2;

using Memory = io::memory_mapped::memory_types;
using File = io::memory_mapped::file_types;
using Geo = geometry::cs_geographic;
using Sph = geometry::cs_spherical_equatorial;
using Cart = geometry::cs_cartesian;
template<typename CS> using Pt = geometry::point_type<CS>;

template<typename CS, typename G, typename T>
using Import = geometry::network::network_import<io::helper::graph_helper_import_type<Pt<CS>, G, io::helper::import_tag_helper_type<T>>>;

#define MC_IMPORT(WORD, CS, G, T) WORD template void app::_import_network<Import<CS, G, T>>(std::unique_ptr<Import<CS, G, T>> &, const app::prepare_data &);
#define MC_IMPORTS_CS(WORD, CS) MC_IMPORT(WORD, CS, Memory, Memory) MC_IMPORT(WORD, CS, Memory, File) MC_IMPORT(WORD, CS, File, Memory) MC_IMPORT(WORD, CS, File, File)

using Dump = std::multiset<std::string>;
using Exports = std::map<std::string, Dump>;    // lines of the files

template<typename... A>
static std::string cat(const A &... a) { std::ostringstream o; o.precision(12); (o << ... << a); return o.str(); }

Dump lines_of(const std::string &file);

// imports without the program, in memory, and writes the exports as asked
template<typename CS>
Dump reference(const app::prepare_data &data, Exports &exports);

// what the program has opened
template<typename CS>
void opened(geometry::network::network_variant_type &network, const app::match_data &data, Dump &out);
