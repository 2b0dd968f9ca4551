// boost::unordered_flat_map works in memory that moves since boost 1.84, which the library builds upon; older ones keep raw pointers.
// Where the files move, and only there, the node based map, which has always kept relative pointers, takes its place.
#pragma once
#include <boost/version.hpp>
#if BOOST_VERSION < 108400
#define BOOST_UNORDERED_UNORDERED_FLAT_MAP_HPP_INCLUDED
#include <boost/unordered_map.hpp>
namespace boost {
    namespace unordered {
        template<class K, class T, class H = boost::hash<K>, class P = std::equal_to<K>, class A = std::allocator<std::pair<const K, T>>>
        using unordered_flat_map = unordered_map<K, T, H, P, A>;
    }
    using unordered::unordered_flat_map;
}
#endif
