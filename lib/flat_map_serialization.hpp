// boost::unordered_flat_map can be serialized since boost 1.84, which the library builds upon; this does the same for older ones.
#pragma once
#include <boost/version.hpp>
#include <boost/unordered/unordered_flat_map.hpp>
#include <boost/serialization/split_free.hpp>
#if BOOST_VERSION < 108400
namespace boost::serialization {
    template<class Archive, class K, class V, class H, class P, class A>
    void save(Archive &ar, const boost::unordered_flat_map<K, V, H, P, A> &m, const unsigned int) {
        const std::size_t n = m.size();
        ar << n;
        for (const auto &[k, v] : m) { ar << k << v; }
    }

    template<class Archive, class K, class V, class H, class P, class A>
    void load(Archive &ar, boost::unordered_flat_map<K, V, H, P, A> &m, const unsigned int) {
        std::size_t n;
        ar >> n;
        m.clear();
        m.reserve(n);
        for (; n; --n) {
            K k{};
            V v{};
            ar >> k >> v;
            m.emplace(std::move(k), std::move(v));
        }
    }

    template<class Archive, class K, class V, class H, class P, class A>
    void serialize(Archive &ar, boost::unordered_flat_map<K, V, H, P, A> &m, const unsigned int version) { split_free(ar, m, version); }
}
#endif
