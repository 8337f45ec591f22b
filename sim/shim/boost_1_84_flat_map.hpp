// Boost 1.84 added serialization of boost::unordered_flat_map; this sandbox has 1.83. Force-included.
#ifndef VERIF_SHIM_FLAT_MAP_HPP
#define VERIF_SHIM_FLAT_MAP_HPP

#include <cstddef>
#include <cstdint>
#include <utility>

#include <boost/serialization/split_free.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/version.hpp>
#include <boost/unordered/unordered_flat_map.hpp>

namespace boost::serialization {

    template<class Ar, class K, class V, class H, class E, class A>
    void save(Ar &ar, const boost::unordered_flat_map<K, V, H, E, A> &m, const unsigned int) {
        const std::uint64_t n = m.size();
        ar << n;
        for (const auto &p : m) {
            ar << p.first;
            ar << p.second;
        }
    }

    template<class Ar, class K, class V, class H, class E, class A>
    void load(Ar &ar, boost::unordered_flat_map<K, V, H, E, A> &m, const unsigned int) {
        std::uint64_t n{0};
        ar >> n;
        m.clear();
        for (std::uint64_t i = 0; i < n; ++i) {
            K k{};
            V v{};
            ar >> k;
            ar >> v;
            m.emplace(std::move(k), std::move(v));
        }
    }

    template<class Ar, class K, class V, class H, class E, class A>
    void serialize(Ar &ar, boost::unordered_flat_map<K, V, H, E, A> &m, const unsigned int v) {
        split_free(ar, m, v);
    }

}

#endif
