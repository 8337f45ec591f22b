// The preparation of a network as the app runs it (import, clean, compress, index, save, open again), for a few
// representative combinations of storages; results are plain values so that the scenarios need no templates.
#pragma once
#include "core/sim.hpp"

#include <functional>
#include <string>
#include <utility>
#include <vector>

#include "app/options.hpp"

namespace imp {

    using sim::u64;
    using Pair = std::pair<std::string, std::string>;
    using Pairs = std::vector<Pair>;
    using XY = std::pair<double, double>;
    namespace app = map_matching_2::app;

    struct NV { u64 id; XY at; Pairs tags; auto operator<=>(const NV &) const = default; };
    struct NE { u64 id; std::size_t from, to; std::vector<XY> line; Pairs tags; double length{0}; };
    struct Net { std::vector<NV> v; std::vector<NE> e; std::size_t file_size{0}; };

    // stages: import simplify unconnected nodes edges network
    using Hook = std::function<void(const char *stage, const Net &)>;

    struct Query { XY lo, hi; };

    struct Combo {
        const char *name;
        bool geographic, mmap_graph_import, mmap_tags_import, mmap_graph, mmap_tags, mmap_indices, mmap_index_build;
        void (*prepare)(const app::prepare_data &, const Hook &);
        Net (*open)(const app::match_data &, const std::vector<Query> &);      // searches are compared with a scan
    };
    const Combo &combo(int n);      // 0 .. COMBOS-1; 0..3 geographic, 4..5 cartesian
    constexpr int COMBOS = 6;
    extern const Combo combo_0, combo_1, combo_2, combo_3, combo_4, combo_5;

    app::prepare_data prepare_settings(const Combo &, const std::string &output, const std::vector<std::string> &files, const std::string &format);
    app::match_data match_settings(const Combo &, const std::string &input);

}
