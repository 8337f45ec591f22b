// Shared by the graph scenarios: a plain model of a directed multigraph with list order, and the comparison
// of any import graph with it.
#pragma once
#include "core/sim.hpp"

#include <filesystem>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include <osmium/builder/osm_object_builder.hpp>
#include <osmium/memory/buffer.hpp>

#include "types/geometry/network/edge.hpp"
#include "types/geometry/network/node.hpp"
#include "types/io/helper/graph_helper.hpp"
#include "types/io/helper/tag_helper.hpp"

namespace gm {

    using namespace map_matching_2;
    using sim::u64;
    namespace st = io::memory_mapped::storage;
    using memory_t = io::memory_mapped::memory_types;
    using file_t = io::memory_mapped::file_types;

    using Pair = std::pair<std::string, std::string>;
    using Pairs = std::vector<Pair>;
    using XY = std::pair<double, double>;

    struct Vertex {
        long serial;          // identity inside the model
        u64 id;
        XY at;
    };
    struct Edge {
        long serial;
        u64 id;
        long from, to;        // vertex serials
        std::vector<XY> line;
    };

    struct Model {
        std::list<Vertex> vertices;
        std::list<Edge> edges;
        std::map<u64, Pairs> node_tags, edge_tags;
        std::vector<long> index_map;      // serials in order of creation with an index
        long next_v{0}, next_e{0};

        std::vector<long> out(long v) const { std::vector<long> r; for (auto &e : edges) if (e.from == v) r.push_back(e.serial); return r; }
        std::vector<long> in(long v) const { std::vector<long> r; for (auto &e : edges) if (e.to == v) r.push_back(e.serial); return r; }
        const Vertex *vertex(long s) const { for (auto &v : vertices) if (v.serial == s) return &v; return nullptr; }
    };

    struct TagList {
        osmium::memory::Buffer buf{512, osmium::memory::Buffer::auto_grow::yes};
        explicit TagList(const Pairs &p) {
            {
                osmium::builder::TagListBuilder b{buf};
                for (auto &x : p) b.add_tag(x.first, x.second);
            }
            buf.commit();
        }
        const osmium::TagList &get() const { return buf.get<osmium::TagList>(0); }
    };

    inline std::string show(const Pairs &p) {
        std::string s = "[";
        for (auto &x : p) s += (s.size() > 1 ? " " : "") + x.first.substr(0, 12) + "=" + x.second.substr(0, 12);
        return s + "]";
    }

    template<typename H>
    Pairs read_pairs(const H &h, u64 id, bool nodes) {
        Pairs out;
        const auto &v = nodes ? h.node_tags(id) : h.edge_tags(id);
        if (v.size() > 10000) sim::violation("tags-damaged", "an element has " + std::to_string(v.size()) + " attributes");
        for (const auto t : v) out.push_back(h.tag(t));
        return out;
    }

    template<typename H>
    void compare_tags(const H &h, const std::map<u64, Pairs> &want, const std::vector<u64> &ids, bool nodes, const char *when) {
        for (u64 id : ids) {
            Pairs got;
            const char *what = nodes ? "node " : "edge ";
            try {
                got = read_pairs(h, id, nodes);
            } catch (const std::exception &x) {
                sim::violation("tags-differ", what + std::to_string(id) + " has an unknown attribute " + when + ": " + x.what());
            }
            auto it = want.find(id);
            const Pairs exp = it == want.end() ? Pairs{} : it->second;
            if (got != exp) sim::violation("tags-differ", what + std::to_string(id) + " has " + show(got) + " instead of " + show(exp) + " " + when);
        }
    }

    template<typename Line>
    std::vector<XY> points(const Line &line) {
        std::vector<XY> r;
        const std::size_t n = line.size();
        if (n > 100000) sim::violation("edge-damaged", "an edge has " + std::to_string(n) + " points");
        for (std::size_t i = 0; i < n; ++i) r.push_back({boost::geometry::get<0>(line[i]), boost::geometry::get<1>(line[i])});
        return r;
    }

    // the whole graph, in both directions, against the model; indices are checked after a reindex
    template<typename Graph>
    void compare_graph(const Graph &g, const Model &m, const char *when, bool indexed) {
        const auto fail = [&](const char *kind, const std::string &s) { sim::violation(kind, s + " " + when); };
        const auto vv = g.vertices_view();
        const auto ev = g.edges_view();
        if (vv.size() != m.vertices.size())
            fail("vertex-count", "the graph has " + std::to_string(vv.size()) + " nodes instead of " + std::to_string(m.vertices.size()));
        if (ev.size() != m.edges.size())
            fail("edge-count", "the graph has " + std::to_string(ev.size()) + " edges instead of " + std::to_string(m.edges.size()));
        std::map<const void *, long> vserial, eserial;
        std::size_t i = 0;
        auto mv = m.vertices.begin();
        for (auto it = vv.begin(); it != vv.end(); it = vv.next(it), ++mv, ++i) {
            if (mv == m.vertices.end()) fail("vertex-count", "walking the nodes finds more than " + std::to_string(i));
            const auto &v = vv[it];
            if (v.get().id != mv->id or boost::geometry::get<0>(v.get().point) != mv->at.first or boost::geometry::get<1>(v.get().point) != mv->at.second)
                fail("vertex-differs", "node number " + std::to_string(i) + " is " + std::to_string(v.get().id) + " instead of " + std::to_string(mv->id));
            if (indexed and g.vertex_index(it) != i) fail("vertex-index", "node number " + std::to_string(i) + " has index " + std::to_string(g.vertex_index(it)));
            vserial[&v] = mv->serial;
        }
        if (mv != m.vertices.end()) fail("vertex-count", "walking the nodes finds only " + std::to_string(i));
        i = 0;
        auto me = m.edges.begin();
        for (auto it = ev.begin(); it != ev.end(); it = ev.next(it), ++me, ++i) {
            if (me == m.edges.end()) fail("edge-count", "walking the edges finds more than " + std::to_string(i));
            const auto &e = ev[it];
            const auto where = "edge number " + std::to_string(i) + " (id " + std::to_string(me->id) + ")";
            if (e.get().id != me->id) fail("edge-differs", where + " has id " + std::to_string(e.get().id));
            auto s = vserial.find(&g.get_vertex(e.source)), t = vserial.find(&g.get_vertex(e.target));
            if (s == vserial.end() or t == vserial.end()) fail("edge-dangling", where + " is connected to a node that is not in the graph");
            if (s->second != me->from or t->second != me->to) fail("edge-misconnected", where + " connects other nodes");
            const auto pts = points(e.get().rich_line.line());
            if (pts != me->line) fail("edge-geometry", where + " has " + std::to_string(pts.size()) + " points instead of " + std::to_string(me->line.size()) + " or other ones");
            if (indexed and g.edge_index(it) != i) fail("edge-index", where + " has index " + std::to_string(g.edge_index(it)));
            eserial[&e] = me->serial;
        }
        if (me != m.edges.end()) fail("edge-count", "walking the edges finds only " + std::to_string(i));
        std::map<long, std::vector<long>> mout, min;
        for (auto &e : m.edges) mout[e.from].push_back(e.serial), min[e.to].push_back(e.serial);
        const std::vector<long> none;
        for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
            const long vs = vserial[&vv[it]];
            auto list = [&](const auto &view) {
                std::vector<long> r;
                for (auto oe = view.begin(); oe != view.end(); oe = view.next(oe)) {
                    if (r.size() > m.edges.size()) fail("adjacency", "a node's edge list never ends");
                    auto f = eserial.find(&g.get_edge(view[oe]));
                    if (f == eserial.end()) fail("adjacency", "a node lists an edge that is not in the graph");
                    r.push_back(f->second);
                }
                return r;
            };
            auto eo = mout.find(vs);
            if (list(g.out_edges_view(it)) != (eo == mout.end() ? none : eo->second)) fail("adjacency", "the outgoing edges of a node differ");
            if constexpr (Graph::is_bidirectional_v) {
                auto ei = min.find(vs);
                if (list(g.in_edges_view(it)) != (ei == min.end() ? none : ei->second)) fail("adjacency", "the incoming edges of a node differ");
                if (g.in_degree(it) != (ei == min.end() ? 0 : ei->second.size())) fail("adjacency", "the in degree of a node differs");
            }
            if (g.out_degree(it) != (eo == mout.end() ? 0 : eo->second.size())) fail("adjacency", "the out degree of a node differs");
        }
    }

    template<typename Graph>
    auto nth_vertex(Graph &g, std::size_t n) {
        auto vv = g.vertices_view();
        auto it = vv.begin();
        while (n--) it = vv.next(it);
        return it;
    }

    template<typename Graph>
    auto nth_edge(Graph &g, std::size_t n) {
        auto ev = g.edges_view();
        auto it = ev.begin();
        while (n--) it = ev.next(it);
        return it;
    }

    // random attribute lists and coordinates
    struct Gen {
        sim::Rng &r;
        long nkeys, nvals, maxtags, longv;
        bool grid;
        std::string value(long i) {
            std::string s = "v" + std::to_string(i);
            if (longv == 1 and i % 3 == 0) s += std::string(static_cast<std::size_t>(20 + i * 7 % 60), static_cast<char>('a' + i % 26));
            if (longv == 2) s += std::string(static_cast<std::size_t>(i * 13 % 200), static_cast<char>('a' + i % 26));
            return s;
        }
        Pairs tags(long lo) {
            Pairs p;
            const long n = r.range(lo, maxtags);
            for (long i = 0; i < n; ++i) p.push_back({"key" + std::to_string(r.below(static_cast<u64>(nkeys))), value(static_cast<long>(r.below(static_cast<u64>(nvals))))});
            return p;
        }
        XY xy() { return grid ? XY{static_cast<double>(r.below(12)), static_cast<double>(r.below(12))}
                              : XY{static_cast<double>(r.below(1000000)) / 1000.0 - 500, static_cast<double>(r.below(160000)) / 1000.0 - 80}; }
    };

}
