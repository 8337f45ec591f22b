#pragma once
#include "import_api.hpp"

#include "app/network.hpp"
#include "app/prepare.hpp"
#include "types/io/helper/index_helper.hpp"

#include <map>
#include <sstream>

namespace imp {

    namespace mm = map_matching_2;
    using mem = mm::io::memory_mapped::memory_types;
    using file = mm::io::memory_mapped::file_types;

    template<typename H>
    Pairs read_tags(const H &h, u64 id, bool nodes) {
        Pairs out;
        const auto &v = nodes ? h.node_tags(id) : h.edge_tags(id);
        if (v.size() > 100000) sim::violation("tags-damaged", "an element has " + std::to_string(v.size()) + " attributes");
        for (const auto t : v) {
            try {
                out.push_back(h.tag(t));
            } catch (const std::exception &x) {
                sim::violation("tags-damaged", std::string{"an element has an unknown attribute: "} + x.what());
            }
        }
        return out;
    }

    template<typename Line>
    std::vector<XY> points(const Line &line) {
        std::vector<XY> r;
        const std::size_t n = line.size();
        if (n > 1000000) sim::violation("edge-damaged", "an edge has " + std::to_string(n) + " points");
        r.reserve(n);
        for (std::size_t i = 0; i < n; ++i) r.push_back({boost::geometry::get<0>(line[i]), boost::geometry::get<1>(line[i])});
        return r;
    }

    // the import graph, with the adjacency of every node checked on the way
    template<typename NI>
    Net dump_import(const NI &ni, const char *when) {
        const auto &g = ni.graph_helper().graph();
        const auto &tags = ni.graph_helper().tag_helper();
        const auto bad = [&](const std::string &s) { sim::violation("graph-damaged", s + " (" + when + ")"); };
        Net n;
        std::map<const void *, std::size_t> vi, ei;
        const auto vv = g.vertices_view();
        const auto ev = g.edges_view();
        for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
            if (n.v.size() > vv.size()) bad("the list of nodes is longer than its size");
            const auto &v = vv[it];
            vi[&v] = n.v.size();
            n.v.push_back({v.get().id, {boost::geometry::get<0>(v.get().point), boost::geometry::get<1>(v.get().point)}, read_tags(tags, v.get().id, true)});
        }
        if (n.v.size() != vv.size()) bad("the list of nodes is shorter than its size");
        for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) {
            if (n.e.size() > ev.size()) bad("the list of edges is longer than its size");
            const auto &e = ev[it];
            ei[&e] = n.e.size();
            const auto s = vi.find(&g.get_vertex(e.source)), t = vi.find(&g.get_vertex(e.target));
            if (s == vi.end() or t == vi.end()) bad("an edge is connected to a node that is not in the graph");
            n.e.push_back({e.get().id, s->second, t->second, points(e.get().rich_line.line()), read_tags(tags, e.get().id, false)});
        }
        if (n.e.size() != ev.size()) bad("the list of edges is shorter than its size");
        std::size_t outs = 0, ins = 0;
        for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
            const std::size_t me = vi[&vv[it]];
            std::size_t walked = 0;
            std::map<std::size_t, int> seen;
            const auto ov = g.out_edges_view(it);
            for (auto o = ov.begin(); o != ov.end(); o = ov.next(o), ++outs) {
                if (++walked > n.e.size()) bad("a node's list of edges never ends");
                const auto f = ei.find(&g.get_edge(ov[o]));
                if (f == ei.end()) bad("a node lists an edge that is not in the graph");
                if (n.e[f->second].from != me or seen[f->second]++) bad("a node lists an outgoing edge that is not its own, or twice");
            }
            if (walked != g.out_degree(it)) bad("the degree of a node is wrong");
            walked = 0;
            seen.clear();
            const auto iv = g.in_edges_view(it);
            for (auto o = iv.begin(); o != iv.end(); o = iv.next(o), ++ins) {
                if (++walked > n.e.size()) bad("a node's list of edges never ends");
                const auto f = ei.find(&g.get_edge(iv[o]));
                if (f == ei.end()) bad("a node lists an edge that is not in the graph");
                if (n.e[f->second].to != me or seen[f->second]++) bad("a node lists an incoming edge that is not its own, or twice");
            }
            if (walked != g.in_degree(it)) bad("the degree of a node is wrong");
        }
        if (outs != n.e.size() or ins != n.e.size()) bad("nodes list more or fewer edges than there are");
        return n;
    }

    template<typename N>
    Net dump_network(const N &net, const char *when) {
        const auto &g = net.graph_helper().graph();
        const auto &tags = net.graph_helper().tag_helper();
        const auto bad = [&](const std::string &s) { sim::violation("graph-damaged", s + " (" + when + ")"); };
        Net n;
        const auto vv = g.vertices_view();
        const auto ev = g.edges_view();
        if (vv.size() > 1000000 or ev.size() > 1000000) bad("the network is too large");
        for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
            const auto &v = vv[it].get();
            n.v.push_back({v.id, {boost::geometry::get<0>(v.point), boost::geometry::get<1>(v.point)}, read_tags(tags, v.id, true)});
        }
        for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) {
            const auto &e = ev[it].get();
            if (g.source(it) >= n.v.size() or g.target(it) >= n.v.size()) bad("an edge is connected to a node that is not in the network");
            n.e.push_back({e.id, g.source(it), g.target(it), points(e.rich_line.line()), read_tags(tags, e.id, false),
                    e.rich_line.has_length() ? static_cast<double>(e.rich_line.length()) : 0.0});
        }
        return n;
    }

    template<typename CS, typename GI, typename TI, typename G, typename T, typename I, typename IB>
    struct Impl {
        using P = mm::geometry::point_type<CS>;
        using NI = mm::geometry::network::network_import<mm::io::helper::graph_helper_import_type<P, GI, mm::io::helper::import_tag_helper_type<TI>>>;
        using GH = mm::io::helper::graph_helper_type<P, G, mm::io::helper::tag_helper_type<T>>;
        using N = mm::geometry::network::network<GH, mm::io::helper::index_helper_type<P, I, IB>>;
        using RN = mm::geometry::network::network<GH, mm::io::helper::index_helper_read_only_type<P, I>>;

        // app/prepare.hpp: _prepare() and _import_network(), with these storages instead of a runtime choice
        static void prepare(const app::prepare_data &data, const Hook &hook) {
            std::filesystem::create_directory(data.network.output);
            std::unique_ptr<NI> ni = app::_create_network_import<NI>(data);
            const auto stage = [&](const char *s) { if (hook) hook(s, dump_import(*ni, s)); };
            app::_execute_import(ni->graph_helper(), data);
            stage("import");
            app::_simplify(ni, data);
            stage("simplify");
            app::_remove_unconnected(ni, data);
            stage("unconnected");
            app::_remove_duplicate_nodes(ni, data);
            stage("nodes");
            app::_remove_duplicate_edges(ni, data);
            stage("edges");
            std::unique_ptr<N> n = app::_create_network<N>(data);
            app::_finish_import(n, ni, data);
            if (hook) hook("network", dump_network(*n, "network"));
            app::_finish_preparation(n, data);
        }

        static Net open(const app::match_data &data, const std::vector<Query> &queries) {
            namespace bg = boost::geometry;
            using Segment = typename mm::geometry::models<P>::segment_type;
            std::unique_ptr<RN> n = app::_open_network<RN>(data);
            app::load_network(*n, data);
            Net net = dump_network(*n, "opened");
            std::size_t segments = 0;
            for (auto &e : net.e) segments += e.line.empty() ? 0 : e.line.size() - 1;
            if (n->points_index().size() != net.v.size() or n->segments_index().size() != segments)
                sim::violation("search-differs", "the indices of the opened network have " + std::to_string(n->points_index().size()) + " nodes and " + std::to_string(n->segments_index().size()) +
                        " segments instead of " + std::to_string(net.v.size()) + " and " + std::to_string(segments));
            for (const auto &q : queries) {
                const bg::model::box<P> box{P{q.lo.first, q.lo.second}, P{q.hi.first, q.hi.second}};
                using Id = std::pair<std::size_t, std::size_t>;
                std::vector<Id> a, b, want_a, want_b;
                for (const auto &x : n->query_points(bg::index::intersects(box))) a.push_back({x.second, 0});
                for (const auto &x : n->query_segments(bg::index::intersects(box))) b.push_back(x.second);
                for (std::size_t i = 0; i < net.v.size(); ++i) if (bg::intersects(P{net.v[i].at.first, net.v[i].at.second}, box)) want_a.push_back({i, 0});
                for (std::size_t i = 0; i < net.e.size(); ++i) for (std::size_t k = 0; k + 1 < net.e[i].line.size(); ++k) {
                    const auto &u = net.e[i].line[k], &w = net.e[i].line[k + 1];
                    if (bg::intersects(Segment{P{u.first, u.second}, P{w.first, w.second}}, box)) want_b.push_back({i, k});
                }
                std::sort(a.begin(), a.end()), std::sort(b.begin(), b.end());
                if (a != want_a) sim::violation("search-differs", "a box of the opened network contains " + std::to_string(a.size()) + " nodes instead of " + std::to_string(want_a.size()));
                if (b != want_b) {
                    std::vector<Id> d;
                    std::set_symmetric_difference(b.begin(), b.end(), want_b.begin(), want_b.end(), std::back_inserter(d));
                    const auto &l = net.e[d[0].first].line;
                    const auto &u = l[d[0].second], &w = l[d[0].second + 1];
                    std::ostringstream o;
                    o.precision(17);
                    o << "box (" << q.lo.first << " " << q.lo.second << ", " << q.hi.first << " " << q.hi.second << ") of the opened network meets " << b.size() << " segments instead of " << want_b.size() <<
                            ", segment (" << u.first << " " << u.second << ", " << w.first << " " << w.second << ")";
                    sim::violation("search-differs", o.str());
                }
            }
            return net;
        }
    };

    template<typename CS, typename GI, typename TI, typename G, typename T, typename I, typename IB>
    constexpr Combo make(const char *name) {
        using X = Impl<CS, GI, TI, G, T, I, IB>;
        return {name, std::same_as<CS, mm::geometry::cs_geographic>, std::same_as<GI, file>, std::same_as<TI, file>, std::same_as<G, file>, std::same_as<T, file>, std::same_as<I, file>,
                std::same_as<IB, file>, &X::prepare, &X::open};
    }

}
