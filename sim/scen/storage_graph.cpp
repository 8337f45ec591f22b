// M02: the import graph is the same graph in files as in memory, through growth and through failing allocations.
#include "graph_common.hpp"

#include "graph/adjacency_list.hpp"
#include "graph/common.hpp"
#include "geometry/rich_type/traits/rich_line.hpp"

namespace {

    using namespace gm;

    struct Op {
        int kind{0};
        u64 a{0}, b{0}, id{0};
        Pairs tags;
        std::vector<XY> mid;
        XY at;
    };
    enum { ADD_VERTEX_LIST, ADD_VERTEX_CLONE, ADD_VERTEX_OTHER, ADD_VERTEX_OWN, ADD_EDGE_LIST, ADD_EDGE_CLONE, ADD_EDGE_PLAIN, MERGE_TAGS,
        REMOVE_EDGE, REMOVE_EDGES_BETWEEN, CLEAR_VERTEX, REMOVE_VERTEX, REINDEX, ADD_VERTEX_NOINDEX };
    const char *op_name[] = {"add node with attributes", "add node with cloned attributes", "add node of another type", "add node",
        "add edge with attributes", "add edge with cloned attributes", "add edge", "merge attributes", "remove edge", "remove edges between two nodes",
        "clear node", "remove node", "reindex", "add node without index"};

    template<typename Point>
    struct OtherNode { u64 id; Point point; };

    // ---------------------------------------------------------------- files

    template<typename Point>
    void drive_files(sim::Ctx &c) {
        using Tag = io::helper::import_tag_helper_type<file_t>;
        using Helper = io::helper::graph_helper_import_type<Point, file_t, Tag>;
        using MemTag = io::helper::import_tag_helper_type<memory_t>;
        using Transport = geometry::network::edge_type<Point>;
        using TLine = typename Transport::rich_line_type;
        using TL = typename geometry::rich_line_traits<TLine>::line_type;
        using Node = geometry::network::node<Point>;
        using S = typename Helper::graph_storage_type;
        using TS = typename Tag::tag_storage_type;

        auto r = c.rng("work");
        const long size = c.param("size_b", 2, 24) * 1024, tsize = c.param("tag_size_kb", 24, 64) * 1024;
        const long nadds = c.param("ops", 5, c.tier == "thorough" ? 700 : 400), nrem = c.param("removals", 0, 120);
        const long maxmid = c.param("max_inner_points", 0, 3) == 0 ? 40 : 4;
        const long nids = c.param("ids", 1, 200);
        const bool faults = c.param("disk_faults", 0, 5) == 0;
        Gen gen{r, c.param("keys", 1, 6), c.param("values", 1, 60), c.param("maxtags", 1, 6), c.param("longvalues", 0, 2), c.param("grid", 0, 1) == 1};

        MemTag other;
        for (long i = 0; i < nids; ++i) {
            const TagList a{gen.tags(0)}, b{gen.tags(0)};
            other.set_node_tags(static_cast<u64>(i), a.get());
            other.set_edge_tags(static_cast<u64>(i), b.get());
        }
        std::vector<Op> ops;
        for (long i = 0; i < nadds + nrem; ++i) {
            Op o;
            static const int adds[] = {ADD_VERTEX_LIST, ADD_VERTEX_CLONE, ADD_VERTEX_OTHER, ADD_VERTEX_OWN, ADD_EDGE_LIST, ADD_EDGE_LIST, ADD_EDGE_CLONE, ADD_EDGE_CLONE, ADD_EDGE_PLAIN, MERGE_TAGS};
            static const int rems[] = {REMOVE_EDGE, REMOVE_EDGE, REMOVE_EDGES_BETWEEN, CLEAR_VERTEX, CLEAR_VERTEX, REMOVE_VERTEX, REINDEX, ADD_VERTEX_NOINDEX};
            o.kind = i < nadds ? adds[r.below(sizeof adds / sizeof *adds)] : rems[r.below(sizeof rems / sizeof *rems)];
            o.a = r.next(), o.b = r.next(), o.id = r.below(static_cast<u64>(nids));
            o.tags = gen.tags(0);
            const long n = r.range(0, maxmid);
            for (long k = 0; k < n; ++k) o.mid.push_back(gen.xy());
            o.at = gen.xy();
            ops.push_back(std::move(o));
        }

        Model m;
        std::vector<u64> all_ids;
        for (long i = 0; i < nids; ++i) all_ids.push_back(static_cast<u64>(i));
        sim::heap_check(true);
        bool aborted = false, indices_kept = true;
        {
            std::unique_ptr<Helper> h;
            try {
                h = std::make_unique<Helper>(
                        S{c.dir + "/store", "graph.bin", st::DESTROY_AND_CREATE, static_cast<std::size_t>(size), st::DO_NOT_DESTROY_ON_CLOSE, st::SHRINK_ON_CLOSE},
                        Tag{TS{c.dir + "/store", "tags.bin", st::DESTROY_AND_CREATE, static_cast<std::size_t>(tsize), st::DO_NOT_DESTROY_ON_CLOSE, st::SHRINK_ON_CLOSE}});
            } catch (const boost::interprocess::bad_alloc &) {
                sim::count("probe:too-small-to-create");
                return;
            }
            if (faults) {
                sim::IoPlan p;
                p.p_truncate_fail = 0.3, p.p_enospc = 0.3;
                p.p_mmap_fail = r.chance(0.5) ? 0.15 : 0;
                p.p_open_fail = r.chance(0.5) ? 0.15 : 0;
                p.only = "/store";
                sim::io_plan(p);
            }
            std::size_t last = h->size() + h->tag_helper().size();
            const std::size_t first = last;
            for (std::size_t i = 0; i < ops.size(); ++i) {
                if (not c.keep(i)) continue;
                const Op &o = ops[i];
                const TagList list{o.tags};
                const auto nv = m.vertices.size();
                auto vertex_at = [&](u64 n) { auto it = m.vertices.begin(); std::advance(it, static_cast<long>(n)); return it; };
                auto put = [](std::map<u64, Pairs> &t, u64 id, const Pairs &p) { if (not p.empty()) t.emplace(id, p); };
                auto model_vertex = [&](bool index) {
                    m.vertices.push_back({m.next_v++, o.id, o.at});
                    if (index) m.index_map.push_back(m.vertices.back().serial);
                };
                try {
                    switch (o.kind) {
                        case ADD_VERTEX_LIST: case ADD_VERTEX_CLONE: case ADD_VERTEX_OTHER: case ADD_VERTEX_OWN: {
                            u64 index = 0;
                            const Point at{o.at.first, o.at.second};
                            if (o.kind == ADD_VERTEX_LIST) { index = h->add_vertex_with_index_mapping(Node{o.id, at}, list.get()); put(m.node_tags, o.id, o.tags); }
                            if (o.kind == ADD_VERTEX_CLONE) { index = h->add_vertex_with_index_mapping(Node{o.id, at}, other); put(m.node_tags, o.id, read_pairs(other, o.id, true)); }
                            if (o.kind == ADD_VERTEX_OTHER) index = h->add_vertex_with_index_mapping(OtherNode<Point>{o.id, at});
                            if (o.kind == ADD_VERTEX_OWN) index = h->add_vertex_with_index_mapping(Node{o.id, at});
                            sim::check(index == m.index_map.size(), "vertex-index", "the new node got index " + std::to_string(index) + " instead of " + std::to_string(m.index_map.size()));
                            model_vertex(true);
                            break;
                        }
                        case ADD_EDGE_LIST: case ADD_EDGE_CLONE: case ADD_EDGE_PLAIN: {
                            if (nv == 0) break;
                            const u64 a = o.a % m.index_map.size(), b = o.b % m.index_map.size();
                            const Vertex va = *m.vertex(m.index_map[a]), vb = *m.vertex(m.index_map[b]);
                            std::vector<XY> pts{va.at};
                            pts.insert(pts.end(), o.mid.begin(), o.mid.end());
                            pts.push_back(vb.at);
                            TL line;
                            for (auto &p : pts) line.push_back(Point{p.first, p.second});
                            const Transport e{o.id, TLine{line}};
                            if (o.kind == ADD_EDGE_LIST) { h->add_edge(a, b, e, list.get()); put(m.edge_tags, o.id, o.tags); }
                            if (o.kind == ADD_EDGE_CLONE) { h->add_edge(a, b, e, other); put(m.edge_tags, o.id, read_pairs(other, o.id, false)); }
                            if (o.kind == ADD_EDGE_PLAIN) h->add_edge(a, b, e);
                            m.edges.push_back({m.next_e++, o.id, va.serial, vb.serial, pts});
                            break;
                        }
                        case MERGE_TAGS: {
                            const u64 x = o.id, y = o.a % static_cast<u64>(nids);
                            h->tag_helper().merge_edge_tags(x, y);
                            if (x != y and m.edge_tags.count(y)) {
                                if (m.edge_tags.count(x)) {
                                    const Pairs had = m.edge_tags[x];
                                    for (auto &t : m.edge_tags[y]) if (std::find(had.begin(), had.end(), t) == had.end()) m.edge_tags[x].push_back(t);
                                } else m.edge_tags[x] = m.edge_tags[y];
                            }
                            break;
                        }
                        case REMOVE_EDGE: {
                            if (m.edges.empty()) break;
                            const u64 n = o.a % m.edges.size();
                            h->graph().remove_edge(nth_edge(h->graph(), n));
                            auto it = m.edges.begin();
                            std::advance(it, static_cast<long>(n));
                            m.edges.erase(it);
                            break;
                        }
                        case REMOVE_EDGES_BETWEEN: {
                            if (m.edges.empty()) break;
                            auto it = m.edges.begin();
                            std::advance(it, static_cast<long>(o.a % m.edges.size()));
                            const long f = it->from, t = it->to;
                            auto pos = [&](long s) { std::size_t k = 0; for (auto &v : m.vertices) { if (v.serial == s) break; ++k; } return k; };
                            h->graph().remove_edge(nth_vertex(h->graph(), pos(f)), nth_vertex(h->graph(), pos(t)));
                            m.edges.remove_if([&](auto &e) { return e.from == f and e.to == t; });
                            break;
                        }
                        case CLEAR_VERTEX: case REMOVE_VERTEX: {
                            if (nv == 0) break;
                            const u64 n = o.a % nv;
                            auto v = vertex_at(n);
                            h->graph().clear_vertex(nth_vertex(h->graph(), n));
                            m.edges.remove_if([&](auto &e) { return e.from == v->serial or e.to == v->serial; });
                                                        if (o.kind == REMOVE_VERTEX) {
                                h->graph().remove_vertex(nth_vertex(h->graph(), n));
                                indices_kept = false;
                                m.vertices.erase(v);
                            }
                            break;
                        }
                        case REINDEX:
                            h->graph().reindex();
                            compare_graph(h->graph(), m, "after reindexing", true);
                            break;
                        case ADD_VERTEX_NOINDEX: {
                            const Point at{o.at.first, o.at.second};
                            switch (o.b % 4) {
                                case 0: (void) h->add_vertex(Node{o.id, at}, list.get()); put(m.node_tags, o.id, o.tags); break;
                                case 1: (void) h->add_vertex(Node{o.id, at}, other); put(m.node_tags, o.id, read_pairs(other, o.id, true)); break;
                                case 2: (void) h->add_vertex(OtherNode<Point>{o.id, at}); break;
                                default: (void) h->add_vertex(Node{o.id, at}); break;
                            }
                            model_vertex(false);
                            indices_kept = false;
                            break;
                        }
                        default: break;
                    }
                } catch (const std::exception &x) {
                    if (faults and sim::io_failed()) { aborted = true; sim::count("probe:refused-after-disk-fault"); break; }
                    sim::violation("operation-failed", std::string{op_name[o.kind]} + " failed without any disk fault (graph file " +
                            std::to_string(h->size()) + ", attribute file " + std::to_string(h->tag_helper().size()) + "): " + x.what());
                }
                const std::size_t now = h->size() + h->tag_helper().size();
                if (now != last) {
                    sim::count("growth", 1);
                    sim::state(sim::mix(static_cast<u64>(o.kind), now / static_cast<std::size_t>(first)));
                    sim::nontrivial();
                    last = now;
                    compare_graph(h->graph(), m, "after a file grew", false);
                    compare_tags(h->tag_helper(), m.node_tags, all_ids, true, "after a file grew");
                    compare_tags(h->tag_helper(), m.edge_tags, all_ids, false, "after a file grew");
                }
            }
            if (not aborted) {
                compare_graph(h->graph(), m, "at the end", indices_kept and m.edges.size() == static_cast<std::size_t>(m.next_e));
                if (indices_kept) {
                    // nothing was removed: every index still names its node
                    for (std::size_t i = 0; i < m.index_map.size(); ++i) {
                        const auto &v = h->graph().get_vertex_data(h->get_vertex_descriptor_for_index(i));
                        sim::check(v.id == m.vertex(m.index_map[i])->id, "vertex-index", "index " + std::to_string(i) + " names another node");
                    }
                }
                h->graph().reindex();
                compare_graph(h->graph(), m, "after the final reindexing", true);
            }
            sim::io_reset();
        }
        if (aborted) return;
        {
            Helper h{S{c.dir + "/store", "graph.bin", st::OPEN_READ_ONLY}, Tag{TS{c.dir + "/store", "tags.bin", st::OPEN_READ_ONLY}}};
            compare_graph(h.graph(), m, "after reopening", true);
            compare_tags(h.tag_helper(), m.node_tags, all_ids, true, "after reopening");
            compare_tags(h.tag_helper(), m.edge_tags, all_ids, false, "after reopening");
            sim::count("probe:reopened");
        }
    }

    // ---------------------------------------------------------------- memory, with failing allocations

    struct ME { long serial, id; std::size_t from, to; };       // from, to: positions are stable serials
    struct MM {
        std::vector<std::pair<long, std::string>> v;            // serial, data
        std::vector<std::tuple<long, std::string, long, long>> e;   // serial, data, from, to
        bool operator==(const MM &) const = default;
    };

    template<typename G>
    void compare_plain(const G &g, const MM &m, const char *when) {
        const auto fail = [&](const std::string &s) { sim::violation("graph-differs", s + " " + when); };
        const auto vv = g.vertices_view();
        const auto ev = g.edges_view();
        if (vv.size() != m.v.size()) fail("the graph has " + std::to_string(vv.size()) + " nodes instead of " + std::to_string(m.v.size()));
        if (ev.size() != m.e.size()) fail("the graph has " + std::to_string(ev.size()) + " edges instead of " + std::to_string(m.e.size()));
        std::map<const void *, long> vs, es;
        std::size_t i = 0;
        for (auto it = vv.begin(); i < m.v.size(); it = vv.next(it), ++i) {
            if (vv[it].get() != m.v[i].second) fail("node number " + std::to_string(i) + " has other data");
            vs[&vv[it]] = m.v[i].first;
        }
        i = 0;
        for (auto it = ev.begin(); i < m.e.size(); it = ev.next(it), ++i) {
            const auto &e = ev[it];
            if (e.get() != std::get<1>(m.e[i])) fail("edge number " + std::to_string(i) + " has other data");
            auto s = vs.find(&g.get_vertex(g.source(it))), t = vs.find(&g.get_vertex(g.target(it)));
            if (s == vs.end() or t == vs.end() or s->second != std::get<2>(m.e[i]) or t->second != std::get<3>(m.e[i])) fail("edge number " + std::to_string(i) + " connects other nodes");
            es[&e] = std::get<0>(m.e[i]);
        }
        i = 0;
        for (auto it = vv.begin(); i < m.v.size(); it = vv.next(it), ++i) {
            const long me = m.v[i].first;
            std::vector<long> out, in;
            for (auto &[s, d, f, t] : m.e) {
                if (f == me or (G::is_undirected_v and t == me)) out.push_back(s);
                if (t == me) in.push_back(s);
            }
            auto list = [&](const auto &view) {
                std::vector<long> r;
                std::size_t k = 0;
                const std::size_t n = view.size();
                for (auto oe = view.begin(); k < n; oe = view.next(oe), ++k) {
                    auto f = es.find(&g.get_edge(view[oe]));
                    if (f == es.end()) fail("a node lists an edge that is not in the graph");
                    r.push_back(f->second);
                }
                return r;
            };
            if (list(g.out_edges_view(it)) != out) fail("the outgoing edges of node " + std::to_string(i) + " differ");
            if constexpr (G::is_bidirectional_v) {
                if (list(g.in_edges_view(it)) != in) fail("the incoming edges of node " + std::to_string(i) + " differ");
            }
        }
    }

    template<typename G>
    void drive_memory(sim::Ctx &c) {
        constexpr bool lists = not util::is_random_access_v<typename G::vertex_container>;
        auto r = c.rng("work");
        const long nops = c.param("ops", 5, 200);
        const double pfail = c.param("alloc_faults", 0, 2) == 0 ? 0 : 0.02 * static_cast<double>(c.param("alloc_fault_rate", 1, 10));
        const long sparse = c.param("max_nodes", 1, 12);
        G g;
        MM m;
        long next = 0;
        auto text = [&](const char *p) { return std::string{p} + std::to_string(next) + std::string(next % 5 == 0 ? 40 : 0, 'x'); };
        sim::heap_check(true);
        sim::start_sched(sim::Sched{});
        std::vector<std::array<u64, 4>> ops;
        for (long i = 0; i < nops; ++i) ops.push_back({r.next(), r.next(), r.next(), r.next()});
        std::size_t idx = 0;
        for (auto &o : ops) {
            if (not c.keep(idx++)) continue;
            const MM before = m;
            const int kind = static_cast<int>(o[0] % 20);
            auto vpos = [&](u64 n) { return n % m.v.size(); };
            auto vdesc = [&](std::size_t n) { auto vv = g.vertices_view(); auto it = vv.begin(); while (n--) it = vv.next(it); typename G::vertex_descriptor d = it; return d; };
            auto edesc = [&](std::size_t n) { auto ev = g.edges_view(); auto it = ev.begin(); while (n--) it = ev.next(it); typename G::edge_descriptor d = it; return d; };
            try {
                if (m.v.empty() or (kind < 4 and static_cast<long>(m.v.size()) < sparse)) {
                    const std::string d = text("v");
                    std::string data = d;
                    m.v.push_back({next++, d});
                    sim::alloc_fault_window(pfail);
                    (void) g.add_vertex(std::move(data));
                    sim::alloc_fault_window(0);
                } else if (kind < 13 or not lists) {
                    const auto a = vpos(o[1]), b = vpos(o[2] % 4 == 0 ? o[1] : o[3]);
                    const auto da = vdesc(a), db = vdesc(b);
                    const std::string d = text("e");
                    std::string data = d;
                    m.e.push_back({next++, d, m.v[a].first, m.v[b].first});
                    sim::alloc_fault_window(pfail);
                    (void) g.add_edge(da, db, std::move(data));
                    sim::alloc_fault_window(0);
                } else if constexpr (lists) {
                    if (kind < 15 and not m.e.empty()) {
                        const auto n = o[1] % m.e.size();
                        // the descriptor may be a copy, or the one the node itself keeps
                        if (o[2] % 2) g.remove_edge(edesc(n));
                        else { const auto d = edesc(n); g.remove_edge(d); }
                        m.e.erase(m.e.begin() + static_cast<long>(n));
                    } else if (kind < 17 and not m.e.empty()) {
                        const auto [s, d, f, t] = m.e[o[1] % m.e.size()];
                        auto pos = [&](long x) { std::size_t k = 0; while (m.v[k].first != x) ++k; return k; };
                        const auto df = vdesc(pos(f)), dt = vdesc(pos(t));
                        g.remove_edge(df, dt);
                        std::erase_if(m.e, [&, f = f, t = t](auto &e) { return std::get<2>(e) == f and std::get<3>(e) == t; });
                    } else {
                        const auto n = vpos(o[1]);
                        const auto d = vdesc(n);
                        const long s = m.v[n].first;
                        const bool connected = std::any_of(m.e.begin(), m.e.end(), [&](auto &e) { return std::get<2>(e) == s or (G::is_undirected_v and std::get<3>(e) == s); });
                        if (connected and o[2] % 3 == 0) {
                            bool refused = false;
                            try { g.remove_vertex(d); } catch (const std::runtime_error &) { refused = true; }
                            sim::check(refused, "connected-node-removed", "a node that still has edges was removed");
                        } else {
                            g.clear_vertex(d);
                            std::erase_if(m.e, [&](auto &e) { return std::get<2>(e) == s or std::get<3>(e) == s; });
                            if (o[2] % 2) { g.remove_vertex(d); m.v.erase(m.v.begin() + static_cast<long>(n)); }
                        }
                    }
                }
            } catch (const std::bad_alloc &) {
                sim::alloc_fault_window(0);
                m = before;
                sim::count("probe:allocation-refused");
                sim::nontrivial();
            }
            sim::alloc_fault_window(0);
            compare_plain(g, m, "after an operation");
            sim::state(sim::mix(m.v.size() * 64 + m.e.size(), static_cast<u64>(kind)));
        }
        // a copy is the same graph
        if constexpr (lists) g.reindex();
        const G copy{g};
        compare_plain(copy, m, "in a copy");
        G moved{std::move(g)};
        compare_plain(moved, m, "after moving");
        if (pfail == 0) sim::nontrivial();
        sim::stop_sched();
    }

    void run(sim::Ctx &c) {
        sim::IoPlan p;
        sim::io_plan(p);
        using namespace graph;
        const long kind = c.param("kind", 0, 11);
        switch (kind) {
            case 0: drive_memory<adjacency_list<std::list, std::list, undirected, std::string, std::string, std::list>>(c); break;
            case 1: drive_memory<adjacency_list<std::list, std::list, directional, std::string, std::string, std::list>>(c); break;
            case 2: drive_memory<adjacency_list<std::list, std::list, bidirectional, std::string, std::string, std::list>>(c); break;
            case 3:
                switch (c.param("vector_kind", 0, 2)) {
                    case 0: drive_memory<adjacency_list<std::vector, std::vector, undirected, std::string, std::string, std::vector>>(c); break;
                    case 1: drive_memory<adjacency_list<std::vector, std::vector, directional, std::string, std::string, std::vector>>(c); break;
                    default: drive_memory<adjacency_list<std::vector, std::vector, bidirectional, std::string, std::string, std::vector>>(c); break;
                }
                break;
            default:
                if (kind % 2) drive_files<geometry::point_type<geometry::cs_cartesian>>(c);
                else drive_files<geometry::point_type<geometry::cs_geographic>>(c);
        }
    }

    sim::Register reg{"M02", run, "graph_helper, adjacency_list, graph_storage, tag_helper, mmap containers, Boost.Interprocess file mapping",
            "file system calls and memory allocations pass a fault seam; operation sequences built by the scenario"};

}
