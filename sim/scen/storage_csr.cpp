// M03: converting an import graph into the routing graph loses and changes nothing, in memory and in files.
#include "graph_common.hpp"

#include "graph/compressed_sparse_row.hpp"
#include "geometry/rich_type/traits/rich_line.hpp"
#include "types/geometry/rich_type/eager_rich_line.hpp"
#include "types/geometry/rich_type/lazy_rich_line.hpp"

namespace {

    using namespace gm;

    template<typename T>
    constexpr bool is_file_v = io::memory_mapped::is_mmap_types<T>;

    // what the routing graph must contain: nodes in import order, edges grouped by their source node
    struct Want {
        std::vector<Vertex> vertices;
        std::vector<Edge> edges;                    // in routing order
        std::vector<std::size_t> start;             // first edge of each vertex, plus the end
        std::map<long, std::size_t> pos;
    };

    Want want_of(const Model &m) {
        Want w;
        for (auto &v : m.vertices) { w.pos[v.serial] = w.vertices.size(); w.vertices.push_back(v); }
        for (auto &v : w.vertices) {
            w.start.push_back(w.edges.size());
            for (auto &e : m.edges) if (e.from == v.serial) w.edges.push_back(e);
        }
        w.start.push_back(w.edges.size());
        return w;
    }

    bool same(double a, double b) { return a == b or (a != a and b != b); }

    template<typename Point, typename Helper>
    void compare(const Helper &h, const Want &w, const std::map<u64, Pairs> &nt, const std::map<u64, Pairs> &et, const char *when) {
        const auto fail = [&](const char *kind, const std::string &s) { sim::violation(kind, s + " " + when); };
        const auto &g = h.graph();
        const auto vv = g.vertices_view();
        const auto ev = g.edges_view();
        if (vv.size() != w.vertices.size()) fail("vertex-count", "the routing graph has " + std::to_string(vv.size()) + " nodes instead of " + std::to_string(w.vertices.size()));
        if (ev.size() != w.edges.size()) fail("edge-count", "the routing graph has " + std::to_string(ev.size()) + " edges instead of " + std::to_string(w.edges.size()));
        for (std::size_t i = 0; i < w.vertices.size(); ++i) {
            const auto &v = g.get_vertex_data(i);
            const auto &x = w.vertices[i];
            if (v.id != x.id or boost::geometry::get<0>(v.point) != x.at.first or boost::geometry::get<1>(v.point) != x.at.second)
                fail("vertex-differs", "node number " + std::to_string(i) + " is " + std::to_string(v.id) + " instead of " + std::to_string(x.id));
            const auto oe = g.out_edges_view(i);
            if (oe.size() != w.start[i + 1] - w.start[i]) fail("adjacency", "node number " + std::to_string(i) + " has " + std::to_string(oe.size()) + " outgoing edges instead of " + std::to_string(w.start[i + 1] - w.start[i]));
            std::size_t k = w.start[i];
            for (auto it = oe.begin(); it != oe.end(); it = oe.next(it), ++k)
                if (it != k) fail("adjacency", "node number " + std::to_string(i) + " lists edge " + std::to_string(it) + " instead of " + std::to_string(k));
        }
        for (std::size_t i = 0; i < w.edges.size(); ++i) {
            const auto &e = g.get_edge_data(i);
            const auto &x = w.edges[i];
            const auto where = "edge number " + std::to_string(i) + " (id " + std::to_string(x.id) + ")";
            if (e.id != x.id) fail("edge-differs", where + " has id " + std::to_string(e.id));
            if (g.source(i) != w.pos.at(x.from) or g.target(i) != w.pos.at(x.to))
                fail("edge-misconnected", where + " goes from " + std::to_string(g.source(i)) + " to " + std::to_string(g.target(i)) + " instead of from " +
                        std::to_string(w.pos.at(x.from)) + " to " + std::to_string(w.pos.at(x.to)));
            if (points(e.rich_line.line()) != x.line) fail("edge-geometry", where + " has other points");
            // lengths and directions are those of a line computed on demand from the same points
            typename geometry::rich_line_traits<geometry::lazy_rich_line_type<Point>>::line_type line;
            for (auto &p : x.line) line.push_back(Point{p.first, p.second});
            const geometry::lazy_rich_line_type<Point> lazy{line};
            if (e.rich_line.has_length() != lazy.has_length() or (lazy.has_length() and not same(e.rich_line.length(), lazy.length())))
                fail("edge-length", where + " has length " + std::to_string(e.rich_line.length()) + " instead of " + std::to_string(lazy.length()));
            if (e.rich_line.has_azimuth() != lazy.has_azimuth() or (lazy.has_azimuth() and not same(e.rich_line.azimuth(), lazy.azimuth()))) fail("edge-azimuth", where + " has another azimuth");
            if (e.rich_line.has_directions() != lazy.has_directions() or (lazy.has_directions() and not same(e.rich_line.directions(), lazy.directions()))) fail("edge-directions", where + " has other directions");
            for (std::size_t k = 0; k + 1 < x.line.size(); ++k) {
                if (e.rich_line.has_length(k) != lazy.has_length(k) or (lazy.has_length(k) and not same(e.rich_line.length(k), lazy.length(k)))) fail("segment-length", where + " has another length of segment " + std::to_string(k));
                if (e.rich_line.has_azimuth(k) != lazy.has_azimuth(k) or (lazy.has_azimuth(k) and not same(e.rich_line.azimuth(k), lazy.azimuth(k)))) fail("segment-azimuth", where + " has another azimuth of segment " + std::to_string(k));
            }
        }
        std::vector<u64> nids, eids;
        for (auto &v : w.vertices) nids.push_back(v.id);
        for (auto &e : w.edges) eids.push_back(e.id);
        compare_tags(h.tag_helper(), nt, nids, true, when);
        compare_tags(h.tag_helper(), et, eids, false, when);
    }

    template<typename Point, typename SG, typename ST, typename DG, typename DT>
    void drive(sim::Ctx &c) {
        using STag = io::helper::import_tag_helper_type<ST>;
        using Src = io::helper::graph_helper_import_type<Point, SG, STag>;
        using DTag = io::helper::tag_helper_type<DT>;
        using Dst = io::helper::graph_helper_type<Point, DG, DTag>;
        using Transport = geometry::network::edge_type<Point>;
        using TLine = typename Transport::rich_line_type;
        using TL = typename geometry::rich_line_traits<TLine>::line_type;
        using Node = geometry::network::node<Point>;

        auto r = c.rng("work");
        const long nv = c.param("nodes", 0, c.tier == "thorough" ? 120 : 60), ne = c.param("edges", 0, c.tier == "thorough" ? 400 : 160), nrem = c.param("removals", 0, 40);
        const long maxmid = c.param("max_inner_points", 0, 3) == 0 ? 60 : 3;
        const long nids = c.param("ids", 1, 300);
        const long dsize = c.param("size_b", 2, 24) * 1024, dtsize = c.param("tag_size_kb", 24, 64) * 1024;
        const bool faults = c.param("disk_faults", 0, 5) == 0;
        const bool packed = c.param("source_packed", 0, 1) == 1;
        const bool mixed = c.param("adds_between_removals", 0, 1) == 1;
        Gen gen{r, c.param("keys", 1, 6), c.param("values", 1, 60), c.param("maxtags", 1, 6), c.param("longvalues", 0, 2), c.param("grid", 0, 1) == 1};

        Model m;
        auto src_tag = [&] {
            if constexpr (is_file_v<ST>) return STag{typename STag::tag_storage_type{c.dir + "/src", "tags.bin", st::DESTROY_AND_CREATE, 48 * 1024, st::DO_NOT_DESTROY_ON_CLOSE, st::DO_NOT_SHRINK_ON_CLOSE}};
            else return STag{};
        };
        auto source = [&] {
            if constexpr (is_file_v<SG>) return std::make_unique<Src>(typename Src::graph_storage_type{c.dir + "/src", "graph.bin", st::DESTROY_AND_CREATE,
                    static_cast<std::size_t>(packed ? 3 * 1024 : 64 * 1024), st::DO_NOT_DESTROY_ON_CLOSE, st::DO_NOT_SHRINK_ON_CLOSE}, src_tag());
            else return std::make_unique<Src>(typename Src::graph_storage_type{}, src_tag());
        };
        sim::heap_check(true);
        auto src = source();
        u64 element = 0;
        for (long i = 0; i < nv; ++i) {
            const bool use = c.keep(element++);
            const u64 id = r.below(static_cast<u64>(nids));
            const XY at = gen.xy();
            const Pairs tags = gen.tags(0);
            if (not use) continue;
            const TagList list{tags};
            src->add_vertex_with_index_mapping(Node{id, Point{at.first, at.second}}, list.get());
            if (not tags.empty()) m.node_tags.emplace(id, tags);
            m.vertices.push_back({m.next_v++, id, at});
            m.index_map.push_back(m.vertices.back().serial);
        }
        for (long i = 0; i < ne; ++i) {
            const bool use = c.keep(element++);
            const u64 id = r.below(static_cast<u64>(nids)), ra = r.next(), rb = r.chance(0.1) ? ra : r.next();
            std::vector<XY> mid;
            const long n = r.range(0, maxmid);
            for (long k = 0; k < n; ++k) mid.push_back(gen.xy());
            const Pairs tags = gen.tags(0);
            if (not use or m.vertices.empty()) continue;
            const u64 a = ra % m.index_map.size(), b = rb % m.index_map.size();
            const Vertex va = *m.vertex(m.index_map[a]), vb = *m.vertex(m.index_map[b]);
            std::vector<XY> pts{va.at};
            pts.insert(pts.end(), mid.begin(), mid.end());
            pts.push_back(vb.at);
            TL line;
            for (auto &p : pts) line.push_back(Point{p.first, p.second});
            const TagList list{tags};
            src->add_edge(a, b, Transport{id, TLine{line}}, list.get());
            if (not tags.empty()) m.edge_tags.emplace(id, tags);
            m.edges.push_back({m.next_e++, id, va.serial, vb.serial, pts});
        }
        for (long i = 0; i < nrem; ++i) {
            const bool use = c.keep(element++);
            const u64 kind = mixed ? r.below(6) : r.below(3), pick = r.next(), pick2 = r.next();
            const u64 id = r.below(static_cast<u64>(nids));
            const XY at = gen.xy();
            const Pairs tags = gen.tags(0);
            if (not use) continue;
            const TagList list{tags};
            if (kind == 3) {
                // a further node, as the network simplification never makes but the graph allows; it has no index
                (void) src->add_vertex(Node{id, Point{at.first, at.second}}, list.get());
                if (not tags.empty()) m.node_tags.emplace(id, tags);
                m.vertices.push_back({m.next_v++, id, at});
            } else if (kind == 4) {
                // a further edge between nodes that are still there
                std::vector<u64> alive;
                std::map<long, std::size_t> pos;
                for (auto &v : m.vertices) pos.emplace(v.serial, pos.size());
                for (u64 k = 0; k < m.index_map.size(); ++k) if (pos.count(m.index_map[k])) alive.push_back(k);
                auto add = [&](const Vertex &va, const Vertex &vb, auto &&put) {
                    const std::vector<XY> pts{va.at, at, vb.at};
                    TL line;
                    for (auto &p : pts) line.push_back(Point{p.first, p.second});
                    put(line);
                    m.edges.push_back({m.next_e++, id, va.serial, vb.serial, pts});
                };
                bool direct = false;
                if constexpr (not is_file_v<SG>) direct = pick % 7 < 4;
                if (direct and not m.vertices.empty()) {
                    if constexpr (not is_file_v<SG>) {
                        const u64 a = pick % m.vertices.size(), b = pick2 % m.vertices.size();
                        add(*std::next(m.vertices.begin(), static_cast<long>(a)), *std::next(m.vertices.begin(), static_cast<long>(b)), [&](TL &line) {
                            using Data = typename Src::edge_data_type;
                            (void) src->graph().add_edge(nth_vertex(src->graph(), a), nth_vertex(src->graph(), b), Data{id, typename Src::rich_line_type{TLine{line}}});
                        });
                    }
                } else if (not alive.empty()) {
                    const u64 a = alive[pick % alive.size()], b = alive[pick2 % alive.size()];
                    add(*m.vertex(m.index_map[a]), *m.vertex(m.index_map[b]), [&](TL &line) { src->add_edge(a, b, Transport{id, TLine{line}}, list.get()); });
                    if (not tags.empty()) m.edge_tags.emplace(id, tags);
                }
            } else if (kind == 5) {
                src->graph().reindex();
            } else if (kind == 0 and not m.edges.empty()) {
                const u64 n = pick % m.edges.size();
                src->graph().remove_edge(nth_edge(src->graph(), n));
                auto it = m.edges.begin();
                std::advance(it, static_cast<long>(n));
                m.edges.erase(it);
            } else if (kind != 0 and not m.vertices.empty()) {
                const u64 n = pick % m.vertices.size();
                auto v = m.vertices.begin();
                std::advance(v, static_cast<long>(n));
                src->graph().clear_vertex(nth_vertex(src->graph(), n));
                m.edges.remove_if([&](auto &e) { return e.from == v->serial or e.to == v->serial; });
                if (kind == 2) {
                    src->graph().remove_vertex(nth_vertex(src->graph(), n));
                    m.vertices.erase(v);
                }
            }
        }
        src->graph().reindex();
        const Want w = want_of(m);
        sim::state(sim::mix(w.vertices.size(), w.edges.size()));

        bool refused = false;
        {
            auto dst_tag = [&] {
                if constexpr (is_file_v<DT>) return DTag{typename DTag::tag_storage_type{c.dir + "/store", "tags.bin", st::DESTROY_AND_CREATE, static_cast<std::size_t>(dtsize), st::DO_NOT_DESTROY_ON_CLOSE, st::SHRINK_ON_CLOSE}};
                else return DTag{};
            };
            auto dest = [&]() -> std::unique_ptr<Dst> {
                if constexpr (is_file_v<DG>) return std::make_unique<Dst>(typename Dst::graph_storage_type{c.dir + "/store", "graph.bin", st::DESTROY_AND_CREATE,
                        static_cast<std::size_t>(dsize), st::DO_NOT_DESTROY_ON_CLOSE, st::SHRINK_ON_CLOSE}, dst_tag());
                else return std::make_unique<Dst>(typename Dst::graph_storage_type{}, dst_tag());
            };
            std::unique_ptr<Dst> dst;
            try {
                dst = dest();
            } catch (const boost::interprocess::bad_alloc &) {
                sim::count("probe:too-small-to-create");
                return;
            }
            const std::size_t before = is_file_v<DG> ? dst->size() : 0;
            if (faults and (is_file_v<DG> or is_file_v<DT>)) {
                sim::IoPlan p;
                p.p_truncate_fail = 0.3, p.p_enospc = 0.3;
                p.p_mmap_fail = r.chance(0.5) ? 0.15 : 0;
                p.p_open_fail = r.chance(0.5) ? 0.15 : 0;
                p.only = "/store";
                sim::io_plan(p);
            }
            try {
                dst->from_adjacency_list(*src, src->tag_helper());
            } catch (const std::exception &x) {
                if (not sim::io_failed()) sim::violation("operation-failed", std::string{"the conversion failed without any disk fault: "} + x.what());
                refused = true;
                sim::count("probe:refused-after-disk-fault");
            }
            sim::io_reset();
            // the import graph is only read
            if (not refused) {
                compare_graph(src->graph(), m, "in the import graph after the conversion", true);
                compare<Point>(*dst, w, m.node_tags, m.edge_tags, "after the conversion");
            }
            if constexpr (is_file_v<DG>) {
                if (dst->size() > 3 * src->size() and dst->size() > before) sim::count("recreated-larger", 1);
                sim::state(sim::mix(dst->size() / (before ? before : 1), 7));
            }
            if (not w.edges.empty()) sim::nontrivial();
        }
        src.reset();
        if (refused) return;
        if constexpr (is_file_v<DG> and is_file_v<DT>) {
            Dst h{typename Dst::graph_storage_type{c.dir + "/store", "graph.bin", st::OPEN_READ_ONLY}, DTag{typename DTag::tag_storage_type{c.dir + "/store", "tags.bin", st::OPEN_READ_ONLY}}};
            compare<Point>(h, w, m.node_tags, m.edge_tags, "after reopening");
            sim::count("probe:reopened");
        }
    }

    void run(sim::Ctx &c) {
        sim::IoPlan p;
        sim::io_plan(p);
        using C = geometry::point_type<geometry::cs_cartesian>;
        using G = geometry::point_type<geometry::cs_geographic>;
        switch (c.param("kind", 0, 7)) {
            case 0: drive<C, memory_t, memory_t, memory_t, memory_t>(c); break;
            case 1: drive<G, memory_t, memory_t, file_t, file_t>(c); break;
            case 2: drive<C, file_t, memory_t, file_t, memory_t>(c); break;
            case 3: drive<G, file_t, file_t, memory_t, memory_t>(c); break;
            case 4: drive<C, memory_t, file_t, memory_t, file_t>(c); break;
            case 5: drive<G, file_t, file_t, file_t, file_t>(c); break;
            case 6: drive<C, memory_t, memory_t, file_t, file_t>(c); break;
            default: drive<C, file_t, file_t, file_t, file_t>(c);
        }
    }

    sim::Register reg{"M03", run, "graph_helper::from_adjacency_list, compressed_sparse_row, adjacency_list, graph_storage, tag_helper, mmap containers, Boost.Interprocess file mapping",
            "file system calls pass a fault seam; import graphs built by the scenario"};

}
