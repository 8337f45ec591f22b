// M04: the spatial index answers like a scan over all elements, in memory and in files, after growth and after reopening.
#include "graph_common.hpp"

#include <cmath>
#include <set>

#include "geometry/rich_type/traits/rich_line.hpp"
#include "geometry/network/network.hpp"
#include "types/io/helper/index_helper.hpp"
#include "types/geometry/index/network.hpp"

namespace {

    using namespace gm;
    namespace bg = boost::geometry;

    template<typename T>
    constexpr bool is_file_v = io::memory_mapped::is_mmap_types<T>;

    using SegId = std::pair<std::size_t, std::size_t>;
    struct Seg { SegId id; XY a, b; };

    struct Query { int kind; XY p, q; unsigned k; };
    enum { Q_POINTS_BOX, Q_POINTS_NEAREST, Q_SEGMENTS_BOX, Q_SEGMENTS_SEGMENT, Q_SEGMENTS_NEAREST, Q_POINT_IN_NODES, Q_POINT_IN_EDGES };

    struct Scan {
        std::vector<XY> points;
        std::vector<Seg> segments;
    };

    template<typename Point>
    Point pt(const XY &p) { return Point{p.first, p.second}; }

    // every query, answered by the index (through the network) and by a scan
    template<typename Point, typename Net>
    void compare(const Net &net, const Scan &s, const std::vector<Query> &queries, sim::Ctx &c, u64 first, const char *when) {
        using Box = bg::model::box<Point>;
        using Segment = typename geometry::models<Point>::segment_type;
        const auto fail = [&](const char *kind, const std::string &t) { sim::violation(kind, t + " " + when); };
        if (net.points_index().size() != s.points.size()) fail("index-size", "the node index has " + std::to_string(net.points_index().size()) + " entries instead of " + std::to_string(s.points.size()));
        if (net.segments_index().size() != s.segments.size()) fail("index-size", "the edge index has " + std::to_string(net.segments_index().size()) + " entries instead of " + std::to_string(s.segments.size()));
        // nothing that is in the index is wrong
        {
            std::vector<bool> seen(s.points.size());
            for (auto it = net.points_index().begin(); it != net.points_index().end(); ++it) {
                if (it->second >= seen.size() or seen[it->second]) fail("index-entry", "the node index names node " + std::to_string(it->second) + " that does not exist or twice");
                seen[it->second] = true;
                if (XY{bg::get<0>(it->first), bg::get<1>(it->first)} != s.points[it->second]) fail("index-entry", "the node index has node " + std::to_string(it->second) + " at another place");
            }
            std::map<SegId, const Seg *> by;
            for (auto &x : s.segments) by[x.id] = &x;
            for (auto it = net.segments_index().begin(); it != net.segments_index().end(); ++it) {
                auto f = by.find(it->second);
                if (f == by.end()) fail("index-entry", "the edge index names a segment that does not exist or twice");
                const XY a{bg::get<0, 0>(it->first), bg::get<0, 1>(it->first)}, b{bg::get<1, 0>(it->first), bg::get<1, 1>(it->first)};
                if (a != f->second->a or b != f->second->b) fail("index-entry", "the edge index has a segment of edge " + std::to_string(f->first.first) + " at another place");
                by.erase(f);
            }
        }
        u64 n = first;
        for (auto &q : queries) {
            if (not c.keep(n++)) continue;
            const Point p = pt<Point>(q.p);
            const Box box{Point{std::min(q.p.first, q.q.first), std::min(q.p.second, q.q.second)}, Point{std::max(q.p.first, q.q.first), std::max(q.p.second, q.q.second)}};
            switch (q.kind) {
                case Q_POINTS_BOX: {
                    std::set<std::size_t> got, want;
                    std::size_t hits = 0;
                    for (auto &x : net.query_points(bg::index::intersects(box))) got.insert(x.second), ++hits;
                    for (std::size_t i = 0; i < s.points.size(); ++i) if (bg::intersects(pt<Point>(s.points[i]), box)) want.insert(i);
                    if (got != want or hits != want.size()) fail("query-differs", "a box contains " + std::to_string(hits) + " nodes instead of " + std::to_string(want.size()));
                    break;
                }
                case Q_SEGMENTS_BOX: {
                    std::set<SegId> got, want;
                    std::set<std::size_t> wantu, gotu;
                    std::size_t hits = 0;
                    for (auto &x : net.query_segments(bg::index::intersects(box))) got.insert(x.second), ++hits;
                    for (auto &x : s.segments) if (bg::intersects(Segment{pt<Point>(x.a), pt<Point>(x.b)}, box)) want.insert(x.id), wantu.insert(x.id.first);
                    if (got != want or hits != want.size()) fail("query-differs", "a box meets " + std::to_string(hits) + " segments instead of " + std::to_string(want.size()));
                    for (auto e : net.query_segments_unique(bg::index::intersects(box))) gotu.insert(e);
                    if (gotu != wantu) fail("query-differs", "a box meets " + std::to_string(gotu.size()) + " edges instead of " + std::to_string(wantu.size()));
                    break;
                }
                case Q_SEGMENTS_SEGMENT: {
                    const Segment seg{p, pt<Point>(q.q)};
                    std::set<SegId> got, want;
                    for (auto &x : net.query_segments(bg::index::intersects(seg))) got.insert(x.second);
                    for (auto &x : s.segments) if (bg::intersects(Segment{pt<Point>(x.a), pt<Point>(x.b)}, seg)) want.insert(x.id);
                    if (got != want) fail("query-differs", "a segment meets " + std::to_string(got.size()) + " segments instead of " + std::to_string(want.size()));
                    break;
                }
                case Q_POINTS_NEAREST: case Q_SEGMENTS_NEAREST: {
                    std::vector<double> got, want;
                    std::set<SegId> ids;
                    std::size_t hits = 0;
                    if (q.kind == Q_POINTS_NEAREST) {
                        for (auto &x : net.query_points(bg::index::nearest(p, q.k))) got.push_back(bg::distance(x.first, p)), ids.insert({x.second, 0}), ++hits;
                        for (auto &x : s.points) want.push_back(bg::distance(pt<Point>(x), p));
                    } else {
                        for (auto &x : net.query_segments(bg::index::nearest(p, q.k))) got.push_back(bg::distance(x.first, p)), ids.insert(x.second), ++hits;
                        for (auto &x : s.segments) want.push_back(bg::distance(Segment{pt<Point>(x.a), pt<Point>(x.b)}, p));
                    }
                    std::sort(got.begin(), got.end()), std::sort(want.begin(), want.end());
                    if (want.size() > q.k) want.resize(q.k);
                    if (got.size() != want.size() or ids.size() != hits) fail("query-differs", "the " + std::to_string(q.k) + " nearest are " + std::to_string(ids.size()) + " instead of " + std::to_string(want.size()));
                    for (std::size_t i = 0; i < got.size(); ++i)
                        if (std::fabs(got[i] - want[i]) > 1e-6 + 1e-9 * std::fabs(want[i]))
                            fail("query-differs", "nearest number " + std::to_string(i) + " is " + std::to_string(got[i]) + " away instead of " + std::to_string(want[i]));
                    break;
                }
                case Q_POINT_IN_NODES: {
                    // asked at a node: found, and the node is one at this place
                    const auto [found, v] = net.point_in_nodes(p);
                    bool any = false;
                    for (auto &x : s.points) any = any or x == q.p;
                    if (any and (not found or s.points.at(v) != q.p)) fail("query-differs", "a node is not found at its own place");
                    break;
                }
                case Q_POINT_IN_EDGES: {
                    const auto [found, e] = net.point_in_edges(p);
                    if (s.segments.empty() and found) fail("query-differs", "a point is found in the edges of a network without edges");
                    if (found) {
                        bool ok = false;
                        for (auto &x : s.segments) ok = ok or (x.id == e and (x.a == q.p or x.b == q.p or bg::distance(pt<Point>(x.a), p) < 1e-3 or bg::distance(pt<Point>(x.b), p) < 1e-3));
                        if (not ok) fail("query-differs", "a point is found at the end of a segment that does not end there");
                    }
                    break;
                }
                default: break;
            }
        }
    }

    template<typename Point, typename Indices, typename Build>
    void drive(sim::Ctx &c) {
        constexpr bool geographic = std::is_same_v<typename bg::coordinate_system<Point>::type, geometry::cs_geographic>;
        using Src = io::helper::graph_helper_import_type<Point, memory_t, io::helper::import_tag_helper_type<memory_t>>;
        using Dst = io::helper::graph_helper_type<Point, memory_t, io::helper::tag_helper_type<memory_t>>;
        using Index = io::helper::index_helper_type<Point, Indices, Build>;
        using ReadIndex = io::helper::index_helper_read_only_type<Point, Indices>;
        using Net = geometry::network::network<Dst, Index>;
        using ReadNet = geometry::network::network<Dst, ReadIndex>;
        using Transport = geometry::network::edge_type<Point>;
        using TLine = typename Transport::rich_line_type;
        using TL = typename geometry::rich_line_traits<TLine>::line_type;
        using Node = geometry::network::node<Point>;

        auto r = c.rng("work");
        const long nv = c.param("nodes", 0, c.tier == "thorough" ? 300 : 120), ne = c.param("edges", 0, c.tier == "thorough" ? 500 : 200), nq = c.param("queries", 4, 40);
        const long maxmid = c.param("max_inner_points", 0, 3) == 0 ? 20 : 2;
        const bool grid = c.param("grid", 0, 1) == 1;
        const long isize = c.param("index_size_b", 2, 40) * 1024, bsize = c.param("build_size_b", 2, 40) * 1024;
        const bool faults = c.param("disk_faults", 0, 5) == 0;
        // small extents for geographic coordinates: the search strategy of Boost.Geometry is only exact where boxes are
        const double step = geographic ? 0.001 : 1.0;
        auto xy = [&] {
            return grid ? XY{step * static_cast<double>(r.below(10)), step * static_cast<double>(r.below(10))}
                        : XY{step * static_cast<double>(r.below(100000)) / 1000.0, step * static_cast<double>(r.below(100000)) / 1000.0};
        };
        sim::heap_check(true);
        sim::step_limit(600'000'000);       // the scans take their time

        u64 element = 0;
        auto source = std::make_unique<Src>();
        std::vector<XY> at;
        for (long i = 0; i < nv; ++i) {
            const bool use = c.keep(element++);
            const XY p = xy();
            if (not use) continue;
            source->add_vertex_with_index_mapping(Node{static_cast<u64>(i), pt<Point>(p)});
            at.push_back(p);
        }
        for (long i = 0; i < ne; ++i) {
            const bool use = c.keep(element++);
            const u64 ra = r.next(), rb = r.next();
            std::vector<XY> mid;
            for (long k = r.range(0, maxmid); k > 0; --k) mid.push_back(xy());
            const bool degenerate = r.chance(0.03);
            if (not use or at.empty()) continue;
            TL line;
            line.push_back(pt<Point>(at[ra % at.size()]));
            if (not degenerate) {       // an edge with a single point has no segment
                for (auto &p : mid) line.push_back(pt<Point>(p));
                line.push_back(pt<Point>(at[rb % at.size()]));
            }
            source->add_edge(ra % at.size(), rb % at.size(), Transport{static_cast<u64>(i), TLine{line}});
        }
        source->graph().reindex();
        auto routing = [&] {
            Dst d;
            d.from_adjacency_list(*source, source->tag_helper());
            return d;
        };
        Scan scan;
        {
            const Dst d = routing();
            for (std::size_t i = 0; i < d.graph().vertices_view().size(); ++i) {
                const auto &p = d.graph().get_vertex_data(i).point;
                scan.points.push_back({bg::get<0>(p), bg::get<1>(p)});
            }
            for (std::size_t i = 0; i < d.graph().edges_view().size(); ++i) {
                const auto p = points(d.graph().get_edge_data(i).rich_line.line());
                for (std::size_t k = 0; k + 1 < p.size(); ++k) scan.segments.push_back({{i, k}, p[k], p[k + 1]});
            }
        }
        std::vector<Query> queries;
        const u64 first_query = element;
        for (long i = 0; i < nq; ++i) {
            Query q{static_cast<int>(r.below(7)), xy(), xy(), static_cast<unsigned>(1 + r.below(r.chance(0.3) ? 200 : 6))};
            if ((q.kind == Q_POINT_IN_NODES or q.kind == Q_POINT_IN_EDGES or r.chance(0.2)) and not at.empty()) q.p = at[r.below(at.size())];
            if (r.chance(0.4)) q.q = {q.p.first + step * 3 * r.unit(), q.p.second + step * 3 * r.unit()};
            if (q.kind == Q_SEGMENTS_SEGMENT)
                q.p = {step * 11 * r.unit() - step * 0.5, step * 11 * r.unit() - step * 0.5}, q.q = {step * 11 * r.unit() - step * 0.5, step * 11 * r.unit() - step * 0.5};
            if (q.kind == Q_POINTS_BOX or q.kind == Q_SEGMENTS_BOX) {
                // no element ends exactly on the border, where the rounding of Boost.Geometry decides
                q.p.first += step * (1 + 3 * r.unit()) * 1e-4, q.p.second += step * (1 + 3 * r.unit()) * 1e-4;
                q.q.first += step * (1 + 3 * r.unit()) * 1e-4, q.q.second += step * (1 + 3 * r.unit()) * 1e-4;
            }
            queries.push_back(q);
        }

        bool refused = false;
        {
            std::unique_ptr<Net> net;
            try {
                auto build = [&] {
                    using B = typename Index::index_build_helper_type;
                    if constexpr (is_file_v<Build>) return B{typename B::index_build_storage_type{c.dir + "/store", "index_build.bin", st::DESTROY_AND_CREATE, static_cast<std::size_t>(bsize), st::DESTROY_ON_CLOSE, st::DO_NOT_SHRINK_ON_CLOSE}};
                    else return B{};
                };
                if constexpr (is_file_v<Indices>) net = std::make_unique<Net>(routing(), Index{typename Index::index_storage_type{c.dir + "/store", "index.bin", st::DESTROY_AND_CREATE, static_cast<std::size_t>(isize), st::DO_NOT_DESTROY_ON_CLOSE, st::SHRINK_ON_CLOSE}, build()});
                else net = std::make_unique<Net>(routing(), Index{typename Index::index_storage_type{}, build()});
            } catch (const boost::interprocess::bad_alloc &) {
                sim::count("probe:too-small-to-create");
                return;
            }
            if (faults and (is_file_v<Indices> or is_file_v<Build>)) {
                sim::IoPlan p;
                p.p_truncate_fail = 0.3, p.p_enospc = 0.3;
                p.p_mmap_fail = r.chance(0.5) ? 0.15 : 0;
                p.p_open_fail = r.chance(0.5) ? 0.15 : 0;
                p.only = "/store";
                sim::io_plan(p);
            }
            try {
                net->build_spatial_indices();
            } catch (const std::exception &x) {
                if (not sim::io_failed()) sim::violation("operation-failed", std::string{"building the index failed without any disk fault: "} + x.what());
                refused = true;
                sim::count("probe:refused-after-disk-fault");
            }
            sim::io_reset();
            if (not refused) compare<Point>(*net, scan, queries, c, first_query, "after building");
            sim::state(sim::mix(scan.points.size(), scan.segments.size()));
            if (not scan.segments.empty()) sim::nontrivial();
        }
        if constexpr (is_file_v<Build>) sim::check(refused or not std::filesystem::exists(c.dir + "/store/index_build.bin"), "file-left", "the temporary index file is left behind");
        if (refused) return;
        if constexpr (is_file_v<Indices>) {
            const ReadNet net{routing(), ReadIndex{typename ReadIndex::index_storage_type{c.dir + "/store", "index.bin", st::OPEN_READ_ONLY}}};
            compare<Point>(net, scan, queries, c, first_query, "after reopening");
            sim::count("probe:reopened");
        }
    }

    void run(sim::Ctx &c) {
        sim::IoPlan p;
        sim::io_plan(p);
        using C = geometry::point_type<geometry::cs_cartesian>;
        using G = geometry::point_type<geometry::cs_geographic>;
        switch (c.param("kind", 0, 7)) {
            case 0: drive<C, memory_t, memory_t>(c); break;
            case 1: drive<G, memory_t, file_t>(c); break;
            case 2: drive<C, memory_t, file_t>(c); break;
            case 3: case 4: drive<C, file_t, memory_t>(c); break;
            case 5: drive<G, file_t, memory_t>(c); break;
            case 6: drive<C, file_t, file_t>(c); break;
            default: drive<G, file_t, file_t>(c);
        }
    }

    sim::Register reg{"M04", run, "network::build_spatial_indices and queries, index_helper, index_build_helper, index_storage, index_build_storage, mmap containers, Boost.Geometry R-tree, Boost.Interprocess file mapping",
            "file system calls pass a fault seam; networks and queries built by the scenario"};

}
