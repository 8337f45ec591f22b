// N05: exported networks describe the network that was prepared, or the export fails visibly.
#include "import_tables.hpp"
#include "match_util.hpp"

#include <osmium/io/any_input.hpp>
#include <osmium/osm/node.hpp>
#include <osmium/osm/way.hpp>

#include <cmath>

namespace imp { XY project(int from, int to, XY p); }

namespace {

    using namespace imp;

    using Spot = std::pair<long, long>;     // 1e-7 degrees
    Spot spot(XY p) { return {std::lround(p.first * 1e7), std::lround(p.second * 1e7)}; }

    struct Osmf {
        std::vector<std::pair<Spot, std::string>> nodes;
        std::multiset<std::pair<std::vector<Spot>, std::string>> lines;    // directed
        std::size_t ways{0};
    };

    std::string text(const std::vector<Spot> &l) { std::string s; for (auto &p : l) s += "(" + std::to_string(p.first) + " " + std::to_string(p.second) + ")"; return s; }

    std::string tag_text(const osmium::TagList &l, bool &oneway, bool way) {
        Pairs p;
        int n = 0;
        for (auto &t : l) {
            if (way and std::string{t.key()} == "oneway") { ++n; oneway = std::string{t.value()} == "yes"; continue; }
            p.push_back({t.key(), t.value()});
        }
        sim::check(n < 2, "export-malformed", "an exported way has several oneway tags");
        return canon_tags(p);
    }

    Osmf read_osm(const std::string &path) {
        Osmf o;
        std::map<long, Spot> at;
        struct W { std::vector<long> refs; std::string tags; bool oneway; };
        std::vector<W> ways;
        osmium::io::Reader reader{path};
        while (osmium::memory::Buffer b = reader.read()) {
            for (auto &i : b) {
                bool oneway = false;
                if (i.type() == osmium::item_type::node) {
                    auto &n = static_cast<const osmium::Node &>(i);
                    const Spot s{n.location().x(), n.location().y()};
                    auto [it, fresh] = at.emplace(n.id(), s);
                    sim::check(fresh or it->second == s, "export-malformed", "two exported nodes at different places have the number " + std::to_string(n.id()));
                    o.nodes.push_back({s, tag_text(n.tags(), oneway, false)});
                } else if (i.type() == osmium::item_type::way) {
                    auto &w = static_cast<const osmium::Way &>(i);
                    W x;
                    for (auto &r : w.nodes()) x.refs.push_back(r.ref());
                    x.tags = tag_text(w.tags(), oneway, true);
                    x.oneway = oneway;
                    ways.push_back(x);
                }
            }
        }
        reader.close();
        for (auto &w : ways) {
            std::vector<Spot> l;
            for (auto r : w.refs) {
                sim::check(at.count(r), "export-malformed", "an exported way refers to node " + std::to_string(r) + " that is not in the file");
                l.push_back(at[r]);
            }
            o.lines.insert({l, w.tags});
            if (not w.oneway) { std::reverse(l.begin(), l.end()); o.lines.insert({l, w.tags}); }
        }
        o.ways = ways.size();
        return o;
    }

    void check_osm(const std::string &path, const Net &net, int srs) {
        const Osmf got = read_osm(path);
        Osmf want;
        for (auto &v : net.v) want.nodes.push_back({spot(project(srs, 4326, v.at)), canon_tags(v.tags)});
        for (auto &e : net.e) {
            std::vector<Spot> l;
            for (auto &p : e.line) l.push_back(spot(project(srs, 4326, p)));
            Pairs t;
            for (auto &x : e.tags) if (x.first != "oneway") t.push_back(x);
            want.lines.insert({l, canon_tags(t)});
        }
        for (auto &x : want.lines) sim::check(got.lines.count(x) >= want.lines.count(x), "road-lost", "the exported map lacks the road " + text(x.first) + " " + x.second);
        for (auto &x : got.lines) sim::check(want.lines.count(x) >= got.lines.count(x), "road-invented", "the exported map has a road " + text(x.first) + " " + x.second + " that is not in the network");
        std::map<std::pair<Spot, std::string>, long> count;
        for (auto &x : got.nodes) ++count[x];
        for (auto &x : want.nodes) sim::check(count[x]-- > 0, "node-lost", "the exported map lacks the node " + text({x.first}) + " " + x.second);
        std::set<Spot> points;
        for (auto &x : want.lines) points.insert(x.first.begin(), x.first.end());
        for (auto &[x, n] : count) sim::check(n <= 0 or (x.second == "{}" and points.count(x.first)), "node-invented", "the exported map has a node " + text({x.first}) + " " + x.second + " that is not in the network");
    }

    std::string tags_field(const Pairs &tags) {
        std::string s;
        for (auto &t : tags) s += (s.empty() ? "['" : ",'") + t.first + "':'" + t.second + "'";
        return s.empty() ? s : s + "]";
    }

    // numbers of a POINT or LINESTRING
    std::vector<double> numbers(const std::string &w) {
        std::vector<double> r;
        const char *p = w.c_str();
        while (*p) {
            if ((*p >= '0' and *p <= '9') or *p == '-' or *p == '.') { char *e; r.push_back(std::strtod(p, &e)); p = e; }
            else ++p;
        }
        return r;
    }

    bool near(double a, double b) { return std::fabs(a - b) <= 1e-11 * std::max({1.0, std::fabs(a), std::fabs(b)}); }

    void check_geometry(const std::string &w, const char *kind, const std::vector<XY> &pts, const std::string &who) {
        const auto n = numbers(w);
        bool ok = w.rfind(kind, 0) == 0 and n.size() == 2 * pts.size();
        for (std::size_t i = 0; ok and i < pts.size(); ++i) ok = near(n[2 * i], pts[i].first) and near(n[2 * i + 1], pts[i].second);
        sim::check(ok, "geometry-differs", who + " is exported as " + w.substr(0, 400));
    }

    void check_csv(const std::string &dir, const Net &net, bool nodes) {
        const std::string name = nodes ? "nodes.csv" : "edges.csv";
        bool there = false;
        const scen::Csv csv = scen::parse_csv(scen::slurp(dir + "/" + name, &there));
        sim::check(there and csv.error.empty(), "export-malformed", name + (there ? ": " + csv.error : " is missing"));
        const std::size_t n = nodes ? net.v.size() : net.e.size();
        if (n == 0) { sim::check(csv.rows.empty(), "export-malformed", name + " of an empty network has rows"); return; }
        const scen::Row head = nodes ? scen::Row{"id", "geometry", "tags"} : scen::Row{"id", "geometry", "length", "tags"};
        sim::check(csv.rows.size() == n + 1, nodes ? "node-lost" : "road-lost", name + " has " + std::to_string(csv.rows.size()) + " rows for " + std::to_string(n) + " elements");
        sim::check(csv.rows[0] == head, "export-malformed", name + " starts with " + scen::join(csv.rows[0]));
        for (std::size_t i = 0; i < n; ++i) {
            const auto &row = csv.rows[i + 1];
            sim::check(row.size() == head.size(), "export-malformed", name + ": " + scen::join(row).substr(0, 300));
            const std::string who = (nodes ? "node " : "edge ") + std::to_string(nodes ? net.v[i].id : net.e[i].id);
            sim::check(row[0] == std::to_string(nodes ? net.v[i].id : net.e[i].id), "export-malformed", who + " is exported with id " + row[0]);
            check_geometry(row[1], nodes ? "POINT" : "LINESTRING", nodes ? std::vector<XY>{net.v[i].at} : net.e[i].line, who);
            sim::check(row.back() == tags_field(nodes ? net.v[i].tags : net.e[i].tags), "tags-differ", who + " is exported with " + row.back().substr(0, 300));
            if (not nodes and net.e[i].length > 0) sim::check(std::fabs(std::strtod(row[2].c_str(), nullptr) - net.e[i].length) <= 1e-6 + 1e-9 * net.e[i].length, "length-differs", who + " is exported with length " + row[2]);
        }
    }

    void run(sim::Ctx &c) {
        auto r = c.rng("work");
        const auto &k = combo(static_cast<int>(c.param("combination", 0, COMBOS - 1)));
        static const std::string formats[] = {app::FORMAT_OSM, app::FORMAT_OSM, app::FORMAT_OSM, app::FORMAT_ARC_NODE, app::FORMAT_SEATTLE, app::FORMAT_MELBOURNE, app::FORMAT_GISCUP};
        const std::string format = formats[c.param("format", 0, 6)];
        static const char *kinds[] = {"net.osm", "net.osm.opl", "net.osm.pbf", "net.osm.bz2"};
        const std::string osm_name = kinds[c.param("export", 0, 3)];
        const long trouble = c.param("trouble", 0, 9);      // 0..4 none, 5,6 short and interrupted writes, 7..9 failing writes
        const long scale = c.tier == "thorough" ? 3 : 1;
        const bool older = c.param("older", 0, 3) == 0;
        std::filesystem::create_directory(c.dir + "/in");
        std::vector<std::string> files;
        auto put = [&](const std::string &name, const std::string &t) { files.push_back(c.dir + "/in/" + name); write_file(files.back(), t); };
        int from = 4326;
        const int to = k.geographic ? 4326 : 3857;
        if (format == app::FORMAT_OSM) {
            RoadGen g{c.param("nodes", 1, 60 * scale), c.param("ways", 0, 40 * scale), c.param("span", 1, 20), c.param("keys", 1, 5), c.param("longvalues", 0, 2), 0, c.param("dup_spots", 0, 1) == 1};
            put("map.osm.opl", osm_file(g.make(c, r, car_profile(), 1, false), 0, true));
        } else {
            static const std::pair<int, int> geo[] = {{4326, 4326}, {3857, 4326}}, cart[] = {{3857, 3857}, {4326, 3857}, {25832, 3857}};
            const long which = c.param("projection", 0, 2);
            from = k.geographic ? geo[which % 2].first : cart[which].first;
            const Shape shape{static_cast<double>(c.param("chain", 0, 3)) * 0.2, static_cast<double>(c.param("back", 0, 3)) * 0.1, 0, static_cast<double>(c.param("same_spot", 0, 2)) * 0.05};
            const Table t = make_table(c, r, from == 4326, format, c.param("nodes", 0, 60 * scale), c.param("edges", 0, 80 * scale), shape);
            int i = 0;
            for (auto &s : table_files(t, format)) put("set_" + std::to_string(i++) + ".txt", s);
        }
        auto d = prepare_settings(k, c.dir + "/out", files, format);
        d.srs._srs = from, d.srs._transform_srs = from == to ? -1 : to;
        d.srs.correct({});
        d.files.initial_size = static_cast<std::size_t>(c.param("initial_kb", 24, 96)) * 1024;
        d.process.simplify = c.param("simplify", 0, 2) == 0 ? app::SIMPLIFY_ALL : app::SIMPLIFY_NONE;
        d.process.remove_unconnected = c.param("remove_unconnected", 0, 2) == 0;
        d.process.remove_duplicate_nodes = c.param("remove_nodes", 0, 1);
        d.process.remove_duplicate_edges = c.param("remove_edges", 0, 1);
        d.expo.export_nodes_csv_file = "nodes.csv", d.expo.export_edges_csv_file = "edges.csv", d.expo.export_network_osm_file = osm_name;
        sim::state(sim::mix(static_cast<u64>(c.param("combination", 0, COMBOS - 1)), sim::hash_str(format + osm_name)));
        if (older) {
            std::filesystem::create_directory(c.dir + "/out");
            for (auto &n : {std::string{"nodes.csv"}, std::string{"edges.csv"}, osm_name}) write_file(c.dir + "/out/" + n, std::string(3000, 'x') + "\n");
        }

        sim::IoPlan plan;
        if (trouble >= 5) plan.p_short_write = 0.4, plan.p_eintr = 0.2;
        if (trouble >= 7) {
            const char *where[] = {"nodes.csv", "edges.csv", "net.osm"};
            plan.only = where[trouble - 7];
            const u64 kind = r.below(3);
            const double p = r.chance(0.5) ? 0.3 : 1;
            if (kind == 0) plan.p_enospc = p, plan.persistent_enospc = r.chance(0.5);
            if (kind == 1) plan.p_eio_write = p;
            if (kind == 2) plan.p_open_fail = p;
        } else plan.only = c.dir + "/out/n";

        auto body = [&] {
            sim::heap_check(true);
            scheduled(c, [&] {
                Net net;
                scen::Mute mute;
                k.prepare(d, [&](const char *stage, const Net &n) {
                    if (std::string{stage} == "edges") sim::io_plan(plan);
                    if (std::string{stage} == "network") net = n;
                });
                const bool failed = sim::io_failed();
                sim::io_reset();
                if (not net.e.empty()) sim::nontrivial();
                sim::state(sim::mix(net.v.size(), net.e.size()));
                for (const bool nodes : {true, false}) {
                    const std::string name = nodes ? "nodes.csv" : "edges.csv";
                    const bool told = mute.text.find(name) != std::string::npos;
                    sim::check(failed or not told, "false-report", mute.text);
                    if (told) sim::count("probe:reported-csv"); else check_csv(c.dir + "/out", net, nodes);
                }
                check_osm(c.dir + "/out/" + osm_name, net, to);
                sim::count("probe:exported");
            });
        };
        if (trouble < 7) { body(); return; }
        if (isolated(body) == End::refused) sim::count("probe:refused-export");
        sim::nontrivial();
    }

    sim::Register reg{"N05", run, "preparation with exports: CSV exporters of nodes and edges, OSM exporter, libosmium writer (XML, OPL, PBF, bzip2) and its threads, reprojection",
            "file system calls pass a fault seam; exported maps are read with libosmium; runtime choice of storage types replaced by six combinations"};

}
