// N01: network files become the network they describe, on every backend.
#include "import_tables.hpp"

#include <osmium/thread/pool.hpp>

namespace imp {

    XY project(int from, int to, XY p);

    const Combo &combo(int n) {
        static const Combo *all[] = {&combo_0, &combo_1, &combo_2, &combo_3, &combo_4, &combo_5};
        return *all[n];
    }

    app::prepare_data prepare_settings(const Combo &k, const std::string &output, const std::vector<std::string> &files, const std::string &format) {
        app::prepare_data d{};
        d.network.format = format;
        d.network.output = output;
        d.network.files = files;
        d.osm_import.profile = app::OSM_TAGS_PROFILE_CAR;
        d.files.graph_file = "graph.bin", d.files.tags_file = "tags.bin", d.files.index_file = "index.bin";
        d.files.osm_vertices_file = "osm_vertices.bin", d.files.osm_tags_file = "osm_tags.bin", d.files.graph_import_file = "graph_import.bin";
        d.files.tags_import_file = "tags_import.bin", d.files.index_build_file = "index_build.bin";
        d.files.initial_size = 64 * 1024;
        d.process.simplify = app::SIMPLIFY_NONE;
        d.memory.mmap_graph_import = k.mmap_graph_import, d.memory.mmap_tags_import = k.mmap_tags_import, d.memory.mmap_graph = k.mmap_graph;
        d.memory.mmap_tags = k.mmap_tags, d.memory.mmap_indices = k.mmap_indices, d.memory.mmap_index_build = k.mmap_index_build;
        d.memory.mmap_osm_vertices = k.mmap_graph_import, d.memory.mmap_osm_tags = k.mmap_tags_import;
        d.srs._srs = 4326, d.srs._srs_type = "", d.srs._transform_srs = k.geographic ? -1 : 3857, d.srs._transform_srs_type = "";
        return d;
    }

    app::match_data match_settings(const Combo &k, const std::string &input) {
        app::match_data d{};
        d.input.input = input;
        d.files.graph_file = "graph.bin", d.files.tags_file = "tags.bin", d.files.index_file = "index.bin";
        d.memory.mmap_graph = k.mmap_graph, d.memory.mmap_tags = k.mmap_tags, d.memory.mmap_indices = k.mmap_indices;
        return d;
    }

    sim::Sched draw_sched(sim::Ctx &c) {
        sim::Sched s;
        s.p_switch = static_cast<double>(c.param("switch_percent", 0, 50)) / 100;
        s.p_mem = c.param("preempt", 0, 3) == 0 ? 0.0001 : 0;
        s.max_steps = 400'000'000;
        return s;
    }

    void scheduled(sim::Ctx &c, const std::function<void()> &fn) {
        setenv("OSMIUM_POOL_THREADS", "2", 1);
        sim::start_sched(draw_sched(c));
        fn();
        osmium::thread::Pool::default_instance().shutdown_all_workers();
        sim::stop_sched();
    }

}

namespace {

    using namespace imp;

    bool is_geographic(int srs) { return srs == 4326; }

    void run(sim::Ctx &c) {
        auto r = c.rng("work");
        const auto &k = combo(static_cast<int>(c.param("combination", 0, COMBOS - 1)));
        static const std::string formats[] = {app::FORMAT_OSM, app::FORMAT_OSM, app::FORMAT_OSM, app::FORMAT_ARC_NODE, app::FORMAT_SEATTLE, app::FORMAT_MELBOURNE, app::FORMAT_GISCUP};
        const std::string format = formats[c.param("format", 0, 6)];
        const long trouble = c.param("trouble", 0, 9);      // 0..4 none, 5,6 short reads, 7 unreadable, 8,9 disk full
        const bool osm = format == app::FORMAT_OSM;
        std::vector<std::string> files;
        std::filesystem::create_directory(c.dir + "/in");
        auto put = [&](const std::string &name, const std::string &text) {
            files.push_back(c.dir + "/in/" + name);
            write_file(files.back(), text);
        };
        Net want;
        int from = 4326, to = k.geographic ? 4326 : 3857;
        Profile profile = car_profile();
        bool manual = false;
        const long scale = c.tier == "thorough" ? 3 : 1;
        if (osm) {
            RoadGen g{c.param("nodes", 1, 60 * scale), c.param("ways", 0, 40 * scale), c.param("span", 2, 20), c.param("keys", 1, 5), c.param("longvalues", 0, 2), c.param("short_ways", 0, 1),
                    c.param("dup_spots", 0, 1) == 1};
            const int nf = static_cast<int>(c.param("files", 1, 3));
            manual = c.param("manual_profile", 0, 2) == 0;
            if (manual) {
                auto rules = [&](Rules &x, std::initializer_list<const char *> ks) {
                    x.def = r.chance(0.3), x.rules.clear();
                    const long n = r.range(0, 4);
                    for (long i = 0; i < n; ++i) {
                        Rule q{r.chance(0.6), std::data(ks)[r.below(ks.size())], r.chance(0.7), ""};
                        static const char *vals[] = {"residential", "motorway", "footway", "yes", "-1", "v1", "v3", "roundabout"};
                        if (q.has_value) q.value = vals[r.below(8)];
                        x.rules.push_back(q);
                    }
                };
                rules(profile.query, {"highway", "k0", "oneway"});
                rules(profile.filter, {"highway", "k0", "junction"});
                profile.filter.def = r.chance(0.8);
                rules(profile.oneway, {"oneway", "highway", "junction"});
                rules(profile.reverse, {"oneway", "k0"});
            }
            const auto els = g.make(c, r, profile, nf, c.param("shuffled", 0, 3) == 0);
            for (int f = 0; f < nf; ++f) {
                const bool opl = c.param("opl", 0, 3) == 0;
                put("map" + std::to_string(f) + (opl ? ".osm.opl" : ".osm"), osm_file(els, f, opl));
            }
            want = osm_network(els, nf, profile, [&](XY p) { return project(from, to, p); });
        } else {
            static const std::pair<int, int> geo[] = {{4326, 4326}, {3857, 4326}}, cart[] = {{3857, 3857}, {4326, 3857}, {25832, 3857}};
            const long which = c.param("projection", 0, 2);
            std::tie(from, to) = k.geographic ? geo[which % 2] : cart[which];
            const long sets = c.param("sets", 1, 2);
            for (long s = 0; s < sets; ++s) {
                if (s and format != app::FORMAT_ARC_NODE) break;      // identifiers of the other formats are global
                const Table t = make_table(c, r, is_geographic(from), format, c.param("nodes", 0, 60 * scale), c.param("edges", 0, 80 * scale));
                int i = 0;
                for (auto &text : table_files(t, format)) put("set" + std::to_string(s) + "_" + std::to_string(i++) + ".txt", text);
                Net n = table_network(t, format, [&](XY p) { return project(from, to, p); });
                for (auto &e : n.e) e.from += want.v.size(), e.to += want.v.size();
                want.v.insert(want.v.end(), n.v.begin(), n.v.end());
                want.e.insert(want.e.end(), n.e.begin(), n.e.end());
            }
        }
        auto d = prepare_settings(k, c.dir + "/out", files, format);
        if (manual) {
            d.osm_import.profile = app::OSM_TAGS_PROFILE_MANUAL;
            d.osm_import.query = profile.query.text(), d.osm_import.filter = profile.filter.text();
            d.osm_import.oneway = profile.oneway.text(), d.osm_import.oneway_reverse = profile.reverse.text();
        }
        d.srs._srs = from, d.srs._transform_srs = from == to ? -1 : to;
        d.srs.correct({});
        d.files.initial_size = static_cast<std::size_t>(c.param("initial_kb", 24, 96)) * 1024;
        sim::state(sim::mix(static_cast<u64>(c.param("combination", 0, COMBOS - 1)), sim::hash_str(format)));
        sim::state(sim::mix(want.v.size(), want.e.size()));
        if (not want.e.empty()) sim::nontrivial();

        sim::IoPlan plan;
        if (trouble == 5 or trouble == 6) plan.p_short_read = 0.5, plan.only = "/in/";
        if (trouble == 7) {
            plan.p_short_read = 0.3;
            if (r.chance(0.5)) plan.p_eio_read = 0.3; else plan.p_open_fail = 0.4;
            plan.only = "/in/";
        }
        if (trouble >= 8) plan.p_truncate_fail = 0.15, plan.p_enospc = 0.15, plan.p_mmap_fail = 0.03, plan.only = "/out/";
        const bool faults = trouble >= 7;

        auto body = [&] {
            sim::heap_check(true);
            sim::io_plan(plan);
            scheduled(c, [&] {
                bool seen = false;
                auto hook = [&](const char *stage, const Net &n) {
                    seen = true;
                    same_net(n, want, std::string{"after stage "} + stage + " of " + format + " import");
                };
                k.prepare(d, hook);
                sim::check(seen, "no-network", "the preparation ended without a network");
            });
        };
        if (not faults) { body(); return; }
        if (isolated(body) == End::done) sim::count("probe:survived-faults");
        sim::nontrivial();
    }

    sim::Register reg{"N01", run, "network importers (OSM, arc-node, Seattle, Melbourne, GIS Cup), osm_handler, libosmium reader and its threads, graph/tag helpers, preparation stages of the app",
            "file system calls pass a fault seam; source files written by the scenario; runtime choice of storage types replaced by six combinations"};

}
