// N03: a prepared network reads back as it was saved, or saving or opening it fails.
#include "import_util.hpp"

#include <fstream>

#include "util/compiler.hpp"
#include "util/version.hpp"

namespace {

    using namespace imp;

    void same_lengths(const Net &got, const Net &want) {
        auto list = [](const Net &n) {
            std::vector<std::string> r;
            for (auto &e : n.e) r.push_back(canon(n, e) + " length " + num(e.length));
            std::sort(r.begin(), r.end());
            return r;
        };
        const auto a = list(got), b = list(want);
        for (std::size_t i = 0; i < a.size() and i < b.size(); ++i) if (a[i] != b[i]) sim::violation("network-differs", "the opened network has " + a[i].substr(0, 300) + " instead of " + b[i].substr(0, 300));
    }

    std::string slurp(const std::string &path) {
        std::ifstream f{path, std::ios::binary};
        return {std::istreambuf_iterator<char>{f}, {}};
    }

    bool replace_last(std::string &s, const std::string &what) {
        const auto at = s.find(what);
        if (what.empty() or at == std::string::npos) return false;
        s[at + what.size() - 1] ^= 1;
        return true;
    }

    void run(sim::Ctx &c) {
        auto r = c.rng("work");
        const int which = static_cast<int>(c.param("combination", 0, COMBOS - 1));
        const auto &k = combo(which);
        const long scale = c.tier == "thorough" ? 3 : 1;
        std::filesystem::create_directory(c.dir + "/in");
        RoadGen g{c.param("nodes", 1, 40 * scale), c.param("ways", 0, 25 * scale), c.param("span", 1, 12), c.param("keys", 1, 5), c.param("longvalues", 0, 2), c.param("short_ways", 0, 1), true};
        write_file(c.dir + "/in/map.osm.opl", osm_file(g.make(c, r, car_profile(), 1, false), 0, true));
        write_file(c.dir + "/in/older.osm.opl", osm_file(g.make(c, r, car_profile(), 1, false), 0, true));
        auto settings = [&](const Combo &with, const std::string &out, const char *map) {
            auto d = prepare_settings(with, c.dir + out, {c.dir + "/in/" + map}, app::FORMAT_OSM);
            d.process.simplify = c.param("simplify", 0, 1) ? app::SIMPLIFY_ALL : app::SIMPLIFY_NONE;
            d.process.remove_unconnected = c.param("remove_unconnected", 0, 3) == 0;
            d.process.remove_duplicate_nodes = d.process.remove_duplicate_edges = true;
            d.srs._srs = 4326, d.srs._transform_srs = k.geographic ? -1 : 3857;
            d.srs.correct({});
            d.files.initial_size = static_cast<std::size_t>(c.param("initial_kb", 24, 96)) * 1024;
            return d;
        };
        auto alike = [&](u64 n) -> const Combo & { return combo(k.geographic ? static_cast<int>(n % 4) : 4 + static_cast<int>(n % 2)); };
        const long mode = c.param("mode", 0, 11);
        const bool damage = mode >= 2 and mode <= 5, bad_save = mode >= 6 and mode <= 9, bad_open = mode >= 10;
        const bool older = c.param("older", 0, 2) == 0;
        const auto &before = alike(r.next()), &other = alike(static_cast<u64>(which) + 1);
        const std::string file = std::vector<std::string>{"graph.bin", "tags.bin", "index.bin"}[r.below(3)];
        const u64 how = r.below(10);
        const double cut = r.unit();

        std::vector<Query> queries;
        {
            const double x0 = k.geographic ? 9 : 1001875, y0 = k.geographic ? 48 : 6106854, step = k.geographic ? 0.01 : 1113.2;
            for (long i = r.range(0, 12); i > 0; --i) {
                // not exactly at a node, where the rounding of Boost.Geometry decides
                auto at = [&](double o) { return o + step * (static_cast<double>(r.range(-1, g.span + 1)) + 0.1 + 0.8 * r.unit()); };
                const double a = at(x0), b = at(x0), e = at(y0), f = at(y0);
                queries.push_back({{std::min(a, b), std::min(e, f)}, {std::max(a, b), std::max(e, f)}});
            }
        }
        Net want;
        auto keep = [&](Net &to) { return [&](const char *stage, const Net &n) { if (std::string{stage} == "network") to = n; }; };
        auto prepare = [&](const Combo &with, const std::string &out, const char *map, Net &to) {
            to = {};
            with.prepare(settings(with, out, map), keep(to));
        };
        auto reopen = [&](const std::string &when) {
            const Net got = k.open(match_settings(k, c.dir + "/out"), queries);
            same_net(got, want, when);
            same_lengths(got, want);
            sim::count("probe:opened");
        };
        sim::heap_check(true);
        sim::state(sim::mix(static_cast<u64>(which), static_cast<u64>(mode)));

        if (bad_save) {
            sim::IoPlan plan;
            plan.only = "/out/";
            const u64 kind = r.below(6);
            const double p = r.chance(0.5) ? 0.03 : 0.25;
            if (kind == 0) plan.p_enospc = p, plan.persistent_enospc = r.chance(0.5);
            if (kind == 1) plan.p_eio_write = p;
            if (kind == 2) plan.p_open_fail = p;
            if (kind == 3) plan.p_truncate_fail = p, plan.p_enospc = p;
            if (kind == 4) plan.p_mmap_fail = p;
            if (kind == 5) plan.p_enospc = plan.p_eio_write = plan.p_open_fail = plan.p_truncate_fail = p / 2;
            if (r.chance(0.5)) plan.p_short_write = 0.3, plan.p_eintr = 0.2;
            const bool only_end = r.chance(0.5);      // the final files only
            const auto end = isolated([&] {
                bool failed = false;
                scheduled(c, [&] {
                    Net unused;
                    prepare(combo(k.geographic ? 0 : 4), "/ref", "map.osm.opl", want);
                    if (older) prepare(before, "/out", "older.osm.opl", unused);
                    if (not only_end) sim::io_plan(plan);
                    k.prepare(settings(k, "/out", "map.osm.opl"), [&](const char *stage, const Net &) {
                        if (only_end and std::string{stage} == "edges") sim::io_plan(plan);
                    });
                    failed = sim::io_failed();
                    sim::io_reset();
                });
                try {
                    reopen("opened after a preparation with disk faults that reported success");
                } catch (const std::exception &x) {
                    if (not failed) sim::violation("refused-without-fault", std::string{"a network saved without any fault cannot be opened: "} + x.what());
                    sim::count("probe:refused-opening");
                }
            });
            if (end == End::refused) sim::count("probe:refused-saving");
            sim::nontrivial();
            return;
        }

        scheduled(c, [&] {
            Net unused;
            if (older) prepare(before, "/out", "older.osm.opl", unused);
            if (damage and how < 2) prepare(other, "/other", "map.osm.opl", unused);
            prepare(k, "/out", "map.osm.opl", want);
        });
        if (not want.e.empty()) sim::nontrivial();

        if (damage) {
            const std::string path = c.dir + "/out/" + file;
            std::string what;
            if (how == 2) std::filesystem::remove(path), what = "file removed";
            else if (how <= 1) std::filesystem::copy_file(c.dir + "/other/" + file, path, std::filesystem::copy_options::overwrite_existing), what = "file of another kind of storage";
            else if (how == 3 or how == 4) {
                auto s = slurp(path);
                const bool mapped = file == "graph.bin" ? k.mmap_graph : file == "tags.bin" ? k.mmap_tags : k.mmap_indices;
                bool changed = false;
                if (mapped) changed = replace_last(s, how == 3 ? map_matching_2::util::version() : map_matching_2::util::get_compiler_info());
                else if (const auto at = s.substr(0, 64).find(std::string{"\x04\x08\x04\x08", 4}); at != std::string::npos) s[at + 1] = 4, changed = true;
                sim::check(changed, "no-build-info", file + " does not name the build that wrote it");
                write_file(path, s);
                what = "file of another build";
            } else {
                const auto size = std::filesystem::file_size(path);
                const auto n = how == 5 and size > 20 ? size - 1 - static_cast<u64>(cut * 20) : static_cast<u64>(cut * static_cast<double>(size));
                std::filesystem::resize_file(path, n);
                what = "file cut to " + std::to_string(n) + " of " + std::to_string(size) + " bytes";
            }
            const bool must_refuse = how <= 4 and &k != &other and not (how <= 1 and (file == "graph.bin" ? k.mmap_graph == other.mmap_graph : file == "tags.bin" ? k.mmap_tags == other.mmap_tags : k.mmap_indices == other.mmap_indices));
            const auto end = isolated([&] {
                sim::Sched s;
                s.clock_step_ns = 10'000'000'000;     // Boost waits up to five minutes for a file to be initialized
                sim::start_sched(s);
                reopen("opened, " + file + ": " + what);
                sim::stop_sched();
            }, true);
            if (must_refuse and end == End::done) sim::violation("not-refused", file + ": " + what + ", but the network was opened");
            sim::count(end == End::done ? "probe:harmless-damage" : "probe:damage-refused");
            sim::count(how == 2 ? "fault:file-removed" : how <= 1 ? "fault:file-swapped" : how <= 4 ? "fault:other-build" : "fault:file-truncated");
            return;
        }
        if (bad_open) {
            sim::IoPlan plan;
            plan.only = "/out/";
            const u64 kind = r.below(4);
            if (kind != 1) plan.p_short_read = 0.4, plan.p_eintr = 0.2;
            if (kind == 1) plan.p_eio_read = 0.2;
            if (kind == 2) plan.p_open_fail = 0.2;
            if (kind == 3) plan.p_mmap_fail = 0.2;
            isolated([&] {
                sim::io_plan(plan);
                reopen("opened with disk faults");
            });
            return;
        }
        reopen("opened");
        reopen("opened again");
    }

    sim::Register reg{"N03", run, "preparation stages of the app with OSM import, serialization of networks, mmap storages, opening networks and their indices as the matching app does",
            "file system calls pass a fault seam; runtime choice of storage types replaced by six combinations"};

}
