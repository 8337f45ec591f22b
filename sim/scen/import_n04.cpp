// N04: a preparation that follows a killed one gives the same network as a first run.
#include "import_util.hpp"

#include <sys/mman.h>

namespace {

    using namespace imp;

    void run(sim::Ctx &c) {
        auto r = c.rng("work");
        const int which = static_cast<int>(c.param("combination", 0, COMBOS - 1));
        const auto &k = combo(which);
        const long scale = c.tier == "thorough" ? 2 : 1;
        std::filesystem::create_directory(c.dir + "/in");
        RoadGen g{c.param("nodes", 1, 40 * scale), c.param("ways", 0, 25 * scale), c.param("span", 1, 12), c.param("keys", 1, 5), c.param("longvalues", 0, 2), c.param("short_ways", 0, 1), true};
        write_file(c.dir + "/in/map.osm.opl", osm_file(g.make(c, r, car_profile(), 1, false), 0, true));
        write_file(c.dir + "/in/older.osm.opl", osm_file(g.make(c, r, car_profile(), 1, false), 0, true));
        auto settings = [&](const Combo &with, const std::string &out, const char *map) {
            auto d = prepare_settings(with, c.dir + out, {c.dir + "/in/" + map}, app::FORMAT_OSM);
            d.process.simplify = c.param("simplify", 0, 1) ? app::SIMPLIFY_ALL : app::SIMPLIFY_NONE;
            d.process.remove_unconnected = c.param("remove_unconnected", 0, 3) == 0;
            d.process.remove_duplicate_nodes = d.process.remove_duplicate_edges = true;
            d.srs._srs = 4326, d.srs._transform_srs = k.geographic ? -1 : 3857;
            d.srs.correct({});
            d.files.initial_size = static_cast<std::size_t>(c.param("initial_kb", 24, 96)) * 1024;
            return d;
        };
        auto alike = [&]() -> const Combo & { const u64 n = r.next(); return combo(k.geographic ? static_cast<int>(n % 4) : 4 + static_cast<int>(n % 2)); };
        std::vector<Query> queries;
        for (long i = r.range(0, 6); i > 0; --i) {
            const double x0 = k.geographic ? 9 : 1001875, y0 = k.geographic ? 48 : 6106854, step = k.geographic ? 0.01 : 1113.2;
            auto at = [&](double o) { return o + step * (static_cast<double>(r.range(-1, g.span + 1)) + 0.1 + 0.8 * r.unit()); };
            const double a = at(x0), b = at(x0), e = at(y0), f = at(y0);
            queries.push_back({{std::min(a, b), std::min(e, f)}, {std::max(a, b), std::max(e, f)}});
        }

        struct Shared { u64 ops, steps; };
        auto *seen = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        auto once = [&](const Combo &with, const std::string &out, const char *map, const std::function<void()> &before) {
            scheduled(c, [&] {
                if (before) before();
                const u64 o = sim::io_ops(), s = sim::steps();
                with.prepare(settings(with, out, map), {});
                seen->ops = sim::io_ops() - o, seen->steps = sim::steps() - s;
            });
        };
        sim::heap_check(true);

        // what earlier runs left behind: other networks and settings, finished or killed
        long crashes = 0;
        const long lives = c.param("earlier_runs", 1, 4);
        for (long i = 0; i < lives; ++i) {
            const bool same = r.chance(0.6), finish = r.chance(0.15), at_step = r.chance(0.5);
            const double when = r.unit();
            const Combo &with = same or r.chance(0.5) ? k : alike();
            const char *map = same or r.chance(0.3) ? "map.osm.opl" : "older.osm.opl";
            if (not finish) isolated([&] { once(with, "/dry", map, {}); });
            const End end = isolated([&] {
                once(with, "/out", map, [&] {
                    if (finish) return;
                    if (at_step) sim::crash_after(1 + static_cast<u64>(when * static_cast<double>(seen->steps)));
                    else {
                        sim::IoPlan p;
                        p.crash_at = static_cast<long>(sim::io_ops()) + static_cast<long>(when * static_cast<double>(seen->ops));
                        sim::io_plan(p);
                    }
                });
            });
            if (end == End::crashed) ++crashes, sim::count(at_step ? "fault:killed-at-step" : "fault:killed-at-file-operation");
            sim::state(sim::mix(static_cast<u64>(which), sim::mix(sim::hash_str(with.name), static_cast<u64>(when * 64) * 2 + at_step)));
        }
        if (crashes) sim::nontrivial();

        scheduled(c, [&] {
            k.prepare(settings(k, "/ref", "map.osm.opl"), {});
            k.prepare(settings(k, "/out", "map.osm.opl"), {});
        });
        const Net want = k.open(match_settings(k, c.dir + "/ref"), {});
        const Net got = k.open(match_settings(k, c.dir + "/out"), queries);
        same_net(got, want, "prepared again after " + std::to_string(crashes) + " crashes");
        for (std::size_t i = 0; i < want.e.size(); ++i) if (got.e[i].length != want.e[i].length) sim::violation("network-differs", "the length of an edge differs after a crash");
    }

    sim::Register reg{"N04", run, "preparation stages of the app with OSM import, mmap storages, serialization, opening networks as the matching app does",
            "process death at file operations and at any instrumented memory access; what the operating system keeps of a process that died survives (no power failure)"};

}
