#include "core/sim.hpp"
namespace scen {
    void run_compare_cartesian(sim::Ctx &c);
    void run_compare_geographic(sim::Ctx &c);
}
namespace {
    void run(sim::Ctx &c) {
        if (c.param("geographic", 0, 3) == 0) { sim::count("probe:geographic"); scen::run_compare_geographic(c); }
        else scen::run_compare_cartesian(c);
    }
    sim::Register r6{"S06", run,
            "app compare pipeline: options, CSV track importer, pairing forwarders, comparator workers, line comparator, exporter, console printer, util::coordinator, geometry caches",
            "CSV reader/writer library (minimal replacement), console replaced by a buffer; threads, clock and file calls simulated"};
}
