#include "core/sim.hpp"
namespace scen {
    void run_match_cartesian(sim::Ctx &c);
    void run_match_geographic(sim::Ctx &c);
}
namespace {
    void run(sim::Ctx &c) {
        if (c.param("geographic", 0, 3) == 0) { sim::count("probe:geographic"); scen::run_match_geographic(c); }
        else scen::run_match_cartesian(c);
    }
    const char *REAL = "app match pipeline: options, CSV track importer, matcher, routing, environments, learners, exporters, console printer, util::coordinator, geometry caches";
    const char *STUB = "CSV reader/writer library (minimal replacement), console replaced by a buffer; threads, clock, malloc failures and file calls simulated";
    sim::Register r1{"S01", run, REAL, STUB}, r3{"S03", run, REAL, STUB}, r4{"S04", run, REAL, STUB}, r5{"S05", run, REAL, STUB}, r7{"S07", run, REAL, STUB}, r8{"S08", run, REAL, STUB}, r9{"S09", run, REAL, STUB};
}
