#include "match_drive.hpp"
#include "match_cand.hpp"
namespace scen {
    void run_match_cartesian(sim::Ctx &c) {
        using CS = map_matching_2::geometry::cs_cartesian;
        if (c.prop == "S08") DriveScenario<CS>::run(c);
        else if (c.prop == "S09") CandidateScenario<CS>::run(c);
        else MatchScenario<CS>::run(c);
    }
}
