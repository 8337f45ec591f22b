#include "compare_impl.hpp"
namespace scen { void run_compare_cartesian(sim::Ctx &c) { CompareScenario<map_matching_2::geometry::cs_cartesian>::run(c); } }
