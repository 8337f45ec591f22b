#include "compare_impl.hpp"
namespace scen { void run_compare_geographic(sim::Ctx &c) { CompareScenario<map_matching_2::geometry::cs_geographic>::run(c); } }
