#include "import_impl.hpp"
namespace imp { extern const Combo combo_4 = make<map_matching_2::geometry::cs_cartesian, mem, mem, mem, mem, mem, mem>("cartesian, mem mem mem mem mem mem"); }
