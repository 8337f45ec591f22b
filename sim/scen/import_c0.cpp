#include "import_impl.hpp"
namespace imp { extern const Combo combo_0 = make<map_matching_2::geometry::cs_geographic, mem, mem, mem, mem, mem, mem>("geographic, mem mem mem mem mem mem"); }
