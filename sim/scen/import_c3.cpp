#include "import_impl.hpp"
namespace imp { extern const Combo combo_3 = make<map_matching_2::geometry::cs_geographic, mem, file, file, mem, mem, file>("geographic, mem file file mem mem file"); }
