#include "import_impl.hpp"
namespace imp { extern const Combo combo_2 = make<map_matching_2::geometry::cs_geographic, file, mem, mem, file, file, mem>("geographic, file mem mem file file mem"); }
