#include "import_impl.hpp"
namespace imp { extern const Combo combo_1 = make<map_matching_2::geometry::cs_geographic, file, file, file, file, file, file>("geographic, file file file file file file"); }
