#include "import_impl.hpp"
namespace imp { extern const Combo combo_5 = make<map_matching_2::geometry::cs_cartesian, file, file, file, file, file, file>("cartesian, file file file file file file"); }
