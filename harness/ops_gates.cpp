#include "ops_cat.hpp"
namespace ops {
void catalogue_gates(std::vector<Op> &v)
{
    using L1 = lvl1param; using L2 = lvl2param; using L0 = lvl0param;
    gates<lvlh1param, lvl1hparam>(v, "lvlh1", 1);
    gates<lvl02param, lvl20param>(v, "lvl02", 4);
    gates<lvlh2param, lvl2hparam>(v, "lvlh2", 4);
}
}  // namespace ops
