#include "ops_cat.hpp"
namespace ops {
void catalogue_rings1(std::vector<Op> &v)
{
    using L1 = lvl1param; using L2 = lvl2param; using L0 = lvl0param;
    rings<L1>(v, "lvl1");
}
}  // namespace ops
