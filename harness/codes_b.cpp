#include "codes.hpp"
const Unit unit_b = {&make, &same_as, &category, &parse, &socks, &raise};
