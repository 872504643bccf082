/* Force-included into every C++ file of the build: headers that cdec relies on
   getting indirectly and that gcc 13 and Boost 1.83 no longer pull in. */
#include <math.h>
#include <algorithm>
#include <boost/serialization/split_member.hpp>
