// what the project's build force-includes with this compiler generation
#ifdef __cplusplus
#include <math.h>
#include <algorithm>
#include <boost/serialization/split_member.hpp>
#endif
