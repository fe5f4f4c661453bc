// The second translation unit of the driver of U01.
#include "u01.h"
Getter getterB(int n) { return getter(n, std::make_index_sequence<classes>()); }
namespace { struct Early { Early() { request(1, classes - 3); request(1, classes - 2); } } early; }
