// EDGE-V's interface from the working tree (a build of EDGE finds it among the installed headers)
#include "tools/edge_v/src/edge_v.h"
