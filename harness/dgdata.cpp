// the generated DG data for EDGE's executable
#define DGDATA_DEFINE
#include "dgdata.hpp"
