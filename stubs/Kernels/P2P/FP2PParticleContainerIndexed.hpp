#include "vf_scalfmm.h"
