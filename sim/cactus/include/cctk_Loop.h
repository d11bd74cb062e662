#include "cctk.h"
