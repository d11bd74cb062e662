#include "charm++.h"
