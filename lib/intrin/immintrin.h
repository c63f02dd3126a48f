#include "emmintrin.h"
