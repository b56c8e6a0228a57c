#include "ruy/mini_ruy.h"
