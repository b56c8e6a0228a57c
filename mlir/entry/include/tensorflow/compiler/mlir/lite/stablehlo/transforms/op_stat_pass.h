// Stand-in, see stub.h.
#pragma once
#include "entry/stub.h"
