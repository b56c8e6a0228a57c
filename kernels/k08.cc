#include "case_history.h"

// K08 histories of resizes, allocations, invocations, data and thread changes of a chain
// LceQuantize -> LceBconv2d (packed) -> [LceBMaxPool2d] -> LceBconv2d (float/int8/packed).
PBT_PROPERTY(K08) { HistoryCase(c); }
int main(int argc, char** argv) { return pbt::Main(argc, argv); }
