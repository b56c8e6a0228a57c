#include "case_quant.h"

// K02 LceQuantize, LceDequantize
PBT_PROPERTY(K02) { QuantCase(c); }
int main(int argc, char** argv) { return pbt::Main(argc, argv); }
