#include "case_pool.h"

// K09 max pooling
PBT_PROPERTY(K09) { PoolCase(c); }
int main(int argc, char** argv) { return pbt::Main(argc, argv); }
