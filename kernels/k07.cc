#include "case_refuse.h"

// K07 refusal of unsupported operators
PBT_PROPERTY(K07) { RefuseCase(c); }

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
