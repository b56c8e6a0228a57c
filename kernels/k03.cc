#include "case_conv.h"

PBT_PROPERTY(K03) { ConvProperty(c, kTfLiteFloat32, c.thorough() ? 300000 : 120000); }
PBT_PROPERTY(K04) { ConvProperty(c, kTfLiteInt8, c.thorough() ? 300000 : 120000); }
PBT_PROPERTY(K05) { ConvProperty(c, kTfLiteInt32, c.thorough() ? 300000 : 120000); }

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
