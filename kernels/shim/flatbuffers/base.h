#ifndef VERIF_FLATBUFFERS_BASE_H_
#define VERIF_FLATBUFFERS_BASE_H_
#include <cstdint>
#include <cstring>
#define FLATBUFFERS_LITTLEENDIAN 1
#endif
