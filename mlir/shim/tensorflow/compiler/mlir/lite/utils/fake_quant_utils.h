#ifndef VERIF_FAKE_QUANT_UTILS_H_
#define VERIF_FAKE_QUANT_UTILS_H_
#include <string>
#include <vector>
namespace mlir {
namespace TFL {
std::vector<std::string> AllTfFakeQuantOps();
}
}  // namespace mlir
#endif
