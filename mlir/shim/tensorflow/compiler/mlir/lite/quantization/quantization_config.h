// Stand-in for TensorFlow's options of quantisation.
#ifndef VERIF_QUANTIZATION_CONFIG_H_
#define VERIF_QUANTIZATION_CONFIG_H_
#include <optional>
#include <string>
#include <utility>
#include <vector>
namespace tensorflow {
enum DataType { DT_INVALID = 0, DT_FLOAT = 1, DT_INT8 = 6, DT_QINT8 = 11, DT_QUINT8 = 12, DT_QINT16 = 15 };
}
namespace mlir {
namespace quant {
enum class QDQConversionMode { kQDQNone, kQDQStatic, kQDQDynamic, kQDQStrict };
struct QuantizationSpecs {
  tensorflow::DataType inference_type = tensorflow::DT_FLOAT;
  tensorflow::DataType inference_input_type = tensorflow::DT_FLOAT;
  std::vector<std::pair<std::optional<double>, std::optional<double>>> input_ranges;
  std::pair<std::optional<double>, std::optional<double>> default_ranges;
  bool post_training_quantization = false;
  bool weight_quantization = false;
  bool disable_per_channel = false;
  bool enable_mlir_dynamic_range_quantizer = false;
  bool legacy_float_scale = false;
  bool disable_infer_tensor_range = false;
  bool verify_numeric = false;
  bool whole_model_verify = false;
  std::string target_func = "main";
  QDQConversionMode qdq_conversion_mode = QDQConversionMode::kQDQNone;
  bool RunWeightQuantization() const { return weight_quantization; }
  bool RunPropagationAndRewriteQuantizationPasses() const { return inference_type != tensorflow::DT_FLOAT && !weight_quantization; }
  bool IsSignedInferenceType() const { return inference_type == tensorflow::DT_QINT8 || inference_type == tensorflow::DT_QINT16 || inference_type == tensorflow::DT_INT8; }
};
}  // namespace quant
}  // namespace mlir
#endif
