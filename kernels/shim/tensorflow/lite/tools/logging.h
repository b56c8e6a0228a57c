#ifndef VERIF_TFLITE_TOOLS_LOGGING_H_
#define VERIF_TFLITE_TOOLS_LOGGING_H_
#include <cstdlib>
#include <iostream>
#include <sstream>
namespace verif { inline std::ostringstream& TfliteLog() { static std::ostringstream s; s.str(""); return s; } }
#define TFLITE_LOG(severity) ::verif::TfliteLog()
#define TFLITE_MAY_LOG(severity, should_log) if (should_log) ::verif::TfliteLog()
#endif
