#ifndef VERIF_RUY_INSTRUMENTATION_H_
#define VERIF_RUY_INSTRUMENTATION_H_
namespace ruy { namespace profiler {
class ScopeLabel { public: template <typename... A> explicit ScopeLabel(A&&...) {} ~ScopeLabel() {} };
}}
#endif
