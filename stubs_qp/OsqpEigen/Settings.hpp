// Stand-in for OsqpEigen 0.9+ (see standin.h)
#ifndef VERIF_STUB_OSQPEIGEN_SETTINGS_H
#define VERIF_STUB_OSQPEIGEN_SETTINGS_H
#include <osqp.h>
namespace OsqpEigen
{
class Settings
{
  OSQPSettings s_;

public:
  Settings() { resetDefaultSettings(); }
  void resetDefaultSettings() { osqp_set_default_settings(&s_); }
  void setVerbosity(bool v) { s_.verbose = v; }
  void setWarmStart(bool v) { s_.warm_starting = v; }
  void setPolish(bool v) { s_.polishing = v; }
  void setAdaptiveRho(bool v) { s_.adaptive_rho = v; }
  void setMaxIteration(int v) { s_.max_iter = v; }
  void setAbsoluteTolerance(double v) { s_.eps_abs = v; }
  void setRelativeTolerance(double v) { s_.eps_rel = v; }
  void setCheckDualGap(bool v) { s_.check_dualgap = v; }
  OSQPSettings* getSettings() { return &s_; }
};
}  // namespace OsqpEigen
#endif
